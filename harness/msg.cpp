// U01: messages reproduce the objects sent
#include "meshgen.hpp"
#include "linalg.hpp"
#include <utils_buffering.hpp>
#include <numeric>
using namespace vh;

template<class T> struct MkEntry { static T f (double x) { T t; for (int i = 0; i < ngbla::Height<T>(); i++) for (int j = 0; j < ngbla::Width<T>(); j++) t(i, j) = x + 10 * i + j; return t; } };
template<> struct MkEntry<double> { static double f (double x) { return x; } };

// ---- objects. An object can be sent, received, described, and spoilt.
struct Obj
{
  virtual ~Obj () { }
  virtual void Send (const NgsAMG_Comm & c, int dest) = 0;
  virtual NG_MPI_Request ISend (NgsAMG_Comm & c, int dest) = 0;
  virtual string Recv (const NgsAMG_Comm & c, int src) = 0;   // description of what arrived
  virtual string Str () = 0;
  virtual void Spoil () = 0;                                 // overwrite the contents
};
template<class T> string Desc (const FlatTable<T> & t) { string s = str("T", t.Size(), ":"); for (size_t k = 0; k < t.Size(); k++) { s += "["; for (auto x : t[k]) s += str(x, " "); s += "]"; } return s; }
template<class T> string Desc (const FlatArray<T> & a) { string s = str("A", a.Size(), ":"); for (auto & x : a) s += str(x, " "); return s; }
template<class TM> string Desc (const SparseMatrixTM<TM> & m)
{
  string s = str("M", m.Height(), "x", m.Width(), ":");
  for (int k = 0; k < m.Height(); k++) { s += "["; auto ri = m.GetRowIndices(k); auto rv = m.GetRowValues(k); for (size_t j = 0; j < ri.Size(); j++) s += str(ri[j], "=", rv[j], " "); s += "]"; }
  return s;
}
static string Desc (const BlockTM & m, int n)
{
  string s = str("B", n, " ");
  s += str(m.HasNodes<NT_VERTEX>(), m.HasNodes<NT_EDGE>(), m.HasNodes<NT_FACE>(), " ", m.GetNN<NT_VERTEX>(), " ", m.GetNNGlobal<NT_VERTEX>(), " ", m.GetNN<NT_EDGE>(), " ", m.GetNNGlobal<NT_EDGE>(), "|");
  if (n) s += str(m.GetENN<NT_VERTEX>(), ",", m.GetENN<NT_EDGE>(), ",", m.GetCNN<NT_EDGE>(), "|");
  for (int k = 0; k < n; k++)
    {
      s += str("{", m.GetENN<NT_VERTEX>(k), ",", m.GetENN<NT_EDGE>(k), ",", m.GetCNN<NT_EDGE>(k), ";");
      for (auto v : m.GetENodes<NT_VERTEX>(k)) s += str(v, " ");
      s += ";"; for (auto & e : m.GetENodes<NT_EDGE>(k)) s += str(e.id, ":", e.v[0], "-", e.v[1], " ");
      s += ";"; for (auto & e : m.GetCNodes<NT_EDGE>(k)) s += str(e.id, ":", e.v[0], "-", e.v[1], " ");
      s += "}";
    }
  for (auto v : m.GetNodes<NT_VERTEX>()) s += str(v, " ");
  for (auto & e : m.GetNodes<NT_EDGE>()) s += str(e.id, ":", e.v[0], "-", e.v[1], " ");
  return s;
}

template<class T> struct TabObj : Obj
{
  Table<T> t;
  TabObj (const VI & rows, double off) { Array<int> s(rows.size()); for (size_t i = 0; i < rows.size(); i++) s[i] = rows[i]; t = Table<T>(s); double x = off; for (size_t k = 0; k < rows.size(); k++) for (auto & y : t[k]) y = T(x++); }
  void Send (const NgsAMG_Comm & c, int d) override { c.Send(FlatTable<T>(t), d, NG_MPI_TAG_AMG); }
  NG_MPI_Request ISend (NgsAMG_Comm & c, int d) override { return c.ISend(FlatTable<T>(t), d, NG_MPI_TAG_AMG); }
  string Recv (const NgsAMG_Comm & c, int s) override { Table<T> q(3, 2); c.Recv(q, s, NG_MPI_TAG_AMG); return Desc<T>(q); }
  string Str () override { return Desc<T>(t); }
  void Spoil () override { for (auto & x : t.AsArray()) x = T(-7); if (t.Size()) for (auto & x : t.IndexArray()) x = 0; }
};
template<class T> struct ArrObj : Obj
{
  Array<T> a;
  ArrObj (int n, double off) { a.SetSize(n); for (auto & x : a) x = T(off++); }
  void Send (const NgsAMG_Comm & c, int d) override { c.Send(a, d, NG_MPI_TAG_AMG); }
  NG_MPI_Request ISend (NgsAMG_Comm & c, int d) override { return c.ISend(a, d, NG_MPI_TAG_AMG); }
  string Recv (const NgsAMG_Comm & c, int s) override { Array<T> q; c.Recv(q, s, NG_MPI_TAG_AMG); return Desc<T>(q); }
  string Str () override { return Desc<T>(a); }
  void Spoil () override { for (auto & x : a) x = T(-7); }
};
template<class TM> struct MatObj : Obj
{
  shared_ptr<SparseMatrixTM<TM>> m;
  MatObj (int h, int w, int pat, double off)
  {
    Array<int> pr(h); for (int i = 0; i < h; i++) { pr[i] = 0; for (int j = 0; j < w; j++) pr[i] += pat >> (i * w + j) & 1; }
    m = make_shared<SparseMatrixTM<TM>>(pr, w);
    for (int i = 0; i < h; i++) { int c = 0; for (int j = 0; j < w; j++) if (pat >> (i * w + j) & 1) { m->GetRowIndices(i)[c] = j; m->GetRowValues(i)[c++] = MkEntry<TM>::f(off++); } }
  }
  void Send (const NgsAMG_Comm & c, int d) override { c.Send(*m, d, NG_MPI_TAG_AMG); }
  NG_MPI_Request ISend (NgsAMG_Comm & c, int d) override { return c.ISend(*m, d, NG_MPI_TAG_AMG); }
  string Recv (const NgsAMG_Comm & c, int s) override { shared_ptr<SparseMatrixTM<TM>> q; c.Recv(q, s, NG_MPI_TAG_AMG); return Desc(*q); }
  string Str () override { return Desc(*m); }
  void Spoil () override { for (int i = 0; i < m->Height(); i++) { for (auto & c : m->GetRowIndices(i)) c = 0; for (auto & v : m->GetRowValues(i)) v = -7; } auto f = m->GetFirstArray(); for (auto & x : f) x = 0; }
};
struct MeshObj : Obj
{
  LocMesh L;
  MeshObj (LocMesh l) : L(std::move(l)) { }
  void Send (const NgsAMG_Comm & c, int d) override { c.Send(L.m, d, NG_MPI_TAG_AMG); }
  NG_MPI_Request ISend (NgsAMG_Comm & c, int d) override { throw std::logic_error("no"); }
  string Recv (const NgsAMG_Comm & c, int s) override
  {
    shared_ptr<BlockTM> q; c.Recv(q, s, NG_MPI_TAG_AMG);
    return Desc(*q, q->GetNEqcs());
  }
  string Str () override { return Desc(*L.m, L.m->GetNEqcs()); }
  void Spoil () override { for (auto & v : L.m->GetNodes<NT_VERTEX>()) v = 99; for (auto & e : L.m->GetNodes<NT_EDGE>()) { e.id = 99; e.v = 99; } }
};
struct MkObj { string id; std::function<std::unique_ptr<Obj>(int,int)> f; };   // (rank of the sender, position)

static std::vector<sim::Options> Modes (int n)
{
  auto v = vf::modes(n, true);
  // buffering depends on the size of the message
  for (size_t e : { 8, 16, 24 }) for (bool late : { false, true }) { sim::Options o; o.n = n; o.rendezvous = true; o.eagerMax = e; o.late = late; o.waitany = false; v.push_back(o); }
  return v;
}
static void Par2 (int n, const std::function<void(int)> & body, const std::function<void()> & after = nullptr, int mixed = 1)
{ for (auto & o : Modes(n)) if (mixed == 1 || (mixed == 2) == bool(o.eagerMax)) { vf::Explore ex; ex.opt = o; ex(body, after); } }

// rank 0 sends seq[0], seq[1], .. to rank 1 (both: rank 1 as well). nb: bit k: message k non-blocking; sources are overwritten as soon as allowed
static void Transfer (const std::vector<MkObj> & seq, int nb, bool both, bool pending = false)
{
  int n = seq.size();
  std::vector<string> sent[2], got[2];
  Par2(2, [&](int r) {
    NgsAMG_Comm c = World(); sent[r].assign(n, ""); got[r].assign(n, "");
    std::vector<std::unique_ptr<Obj>> o; Array<NG_MPI_Request> rq; VI pend;
    for (int k = 0; k < n; k++) { o.push_back(seq[k].f(r, k)); sent[r][k] = o[k]->Str(); }
    auto sends = [&]() { for (int k = 0; k < n; k++) if (nb >> k & 1) { rq.Append(o[k]->ISend(c, 1 - r)); pend.push_back(k); } else { o[k]->Send(c, 1 - r); o[k]->Spoil(); } };
    auto recvs = [&]() { for (int k = 0; k < n; k++) { auto q = seq[k].f(r, k); got[r][k] = q->Recv(c, 1 - r); } };
    auto wait = [&]() { MyMPI_WaitAll(rq); for (int k : pend) o[k]->Spoil(); };
    if (both) { sends(); recvs(); wait(); }
    else if (r == 0) { sends(); wait(); } else recvs();
    c.Barrier();
  }, [&]() {
    for (int k = 0; k < n; k++) vf::check(got[1][k] == sent[0][k], "content", str("message ", k, " (", seq[k].id, "): sent ", sent[0][k], " received ", got[1][k]));
    if (both) for (int k = 0; k < n; k++) vf::check(got[0][k] == sent[1][k], "content", str("message ", k, " (", seq[k].id, "): sent ", sent[1][k], " received ", got[0][k]));
    string s; for (auto & x : sent[0]) s += x; vf::outcome(vf::hash(s));
  }, pending ? 2 : nb ? 0 : 1);
}

static void RowLists (int n, int m, std::function<void(const VI &)> f) { VI v(n, 0); for (;;) { f(v); int k = n - 1; while (k >= 0 && v[k] == m) v[k--] = 0; if (k < 0) return; v[k]++; } }
static std::vector<MkObj> AllTables (int n, int m)
{
  std::vector<MkObj> v;
  for (int k = 0; k <= n; k++) RowLists(k, m, [&](const VI & rows) {
    v.push_back({ "ti" + S(rows), [rows](int r, int p) { return std::make_unique<TabObj<int>>(rows, 1 + 100 * r + 20 * p); } });
    v.push_back({ "td" + S(rows), [rows](int r, int p) { return std::make_unique<TabObj<double>>(rows, 1.5 + 100 * r + 20 * p); } });
    v.push_back({ "tz" + S(rows), [rows](int r, int p) { return std::make_unique<TabObj<size_t>>(rows, 1 + 100 * r + 20 * p); } }); });
  return v;
}
template<class TM> void Mats (std::vector<MkObj> & v, int hm, int wm, const char * nm)
{
  for (int h = 0; h <= hm; h++) for (int w = 0; w <= wm; w++) for (int pat = 0; pat < (1 << (h * w)); pat++)
    v.push_back({ str(nm, h, "x", w, "p", pat), [h,w,pat](int r, int p) { return std::make_unique<MatObj<TM>>(h, w, pat, 1 + 100 * r + 20 * p); } });
}
static std::vector<MkObj> Arrays ()
{
  std::vector<MkObj> v;
  for (int n = 0; n <= 4; n++)
    {
      v.push_back({ str("ai", n), [n](int r, int p) { return std::make_unique<ArrObj<int>>(n, 1 + 100 * r + 20 * p); } });
      v.push_back({ str("ad", n), [n](int r, int p) { return std::make_unique<ArrObj<double>>(n, 1.5 + 100 * r + 20 * p); } });
    }
  return v;
}
VF_PART(U01, one)
{
  auto v = AllTables(3, 2); Mats<double>(v, 2, 2, "m"); Mats<double>(v, 3, vf::thorough ? 3 : 2, "n"); Mats<Mat<2,2,double>>(v, 2, 2, "b"); Mats<Mat<3,3,double>>(v, 2, 1, "c"); auto a = Arrays(); v.insert(v.end(), a.begin(), a.end());
  for (auto & o : v) for (int nb = 0; nb < 2; nb++) for (int both = 0; both <= nb; both++)
    emit(str(o.id, nb ? "nb" : "", both ? "x" : ""), [=]() { Transfer({ o }, nb, both); });
}
VF_PART(U01, sequences)
{
  std::vector<MkObj> v;
  auto T = AllTables(2, 1); for (auto & o : T) if (o.id[1] != 'z') v.push_back(o);
  std::vector<MkObj> M; Mats<double>(M, 1, 2, "m"); Mats<Mat<2,2,double>>(M, 2, 1, "b"); for (auto & o : M) v.push_back(o);
  auto a = Arrays(); for (auto & o : a) if (o.id.back() < '3') v.push_back(o);
  for (auto & o : v) for (auto & q : v) for (int nb = 0; nb < 4; nb++) for (int both = 0; both <= (nb == 3); both++)
    emit(str(o.id, "+", q.id, "nb", nb, both ? "x" : ""), [=]() { Transfer({ o, q }, nb, both); });
}
VF_PART(U01, three)
{
  std::vector<MkObj> v;
  for (auto & o : AllTables(2, 1)) if (o.id == "ti{}" || o.id == "td{0,1}" || o.id == "ti{1}") v.push_back(o);
  std::vector<MkObj> M; Mats<double>(M, 2, 2, "m"); for (auto & o : M) if (o.id == "m0x2p0" || o.id == "m2x2p9" || o.id == "m2x2p0" || o.id == "m1x1p1") v.push_back(o);
  for (auto & o : Arrays()) if (o.id == "ad0" || o.id == "ai3") v.push_back(o);
  for (auto & o : v) for (auto & q : v) for (auto & w : v) for (int nb = 0; nb < 8; nb++) if (vf::thorough || nb == 0 || nb == 7 || nb == 5) emit(str(o.id, "+", q.id, "+", w.id, "nb", nb), [=]() { Transfer({ o, q, w }, nb, nb == 7); });
}
// non-blocking sends of objects whose parts are buffered or not, depending on their size
VF_PART(U01, pending)
{
  auto v = AllTables(3, 2); Mats<double>(v, 2, 2, "m"); Mats<Mat<2,2,double>>(v, 2, 1, "b"); auto a = Arrays(); v.insert(v.end(), a.begin(), a.end());
  for (auto & o : v) emit(o.id, [=]() { Transfer({ o }, 1, true, true); });
}
// large ones
VF_PART(U01, larger)
{
  std::vector<MkObj> v;
  for (int n : { 17, 64, 200 }) { VI rows; for (int i = 0; i < n; i++) rows.push_back((i * 7) % 5);
    v.push_back({ str("ti", n), [rows](int r, int p) { return std::make_unique<TabObj<int>>(rows, 1 + 100 * r); } });
    v.push_back({ str("ad", n), [n](int r, int p) { return std::make_unique<ArrObj<double>>(n, 1 + 100 * r); } }); }
  for (int n : { 5, 9 }) v.push_back({ str("m", n), [n](int r, int p) {
    auto o = std::make_unique<MatObj<double>>(0, 0, 0, 0); Array<int> pr(n); for (int i = 0; i < n; i++) pr[i] = i % 4;
    o->m = make_shared<SparseMatrixTM<double>>(pr, n + 2); for (int i = 0; i < n; i++) for (int j = 0; j < i % 4; j++) { o->m->GetRowIndices(i)[j] = j * 2 + i % 2; o->m->GetRowValues(i)[j] = i + 0.5 * j + 100 * r; } return o; } });
  for (auto & o : v) for (int nb = 0; nb < 2; nb++) emit(str(o.id, nb ? "nb" : ""), [=]() { Transfer({ o }, nb, nb); });
  for (auto & o : v) for (auto & q : v) emit(str(o.id, "+", q.id), [=]() { Transfer({ o, q }, 3, true); });
}

// every process sends its mesh to the next one
static void MeshRing (const MeshDesc & d)
{
  int np = d.p.np(); std::vector<string> sent(np), got(np);
  Par2(np, [&](int r) {
    NgsAMG_Comm c = World(); MeshObj o(MakeMesh(d, r)); sent[r] = o.Str(); int nx = (r + 1) % np, pv = (r + np - 1) % np;
    MeshObj q({});
    if (r == 0) { o.Send(c, nx); o.Spoil(); got[r] = q.Recv(c, pv); } else { got[r] = q.Recv(c, pv); o.Send(c, nx); o.Spoil(); }
    c.Barrier();
  }, [&]() { for (int r = 0; r < np; r++) { vf::check(got[(r + 1) % np] == sent[r], "mesh", str("rank ", r, " sent ", sent[r], " received ", got[(r + 1) % np])); vf::outcome(vf::hash(sent[r])); } });
}
VF_PART(U01, meshes)
{
  for (int W = 1; W <= 3; W++) for (int N = 1; N <= (W == 3 && !vf::thorough ? 3 : 4); N++) AllParts(W, N, [&](const Part & p) { if (!Canonical(p)) return;
    std::vector<std::pair<int,int>> pr; for (int u = 0; u < N; u++) for (int v = u + 1; v < N; v++) if (p.mask[u] & p.mask[v]) pr.push_back({ u, v });
    for (int s = 0; s < (1 << pr.size()); s++) if (N < 4 || s == (1 << pr.size()) - 1 || __builtin_popcount(s) == 1)
      { MeshDesc d; d.p = p; for (size_t i = 0; i < pr.size(); i++) if (s >> i & 1) d.edges.push_back({ pr[i].first, pr[i].second, p.mask[pr[i].first] & p.mask[pr[i].second] }); emit(d.str(), [d]() { MeshRing(d); }); } });
}

// broadcasts, reductions, pairwise exchanges
template<class T> void BcastTab (int np, int root, const VI & rows)
{
  Par2(np, [&](int r) {
    NgsAMG_Comm c = World(); TabObj<T> o(rows, 1.0); Table<T> t; if (r == root) t = Table<T>(o.t); else t = Table<T>(2, 3);
    c.Bcast(t, root);
    vf::check(Desc<T>(t) == o.Str(), "bcast", str("rank ", r, " got ", Desc<T>(t), " instead of ", o.Str()));
    vf::outcome(vf::hash(o.Str()));
  });
}
VF_PART(U01, bcast)
{
  for (int np = 1; np <= 3; np++) for (int root = 0; root < np; root++)
    {
      for (int n = 0; n <= 3; n++) RowLists(n, 2, [&](const VI & rows) { emit(str("ti", np, root, S(rows)), [=]() { BcastTab<int>(np, root, rows); }); emit(str("td", np, root, S(rows)), [=]() { BcastTab<double>(np, root, rows); }); });
      for (int n = 0; n <= 3; n++) emit(str("a", np, root, "n", n), [=]() { Par2(np, [&](int r) {
        NgsAMG_Comm c = World(); Array<double> a(n); for (int i = 0; i < n; i++) a[i] = 10 * r + i; c.Bcast(FlatArray<double>(a), root); for (int i = 0; i < n; i++) vf::check(a[i] == 10 * root + i, "bcast", str("rank ", r, " entry ", i, " is ", a[i]));
        Array<int> s(n); for (int i = 0; i < n; i++) s[i] = (r + 1) * (i + 1); Array<int> m(n); m = s; c.AllReduceFA(FlatArray<int>(s)); c.AllReduceFA(FlatArray<int>(m), NG_MPI_MAX);
        for (int i = 0; i < n; i++) { vf::check(s[i] == np * (np + 1) / 2 * (i + 1), "allreduce", str("rank ", r, " sum ", s[i])); vf::check(m[i] == np * (i + 1), "allreduce", str("rank ", r, " max ", m[i])); }
        Array<size_t> g(r == root ? np : 0); g = 99; c.Gather(size_t(5 + r), g, root); if (r == root) for (int i = 0; i < np; i++) vf::check(g[i] == size_t(5 + i), "gather", str("entry ", i, " is ", g[i]));
      }); });
    }
  // sub-communicators
  for (int np = 1; np <= 4; np++) for (int s = 1; s < (1 << np); s++) emit(str("sub", np, "s", s), [=]() { Par2(np, [&](int r) {
    NgsAMG_Comm c = World(); VI mem; for (int i = 0; i < np; i++) if (s >> i & 1) mem.push_back(i);
    Array<int> pr(mem.size()); for (size_t i = 0; i < mem.size(); i++) pr[i] = mem[i];
    NgsAMG_Comm u = c.CreateSubCommunicatorGlobal(pr);
    vf::check(u.isValid() == bool(s >> r & 1), "sub", str("rank ", r, " valid ", u.isValid()));
    if (u.isValid())
      {
        vf::check(u.Size() == (int)mem.size() && mem[u.Rank()] == r, "sub", str("rank ", r, " is ", u.Rank(), " of ", u.Size()));
        Array<int> a(1); a[0] = 1 << r; u.AllReduceFA(FlatArray<int>(a)); vf::check(a[0] == s, "sub", str("members ", a[0], " instead of ", s));
      } }); });
}
static void Pairwise (const Part & p)
{
  Par2(p.np(), [&](int r) {
    auto pd = MakePD(p, r); NgsAMG_Comm c(pd->GetCommunicator()); auto dps = pd->GetDistantProcs(); auto loc = p.locals(r);
    // exact description of who has what
    auto T = BuildDPTable(*pd); vf::check(T.Size() == loc.size(), "dptable", ""); for (size_t i = 0; i < loc.size(); i++) vf::check(ToVI(T[i]) == p.dps(loc[i], r), "dptable", str("rank ", r, " row ", i, ": ", S(ToVI(T[i]))));
    auto shared = [&](int a, int b) { VI v; for (int g = 0; g < p.N(); g++) if (p.on(g, a) && p.on(g, b)) v.push_back(g); return v; };
    Array<int> sz(dps.Size()); for (size_t k = 0; k < dps.Size(); k++) sz[k] = shared(r, dps[k]).size();
    Table<double> snd(sz), rcv(sz); auto fill = [&]() { for (size_t k = 0; k < dps.Size(); k++) { auto g = shared(r, dps[k]); for (size_t i = 0; i < g.size(); i++) { snd[k][i] = 100 * r + g[i]; rcv[k][i] = -1; } } };
    auto test = [&](auto & rc, const char * w) { for (size_t k = 0; k < dps.Size(); k++) { auto g = shared(r, dps[k]); vf::check(rc[k].Size() == g.size(), w, "size"); for (size_t i = 0; i < g.size(); i++) vf::check(rc[k][i] == 100 * dps[k] + g[i], w, str("rank ", r, " from ", dps[k], ": ", rc[k][i])); } };
    fill(); ExchangePairWise(c, dps, snd, rcv); test(rcv, "ExchangePairWise");
    { Array<Array<double>> rb(dps.Size()); ExchangePairWise2(c, dps, snd, rb); test(rb, "ExchangePairWise2"); }
    { Array<Array<double>> rb(dps.Size()); ExchangePairWise_norecbuffer(c, dps, snd, rb); test(rb, "ExchangePairWise_norecbuffer"); }
    // unequal sizes, empty ones included
    { Array<Array<int>> s(dps.Size()), rb(dps.Size()); for (size_t k = 0; k < dps.Size(); k++) for (int i = 0; i < (r + dps[k] + r) % 3; i++) s[k].Append(10 * r + dps[k] + 100 * i);
      ExchangePairWise2(c, dps, s, rb); for (size_t k = 0; k < dps.Size(); k++) { vf::check((int)rb[k].Size() == (r + 2 * dps[k]) % 3, "ExchangePairWise2", "size"); for (size_t i = 0; i < rb[k].Size(); i++) vf::check(rb[k][i] == int(10 * dps[k] + r + 100 * i), "ExchangePairWise2", "content"); } }
    // sum and first-come, in order of ranks, identical everywhere
    Array<double> d(loc.size()), q(loc.size()); for (size_t i = 0; i < loc.size(); i++) { d[i] = 1 + loc[i] + 10 * r; q[i] = r + 1; }
    MyAllReduceDofData(*pd, FlatArray<double>(d), [](auto & a, const auto & b) { a += b; });
    MyAllReduceDofData(*pd, FlatArray<double>(q), [](auto & a, const auto & b) { a = 10 * a + b; });
    for (size_t i = 0; i < loc.size(); i++)
      {
        double s = 0, o = 0; auto pr = p.procs(loc[i]); for (int x : pr) { s += 1 + loc[i] + 10 * x; o = 10 * o + x + 1; } if (pr.size() == 1) o = r + 1;
        vf::check(d[i] == s, "MyAllReduceDofData", str("rank ", r, " unknown ", loc[i], ": ", d[i], " instead of ", s)); vf::check(q[i] == o, "MyAllReduceDofData", str("rank ", r, " unknown ", loc[i], ": order ", q[i], " instead of ", o));
      }
  });
}
VF_PART(U01, pairwise)
{
  for (int W = 1; W <= 3; W++) for (int N = 1; N <= 3; N++) AllParts(W, N, [&](const Part & p) { if (Canonical(p)) emit(p.str(), [p]() { Pairwise(p); }); });
  for (int W = 2; W <= 3; W++) AllParts(W, 2, [&](const Part & p) { if (Canonical(p)) emit(p.str(), [p]() { Pairwise(p); }); }, 0);
  AllParts(4, 2, [&](const Part & p) { if (Canonical(p)) emit(p.str(), [p]() { Pairwise(p); }); });
}

// data packed into buffers of doubles
template<class T, class F> void RoundTrip (F fill, const char * nm)
{
  constexpr int n = SIZE_IN_BUFFER<T>(); std::vector<double> buf(n + 2, -77.0); T a, b; fill(a, 1.0); fill(b, 100.0);
  int k = PackIntoBuffer(a, buf.data() + 1); vf::check(k == n, "buffer", str(nm, ": packed ", k, " of ", n));
  vf::check(buf[0] == -77 && buf[n+1] == -77, "buffer", str(nm, ": written out of range"));
  int l = UnpackFromBuffer(b, buf.data() + 1); vf::check(l == n, "buffer", str(nm, ": unpacked ", l, " of ", n));
  std::vector<double> buf2(n + 2, -77.0); PackIntoBuffer(b, buf2.data() + 1); vf::check(buf == buf2, "buffer", str(nm, ": round trip"));
  vf::note("packed types");
}
VF_PART(U01, buffers)
{
  emit("all", []() {
    RoundTrip<double>([](double & x, double o) { x = o; }, "double");
    auto vec = [](auto & x, double o) { for (int i = 0; i < x.Size(); i++) x[i] = o++; };
    RoundTrip<Vec<1,double>>(vec, "Vec1"); RoundTrip<Vec<2,double>>(vec, "Vec2"); RoundTrip<Vec<3,double>>(vec, "Vec3"); RoundTrip<Vec<6,double>>(vec, "Vec6");
    auto iv = [](auto & x, double o) { for (int i = 0; i < x.Size(); i++) x[i] = o++; };
    RoundTrip<IVec<2,double>>(iv, "IVec2"); RoundTrip<IVec<3,double>>(iv, "IVec3");
    auto mat = [](auto & x, double o) { for (int i = 0; i < x.Height(); i++) for (int j = 0; j < x.Width(); j++) x(i, j) = o++; };
    RoundTrip<Mat<1,1,double>>(mat, "Mat1"); RoundTrip<Mat<2,2,double>>(mat, "Mat2"); RoundTrip<Mat<3,3,double>>(mat, "Mat3"); RoundTrip<Mat<6,6,double>>(mat, "Mat6");
  });
}
