// S01 one-step correctness of all smoothers (sequential part), S02 adjointness and energy
#include "smooth.hpp"
#include <gssmoother.hpp>
#include <block_gssmoother.hpp>
#include <loc_block_gssmoother.hpp>
#include <dyn_block_smoother.hpp>
using namespace vh;

static Dense Compose (const Dense & A, const Dense & C1, const Dense & C2)   // first C1, then C2
{ Dense C = Mul(C2, Mul(A, C1)); for (size_t i = 0; i < C.size(); i++) for (size_t j = 0; j < C.size(); j++) C[i][j] = C1[i][j] + C2[i][j] - C[i][j]; return C; }

// Gauss-Seidel over explicitly compressed rows, with the hints of a smoother
template<class TM> struct GSS4Sm : BaseSmoother
{
  shared_ptr<SparseMatrix<TM>> A; GSS4<TM> g;
  GSS4Sm (shared_ptr<SparseMatrix<TM>> a, shared_ptr<BitArray> s, bool pinv) : BaseSmoother(a), A(a), g(a, s, pinv) { }
  void Go (bool bw, BaseVector & x, const BaseVector & b, BaseVector & res, bool ru, bool ur, bool xz) const
  { if (ur) { if (!ru) { res = b; if (!xz) res -= *A * x; } bw ? g.SmoothBackRES(x, res) : g.SmoothRES(x, res); } else bw ? g.SmoothBack(x, b) : g.Smooth(x, b); }
  void Smooth (BaseVector & x, const BaseVector & b, BaseVector & res, bool ru, bool ur, bool xz) const override { Go(false, x, b, res, ru, ur, xz); }
  void SmoothBack (BaseVector & x, const BaseVector & b, BaseVector & res, bool ru, bool ur, bool xz) const override { Go(true, x, b, res, ru, ur, xz); }
};

// number of the free scalar diagonal blocks that are singular
static bool SingularDiag (const Dense & A, int bs, const VI & fr)
{ for (int k : fr) { Dense B = Zero(bs), X; for (int i = 0; i < bs; i++) for (int j = 0; j < bs; j++) B[i][j] = A[k*bs+i][k*bs+j]; if (!Invert(B, X, 1e-8)) return true; } return false; }
static VI Free (int n, int m) { VI f; for (int i = 0; i < n; i++) if (m < 0 || m >> i & 1) f.push_back(i); return f; }
static Dense ScaleDiag (Dense A, int bs, double f0)
{ int n = A.size() / bs; for (int k = 0; k < n; k++) for (int i = 0; i < bs; i++) for (int j = 0; j < bs; j++) A[k*bs+i][k*bs+j] *= f0 + 0.25 * k; return A; }
static bool DiagDominant (const Dense & A) { for (size_t i = 0; i < A.size(); i++) { double o = 0; for (size_t j = 0; j < A.size(); j++) if (j != i) o += std::fabs(A[i][j]); if (o > A[i][i]) return false; } return true; }
template<class TM> Array<TM> Diags (const Dense & A)
{ constexpr int bs = BSof<TM>(); int n = A.size() / bs; Array<TM> d(n); for (int k = 0; k < n; k++) for (int i = 0; i < bs; i++) for (int j = 0; j < bs; j++) Ent(d[k], i, j) = A[k*bs+i][k*bs+j]; return d; }

typedef std::vector<VI> Blocks;
static string S (const Blocks & b) { string s; for (auto & x : b) s += vh::S(x); return s; }
// all set partitions of the given items
static std::vector<Blocks> SetPartitions (int n)
{
  std::vector<Blocks> out; VI g(n, 0);
  std::function<void(int,int)> rec = [&](int i, int m) { if (i == n) { Blocks b(m); for (int k = 0; k < n; k++) b[g[k]].push_back(k); out.push_back(b); return; } for (int c = 0; c <= m; c++) { g[i] = c; rec(i + 1, std::max(m, c + 1)); } };
  rec(0, 0); return out;
}
static std::vector<Blocks> BlockLists (int n)
{
  std::vector<Blocks> out;
  for (auto & b : SetPartitions(n))
    {
      out.push_back(b);
      if (b.size() > 1) { auto c = b; c.pop_back(); out.push_back(c); c = b; c.erase(c.begin()); out.push_back(c); }      // uncovered rows
      auto c = b; for (auto & x : c) std::reverse(x.begin(), x.end()); if (c != b) out.push_back(c);                      // unsorted
      c = b; std::reverse(c.begin(), c.end()); if (c != b) out.push_back(c);
    }
  if (n >= 2) { out.push_back({ { 0, 1 }, { 1 } }); out.push_back({ { 0 }, { 0, 1 } }); }
  if (n >= 3) { out.push_back({ { 0, 1 }, { 1, 2 } }); out.push_back({ { 1, 2 }, { 2, 0 }, { 0, 1 } }); out.push_back({ { 0, 1, 2 }, { 1 }, { 2, 0 } }); out.push_back({ { 2, 1 } , { 1, 0 }, { 2 } }); }
  if (n >= 4) { out.push_back({ { 0, 1, 2 }, { 2, 3 } }); out.push_back({ { 0, 3 }, { 1, 3 }, { 2, 3 } }); out.push_back({ { 3, 2 }, { 1, 2 }, { 1, 0 } }); }
  return out;
}
static bool Covers (const Blocks & b, int n) { std::set<int> s; for (auto & x : b) s.insert(x.begin(), x.end()); return (int)s.size() == n; }
static bool Disjoint (const Blocks & b) { std::set<int> s; for (auto & x : b) for (int d : x) if (!s.insert(d).second) return false; return true; }

static std::vector<Graph> SmallGraphs (int n)
{
  std::vector<Graph> out;
  for (int sk = 0; sk < 2; sk++)
    {
      std::vector<Graph> g = n <= 3 ? Graphs(n, VD({ 0, 1, 3, -2 }), sk) : Graphs(n, VD({ 0, 1 }), sk);
      for (auto & x : g) { if (n > 3) for (size_t e = 0; e < x.w.size(); e++) if (x.w[e]) x.w[e] = (0.5 + (e * 5) % 4) * (e % 3 == 2 ? -1.0 : 1.0); out.push_back(x); }
    }
  return out;
}

template<class TM> void GaussSeidel (const Graph & g, int kind)
{
  constexpr int bs = BSof<TM>(); int n = g.n; Dense A = GraphMat(g, bs, kind); auto sp = SpOf<TM>(A);
  for (int m = -1; m < (1 << n); m++) for (int pinv = 0; pinv < 2; pinv++)
    {
      VI fr = Free(n, m); auto mask = m < 0 ? nullptr : Mask(n, m);
      if (!pinv && SingularDiag(A, bs, fr)) continue;
      bool multi = m == -1, small = m != -1 && pinv;
      for (int repl = 0; repl < 2; repl++)
        {
          Dense Ad = repl ? ScaleDiag(A, bs, 1.25) : A; std::vector<Corr> cs; for (int k : fr) cs.push_back(MakeCorr(Ad, Scal({ k }, bs), pinv));
          auto md = Diags<TM>(Ad); auto gs = repl ? make_shared<GSS3<TM>>(sp, md, mask, pinv) : make_shared<GSS3<TM>>(sp, mask, pinv);
          SmTest t(str("GSS3<", bs, "> ", g.id, " kind ", kind, " mask ", m, " pinv ", pinv, " repl ", repl), *gs, A); vf::progress(t.nm);
          t.Match({ InOrder(A, cs) }); t.Hints(multi, small || repl ? 0 : 3); vf::evals();
        }
      std::vector<Corr> cs; for (int k : fr) cs.push_back(MakeCorr(A, Scal({ k }, bs), pinv));
      auto g4 = make_shared<GSS4Sm<TM>>(sp, mask, pinv);
      SmTest t(str("GSS4<", bs, "> ", g.id, " kind ", kind, " mask ", m, " pinv ", pinv), *g4, A); vf::progress(t.nm);
      t.Match({ InOrder(A, cs) }); t.Hints(false, 0); vf::evals();
      if (!pinv)
        {
          auto jac = make_shared<JacobiSmoother<TM>>(sp, mask, 0.9); Dense C = Zero(n * bs); for (auto & c : cs) for (size_t i = 0; i < c.d.size(); i++) for (size_t j = 0; j < c.d.size(); j++) C[c.d[i]][c.d[j]] = 0.9 * c.inv[i][j];
          SmTest tj(str("Jacobi<", bs, "> ", g.id, " kind ", kind, " mask ", m), *jac, A); tj.contraction = DiagDominant(A); tj.Match({ { C, C } }); tj.Hints(multi, small ? 0 : 3); vf::evals();
          for (int ns = 1; ns <= 3; ns++) for (int symm = 0; symm < 2; symm++)
            {
              auto gs = make_shared<GSS3<TM>>(sp, mask); auto px = make_shared<ProxySmoother>(gs, ns, symm); FB one = InOrder(A, cs), op;
              if (symm) one.first = one.second = Compose(A, one.first, one.second);
              op = one; for (int s = 1; s < ns; s++) { op.first = Compose(A, op.first, one.first); op.second = Compose(A, op.second, one.second); }
              SmTest tp(str("Proxy<", bs, "> ", g.id, " kind ", kind, " mask ", m, " steps ", ns, " symm ", symm), *px, A); tp.Match({ op }); tp.Hints(false, 0); vf::evals();
            }
        }
    }
  vf::outcome(vf::hash(str(g.id, bs, kind))); vf::note("matrices");
}

template<class TM> void BlockSmoothers (const Graph & g, int kind, int sel)
{
  constexpr int bs = BSof<TM>(); int n = g.n; Dense A = GraphMat(g, bs, kind); auto sp = SpOf<TM>(A);
  for (auto & bl : BlockLists(n)) for (int pinv = 0; pinv < 2; pinv++) for (int mod = 0; mod < 2; mod++)
    {
      Dense Ad = mod ? ScaleDiag(A, bs, 1.25) : A; std::vector<Corr> cs; bool sing = false;
      for (auto & b : bl) { Dense B = Zero(b.size() * bs), X; VI s = Scal(b, bs); for (size_t i = 0; i < s.size(); i++) for (size_t j = 0; j < s.size(); j++) B[i][j] = Ad[s[i]][s[j]]; if (!Invert(B, X, 1e-8)) sing = true; }
      if (sing && (!pinv || mod)) continue;
      if (!sing && pinv && n > 2) continue;
      for (auto & b : bl) cs.push_back(MakeCorr(Ad, Scal(b, bs), pinv));
      auto md = Diags<TM>(Ad); FlatArray<TM> mdf(mod ? md.Size() : 0, mod ? md.Data() : nullptr);
      auto ord = InOrder(A, cs); std::vector<FB> all; if (bl.size() <= 4) all = AllOrders(A, cs);
      for (int par = 0; par < 2; par++)
        {
          if (sel & 1) {
            auto s = make_shared<BSmoother<TM>>(sp, MakeTable(bl), par, false, pinv, mdf);
            SmTest t(str("BSmoother<", bs, "> ", g.id, " kind ", kind, " blocks ", S(bl), " pinv ", pinv, " mod ", mod, " par ", par), *s, A); vf::progress(t.nm);
            t.Match(all); t.Hints(!mod, n <= 3 && !mod ? 2 : 0); vf::evals(); }
          if (sel & 2) {
            auto s = make_shared<BSmoother2<TM>>(sp, MakeTable(bl), par, false, pinv, false, mdf);
            SmTest t(str("BSmoother2<", bs, "> ", g.id, " kind ", kind, " blocks ", S(bl), " pinv ", pinv, " mod ", mod, " par ", par), *s, A); vf::progress(t.nm);
            t.Match({ ord }); t.Hints(!mod, n <= 3 && !mod ? 2 : 0); vf::evals(); }
        }
      if ((sel & 4) && bl.size() >= 2)   // several groups
        for (size_t cut = 1; cut < bl.size(); cut++)
          {
            Array<Table<int>> tabs(3); tabs[0] = MakeTable(Blocks(bl.begin(), bl.begin() + cut)); tabs[1] = MakeTable({}); tabs[2] = MakeTable(Blocks(bl.begin() + cut, bl.end()));
            auto s = make_shared<BSmoother2<TM>>(sp, tabs, false, false, pinv, false, mdf);
            SmTest t(str("BSmoother2<", bs, "> groups ", cut, " ", g.id, " kind ", kind, " blocks ", S(bl), " pinv ", pinv, " mod ", mod), *s, A); vf::progress(t.nm);
            t.Match({ ord }); t.Hints(true, 0); vf::evals();
          }
      if ((sel & 8) && !mod && !sing && Disjoint(bl) && Covers(bl, n))
        {
          auto s = make_shared<BSmoother2<TM>>(sp, MakeTable(bl), false, false, pinv, true, mdf);
          SmTest t(str("BSmoother2<", bs, "> blocks_no ", g.id, " kind ", kind, " blocks ", S(bl), " pinv ", pinv, " mod ", mod), *s, A); vf::progress(t.nm);
          t.Match({ ord }); t.Hints(true, 2); vf::evals();
        }
    }
  vf::outcome(vf::hash(str("b", g.id, bs, kind))); vf::note("matrices");
}

template<class TM> void EmitGS (vf::Emit & emit, int nmax)
{
  constexpr int bs = BSof<TM>();
  for (int n = 1; n <= nmax; n++) for (auto & g : SmallGraphs(n)) for (int kind = 0; kind < (bs > 1 ? 3 : 1); kind++)
    emit(str("gs", bs, "k", kind, g.id), [=]() { GaussSeidel<TM>(g, kind); });
}
template<class TM> void EmitBS (vf::Emit & emit, int nmax, int sel)
{
  constexpr int bs = BSof<TM>();
  for (int n = 1; n <= nmax; n++) for (auto & g : SmallGraphs(n)) for (int kind = 0; kind < (bs > 1 ? 2 : 1); kind++)
    emit(str("bs", bs, "k", kind, g.id), [=]() { BlockSmoothers<TM>(g, kind, sel); });
}
// the same objects under both properties
#define BOTH(NAME) static void Emit_##NAME (vf::Emit & emit0, int mode); \
  VF_PART(S01, NAME) { Emit_##NAME(emit, 1); } VF_PART(S02, NAME) { Emit_##NAME(emit, 2); } \
  static void Emit_##NAME (vf::Emit & emit0, int mode)
#define EMIT vf::Emit emit; emit.f = [&emit0,mode](const string & id, const std::function<void()> & f) { emit0(id, [f,mode]() { SmTest::mode = mode; f(); }); };
BOTH(gs) { EMIT EmitGS<double>(emit, 4); EmitGS<Mat<2,2,double>>(emit, 3); EmitGS<Mat<3,3,double>>(emit, vf::thorough ? 3 : 2); }
BOTH(blocks) { EMIT EmitBS<double>(emit, vf::thorough ? 4 : 3, 15); EmitBS<Mat<2,2,double>>(emit, vf::thorough ? 3 : 2, 15); }

// ------------------------------------------------------------ dynamic blocks
static void DynBlock (const Graph & g, int bs)
{
  Dense A = GraphMat(g, bs); int N = A.size(); auto sp = SpOf<double>(A); auto dyn = make_shared<DynBlockSparseMatrix<double>>(*sp);
  vf::check(Close(ToDenseOp(*dyn), A, 1e-13), "matrix", "dynamic block matrix");
  Blocks bl; std::set<int> seen; for (size_t k = 0; k < dyn->GetNumBlocks(); k++) { VI b; dyn->ItRows(dyn->GetBlockRows(k), [&](auto, auto r) { b.push_back(r); seen.insert(r); }); bl.push_back(b); }
  vf::check((int)seen.size() == N && Disjoint(bl), "blocks", S(bl));
  for (auto & b : bl) { Dense B = Zero(b.size()), X; for (size_t i = 0; i < b.size(); i++) for (size_t j = 0; j < b.size(); j++) B[i][j] = A[b[i]][b[j]]; if (!Invert(B, X, 1e-8)) return; }
  for (int m = -1; m < (1 << std::min(N, 6)); m++) for (double om : { 1.0, 0.75 })
    {
      auto mask = m < 0 ? nullptr : Mask(N, N > 6 ? (m & 1) | (m & 2) << 1 | (m & 4) << 1 | (m & 8) << 2 | (m & 16) << 3 | (m & 32) << 1 : m);
      std::vector<Corr> cs; for (auto & b : bl) { VI f; for (int d : b) if (!mask || mask->Test(d)) f.push_back(d); if (f.size()) { auto c = MakeCorr(A, f, false); for (auto & r : c.inv) for (auto & v : r) v *= om; cs.push_back(c); } }
      auto s = make_shared<DynBlockSmoother<double>>(dyn, mask, om);
      SmTest t(str("DynBlock ", g.id, " bs ", bs, " mask ", m, " om ", om), *s, A); vf::progress(t.nm);
      t.Match({ InOrder(A, cs) }); t.Hints(m == -1, m == -1 ? 3 : 0); vf::evals();
    }
  vf::outcome(vf::hash(str("d", g.id, bs))); if (bl.size() < (size_t)N) vf::note("matrices with blocks of several rows");
}
BOTH(dynblock)
{ EMIT
  for (int bs = 1; bs <= 3; bs++) for (int n = 1; n <= (bs == 1 ? 4 : bs == 2 ? 3 : 2); n++) for (auto & g : SmallGraphs(n))
    { if (SingularDiag(GraphMat(g, 1), 1, Free(n, -1))) continue; emit(str("dyn", bs, g.id), [=]() { DynBlock(g, bs); }); }
}

// ------------------------------------------------------------ Hiptmair smoother and general preconditioners
static Entries<double> EntriesOf (const Dense & D) { Entries<double> e; for (size_t i = 0; i < D.size(); i++) for (size_t j = 0; j < D[i].size(); j++) if (D[i][j]) e[{ int(i), int(j) }] = D[i][j]; return e; }
static void Hiptmair (const Graph & g, int dk)
{
  // range space: n unknowns, potential space: m unknowns, D: n x m
  int n = g.n, m = std::max(1, n - 1); Dense A = GraphMat(g, 1), D = Zero(n, m);
  for (int i = 0; i < n; i++) for (int j = 0; j < m; j++) D[i][j] = dk == 0 ? (i == j ? 1 : i == j + 1 ? -1 : 0) : dk == 1 ? 0.5 + (i * 3 + j * 5) % 4 : (i == j ? 2 : 0);
  Dense AP = Mul(Trans(D), Mul(A, D)); if (SingularDiag(A, 1, Free(n, -1)) || SingularDiag(AP, 1, Free(m, -1))) return;
  auto spA = SpOf<double>(A), spAP = SpOf<double>(AP); auto spD = MakeSp<double>(n, m, EntriesOf(D)), spDT = MakeSp<double>(m, n, EntriesOf(Trans(D)));
  for (int mr = -1; mr < (1 << n); mr++) for (int ad = 0; ad < 2; ad++) for (int pf = 0; pf < 2; pf++)
    {
      int mp = mr < 0 ? -1 : mr & ((1 << m) - 1);
      std::vector<Corr> cr, cp; for (int k : Free(n, mr)) cr.push_back(MakeCorr(A, { k }, false)); for (int k : Free(m, mp)) cp.push_back(MakeCorr(AP, { k }, false));
      FB r = InOrder(A, cr), p = InOrder(AP, cp); Dense pf1 = Mul(D, Mul(p.first, Trans(D))), pb = Mul(D, Mul(p.second, Trans(D)));
      FB op = pf ? FB{ Compose(A, pf1, r.first), Compose(A, r.second, pb) } : FB{ Compose(A, r.first, pf1), Compose(A, pb, r.second) };
      auto smr = make_shared<GSS3<double>>(spA, mr < 0 ? nullptr : Mask(n, mr)), smp = make_shared<GSS3<double>>(spAP, mp < 0 ? nullptr : Mask(m, mp));
      auto s = make_shared<HiptMairSmoother>(smp, smr, spAP, spA, spD, spDT, ad, pf);
      SmTest t(str("Hiptmair ", g.id, " D ", dk, " mask ", mr, " AD ", ad, " potFirst ", pf), *s, A); vf::progress(t.nm);
      t.Match({ op }); t.Hints(mr == -1, mr == -1 ? 3 : 0); vf::evals();
    }
  // Richardson iteration with an arbitrary preconditioner
  for (double om : { 1.0, 0.4 })
    {
      Dense P = GraphMat(g, 1), C = P; for (auto & x : C) for (auto & y : x) y *= om;
      auto s = make_shared<RichardsonSmoother>(spA, SpOf<double>(P), om); SmTest t(str("Richardson ", g.id, " ", om), *s, A); t.contraction = false; t.Match({ { C, C } }); t.Hints(true, 3); vf::evals();
    }
  vf::outcome(vf::hash(str("h", g.id, dk)));
}
BOTH(hiptmair) { EMIT for (int n = 1; n <= 4; n++) for (auto & g : SmallGraphs(n)) for (int dk = 0; dk < 3; dk++) emit(str("hm", dk, g.id), [=]() { Hiptmair(g, dk); }); }

// ------------------------------------------------------------ larger matrices (loops unrolled over many rows, splits in halves, ...)
static Graph BigGraph (int n, int kind)
{
  Graph g; g.n = n; g.id = str("N", n, "_", kind); int e = 0;
  for (int i = 0; i < n; i++) for (int j = i + 1; j < n; j++, e++) { bool c = kind == 0 ? j == i + 1 : kind == 1 ? (j == i + 1 && j % 4) || j == i + 4 : (i * 7 + j * 3) % 5 == 0; g.w.push_back(c ? 0.5 + (i * 3 + j) % 4 : 0); }
  for (int i = 0; i < n; i++) g.shift.push_back(0.25 + i % 3 * 0.5);
  return g;
}
template<class TM> void Larger (int n, int kind)
{
  constexpr int bs = BSof<TM>(); Graph g = BigGraph(n, kind); Dense A = GraphMat(g, bs); auto sp = SpOf<TM>(A); int N = n * bs;
  std::vector<std::pair<string, shared_ptr<BitArray>>> masks = { { "all", nullptr } };
  for (auto & f : std::vector<std::function<bool(int)>>{ [](int i) { return i % 2; }, [=](int i) { return i > 0; }, [=](int i) { return i >= n / 3 && i != n - 1; }, [](int i) { return i % 5 != 3; }, [=](int i) { return i == n - 1; } })
    { auto b = make_shared<BitArray>(n); b->Clear(); for (int i = 0; i < n; i++) if (f(i)) b->SetBit(i); masks.push_back({ str("m", masks.size()), b }); }
  for (auto & [mn, mask] : masks)
    {
      std::vector<Corr> cs; for (int k = 0; k < n; k++) if (!mask || mask->Test(k)) cs.push_back(MakeCorr(A, Scal({ k }, bs), false));
      { auto s = make_shared<GSS3<TM>>(sp, mask); SmTest t(str("GSS3<", bs, "> ", g.id, mn), *s, A); t.Match({ InOrder(A, cs) }); t.Hints(true, 2); vf::evals(); }
      { auto s = make_shared<GSS4Sm<TM>>(sp, mask, false); SmTest t(str("GSS4<", bs, "> ", g.id, mn), *s, A); t.Match({ InOrder(A, cs) }); t.Hints(false, 0); vf::evals(); }
    }
  for (int bk = 0; bk < 5; bk++)
    {
      Blocks bl; int w = bk == 0 ? 1 : bk == 1 ? 3 : bk == 2 ? 5 : n;
      if (bk < 4) for (int i = 0; i < n; i += w) { VI b; for (int j = i; j < std::min(n, i + w); j++) b.push_back(j); bl.push_back(b); }
      else for (int i = 0; i + 1 < n; i += 2) { VI b; for (int j = i; j < std::min(n, i + 4); j++) b.push_back(j); bl.push_back(b); }
      std::vector<Corr> cs; for (auto & b : bl) cs.push_back(MakeCorr(A, Scal(b, bs), false));
      for (int no = 0; no < (bk < 4 ? 2 : 1); no++)
        { auto s = make_shared<BSmoother2<TM>>(sp, MakeTable(bl), false, false, false, no); SmTest t(str("BSmoother2<", bs, "> ", g.id, " blocks ", bk, " no ", no), *s, A); t.Match({ InOrder(A, cs) }); t.Hints(true, 2); vf::evals(); }
      for (int par = 0; par < 2; par++)
        {
          // any order of the blocks is fine: read it off, then check that it is used consistently
          auto s = make_shared<BSmoother<TM>>(sp, MakeTable(bl), par, false, false); SmTest t(str("BSmoother<", bs, "> ", g.id, " blocks ", bk, " par ", par), *s, A);
          FB op = { t.Operator(0), t.Operator(1) }; if (!par) { t.Match({ InOrder(A, cs) }); } else { vf::check(Close(op.second, Trans(op.first), 1e-9), "adjoint", t.nm); t.op = op; if (SmTest::mode == 2) t.Energy(); }
          t.Hints(true, 2); vf::evals();
        }
    }
  { auto dsp = SpOf<double>(A); auto dyn = make_shared<DynBlockSparseMatrix<double>>(*dsp); Blocks bl; for (size_t k = 0; k < dyn->GetNumBlocks(); k++) { VI b; dyn->ItRows(dyn->GetBlockRows(k), [&](auto, auto r) { b.push_back(r); }); bl.push_back(b); }
    std::vector<Corr> cs; for (auto & b : bl) cs.push_back(MakeCorr(A, b, false)); auto s = make_shared<DynBlockSmoother<double>>(dyn); SmTest t(str("DynBlock ", g.id), *s, A); t.Match({ InOrder(A, cs) }); t.Hints(true, 2); vf::evals(); }
  vf::outcome(vf::hash(str("L", g.id, bs))); (void)N;
}
BOTH(larger)
{ EMIT
  for (int n : { 5, 9, 16, 23 }) for (int k = 0; k < 3; k++)
    { emit(str("big1n", n, "k", k), [=]() { Larger<double>(n, k); }); if (n <= 16) emit(str("big2n", n, "k", k), [=]() { Larger<Mat<2,2,double>>(n, k); }); if (n <= 9) emit(str("big3n", n, "k", k), [=]() { Larger<Mat<3,3,double>>(n, k); }); }
}
