// D01, D02: sharing classes and exchanges on them
#include "par.hpp"
#include <reducetable.hpp>
#include <numeric>
using namespace vh;

// ------------------------------------------------------------------ D01
struct ClassView { int id; VI dps; };
struct RankView { std::vector<ClassView> cls; VI all; bool idle = false, tp = false; };

// smallest family closed under intersection and union
static std::set<VI> lattice (const std::set<VI> & fam)
{
  std::set<VI> L = fam; bool ch = true;
  while (ch)
    {
      ch = false; std::vector<VI> v(L.begin(), L.end());
      for (auto & a : v) for (auto & b : v)
        {
          VI u, i; std::set_union(a.begin(), a.end(), b.begin(), b.end(), back_inserter(u)); std::set_intersection(a.begin(), a.end(), b.begin(), b.end(), back_inserter(i));
          if (u.size() && L.insert(u).second) ch = true;
          if (i.size() && L.insert(i).second) ch = true;
        }
    }
  return L;
}

// local queries on one process; returns its view
static RankView CheckLocal (const EQCHierarchy & e, int r, int np, const std::vector<VI> & mine, bool haveLocal, bool cut, const std::set<VI> & lat)
{
  RankView v; int n = e.GetNEQCS();
  vf::check(e.GetCommunicator().Size() == np, "comm", "size");
  std::set<VI> have;
  for (int k = 0; k < n; k++)
    {
      ClassView c; c.id = e.GetEQCID(k); c.dps = ToVI(e.GetDistantProcs(k));
      VI s = c.dps; std::sort(s.begin(), s.end()); s.erase(std::unique(s.begin(), s.end()), s.end());
      vf::check(s == c.dps, "sorted", str("process list of class ", k, " on rank ", r, " not sorted: ", S(c.dps)));
      vf::check(std::find(s.begin(), s.end(), r) == s.end(), "self", str("rank ", r, " lists itself ", S(c.dps)));
      vf::check(have.insert(c.dps).second, "duplicate", str("class ", S(c.dps), " twice on rank ", r));
      vf::check(ToVI(e.GetDPTable()[k]) == c.dps, "dptable", "");
      vf::check((int)e.GetEQCOfID(c.id) == k, "id", str("id ", c.id, " does not lead back to class ", k));
      vf::check((int)e.GetEqcIds()[k] == c.id, "id", "GetEqcIds");
      int master = c.dps.empty() ? r : std::min(r, c.dps[0]);
      vf::check(e.GetMasterOfEQC(k) == master, "master", str("class ", S(c.dps), " on rank ", r, ": master ", e.GetMasterOfEQC(k)));
      vf::check(e.IsMasterOfEQC(k) == (master == r), "master", "IsMasterOfEQC");
      Array<int> q(c.dps.size()); for (size_t i = 0; i < c.dps.size(); i++) q[i] = c.dps[i];
      vf::check((int)e.FindEQCWithDPs(q) == k, "find", str(S(c.dps)));
      VI full = c.dps; full.push_back(r); std::sort(full.begin(), full.end());
      if (c.dps.size()) vf::check(lat.count(full), "foreign", str("rank ", r, " has class ", S(full), " that no unions/intersections of the sharing patterns give"));
      v.cls.push_back(c);
    }
  // exactly the given patterns (closed if asked for)
  std::set<VI> want; for (auto & m : mine) want.insert(m); if (haveLocal) want.insert(VI());
  for (auto & w : want) vf::check(have.count(w), "missing", str("rank ", r, " lacks class ", S(w)));
  if (!cut) for (auto & h : have) vf::check(want.count(h), "extra", str("rank ", r, " has extra class ", S(h)));
  if (haveLocal || have.count(VI())) vf::check(v.cls[0].dps.empty(), "local", "purely local class must come first");
  std::set<int> all; for (auto & c : v.cls) all.insert(c.dps.begin(), c.dps.end());
  v.all = ToVI(e.GetDistantProcs());
  vf::check(v.all == VI(all.begin(), all.end()), "neighbours", str("rank ", r, ": ", S(v.all)));
  for (int a = 0; a < n; a++) for (int b = 0; b < n; b++)
    {
      auto & A = v.cls[a].dps; auto & B = v.cls[b].dps;
      VI u, i; std::set_union(A.begin(), A.end(), B.begin(), B.end(), back_inserter(u)); std::set_intersection(A.begin(), A.end(), B.begin(), B.end(), back_inserter(i));
      auto pos = [&](const VI & x) { for (int k = 0; k < n; k++) if (v.cls[k].dps == x) return k; return -1; };
      vf::check(e.IsLEQ(a, b) == (i.size() == A.size()), "leq", str("rank ", r, " ", S(A), " <= ", S(B)));
      vf::check(e.GetMergedEQC(a, b) == pos(u), "merge", str("rank ", r, " ", S(A), " + ", S(B), " gives class ", e.GetMergedEQC(a, b), ", expected ", pos(u)));
      vf::check(e.GetMergedEQCIfExists(a, b) == pos(u), "merge", "IfExists");
      vf::check(e.IsMergeValid(a, b) == (pos(u) >= 0), "merge", "IsMergeValid");
      vf::check(e.GetCommonEQC(a, b) == pos(i), "intersect", str("rank ", r, " ", S(A), " ^ ", S(B)));
      if (cut) vf::check(pos(i) >= 0, "closure", str("rank ", r, ": ", S(A), " ^ ", S(B), " missing"));
      // a union that fits into a class given from the start must exist
      if (cut && want.count(A) && want.count(B))
        for (auto & w : want) if (std::includes(w.begin(), w.end(), u.begin(), u.end())) vf::check(pos(u) >= 0, "closure", str("rank ", r, ": ", S(A), " + ", S(B), " fits into ", S(w), " but is missing"));
    }
  v.idle = e.IsRankZeroIdle(); v.tp = e.IsTrulyParallel();
  return v;
}
// views of all processes fit together
static void CheckGlobal (const std::vector<RankView> & V)
{
  int np = V.size(); std::map<int,VI> idOf; std::map<VI,int> ofSet;
  for (int r = 0; r < np; r++)
    for (auto & c : V[r].cls)
      {
        VI full = c.dps; full.push_back(r); std::sort(full.begin(), full.end());
        auto it = idOf.find(c.id);
        if (it == idOf.end()) idOf[c.id] = full; else vf::check(it->second == full, "id", str("id ", c.id, " names ", S(it->second), " and ", S(full)));
        auto jt = ofSet.find(full);
        if (jt == ofSet.end()) ofSet[full] = c.id; else vf::check(jt->second == c.id, "id", str("class ", S(full), " has ids ", jt->second, " and ", c.id));
        for (int p : c.dps)
          {
            bool f = false; VI want; for (int q : full) if (q != p) want.push_back(q);
            for (auto & d : V[p].cls) if (d.dps == want) f = true;
            vf::check(f, "asymmetric", str("class ", S(full), " known on rank ", r, " but not on rank ", p));
          }
        vf::check(V[r].idle == V[0].idle, "idle", str("ranks 0 and ", r, " disagree whether rank 0 is idle"));
        vf::check(V[r].tp == V[0].tp, "idle", "ranks disagree whether the run is truly parallel");
      }
  string key; for (auto & o : ofSet) key += S(o.first) + ":" + std::to_string(o.second);
  vf::outcome(vf::hash(key));
}

// families as bit sets over the subsets (>= 2 members) of the working processes
static std::vector<int> Subsets (int W) { VI s; for (int m = 1; m < (1 << W); m++) if (__builtin_popcount(m) >= 2) s.push_back(m); return s; }

static void RunFamily (const VI & masks, int W, int first, int localMode, int how, bool cut)
{
  Part p; p.W = W; p.first = first; p.mask = masks;
  for (int b = 0; b < W; b++) if (localMode == 1 || (localMode == 2 && b % 2)) p.mask.push_back(1 << b);
  int np = p.np();
  std::set<VI> fam; for (int g = 0; g < p.N(); g++) fam.insert(p.procs(g));
  auto lat = lattice(fam);
  std::vector<RankView> V(np);
  Par(np, [&](int r) {
    shared_ptr<EQCHierarchy> e;
    bool anyLoc = false; std::vector<VI> mine;
    for (int g : p.locals(r)) { auto d = p.dps(g, r); if (d.empty()) anyLoc = true; else mine.push_back(d); }
    if (how == 0)
      {
        auto pd = MakePD(p, r);
        e = make_shared<EQCHierarchy>(pd, cut);
        // a process with unknowns always has the local class
        if (p.locals(r).size()) anyLoc = true;
      }
    else if (how == 1)
      {
        std::set<VI> s(mine.begin(), mine.end()); std::vector<VI> rows(s.begin(), s.end()); std::reverse(rows.begin(), rows.end());
        if (anyLoc) rows.insert(rows.begin(), VI());
        TableCreator<int> c(rows.size());
        for (; !c.Done(); c++) for (size_t k = 0; k < rows.size(); k++) for (int q : rows[k]) c.Add(k, q);
        e = make_shared<EQCHierarchy>(c.MoveTable(), World(), cut, first == 1);
      }
    else
      {
        // every class is known by its master (how 4: by its last member) only; the others know all their possible neighbours
        std::vector<VI> rows; std::set<int> nb;
        for (int g : p.locals(r)) { auto d = p.dps(g, r); if (d.size() && (how == 4 ? p.procs(g).back() == r : how == 5 ? p.procs(g)[0] != r : p.master(g) == r)) rows.push_back(d); nb.insert(d.begin(), d.end()); }
        TableCreator<int> c(rows.size());
        for (; !c.Done(); c++) for (size_t k = 0; k < rows.size(); k++) for (int q : rows[k]) c.Add(k, q);
        auto t = c.MoveTable();
        if (how == 3) { TableCreator<int> c3(2 * rows.size()); for (; !c3.Done(); c3++) for (size_t k = 0; k < 2 * rows.size(); k++) for (int q : rows[k / 2]) c3.Add(k, q); t = c3.MoveTable(); }   // one row per node
        Array<int> all; for (int q : nb) all.Append(q);
        e = make_shared<EQCHierarchy>(all, t, World(), cut);
        anyLoc = true;
      }
    V[r] = CheckLocal(*e, r, np, mine, anyLoc, cut, lat);
    if (how == 0) vf::check(V[r].idle == (np > 1) && V[r].tp == (np > 2), "idle", "");
    if (how == 1) vf::check(V[r].idle == (first == 1) && V[r].tp == (W > 1), "idle", "");
  }, [&]() { CheckGlobal(V); });
}

VF_PART(D01, families)
{
  for (int how = 0; how < 6; how++)
    for (int first = (how == 0 ? 1 : 0); first <= 1; first++)
      for (int W = 1; W + first <= (vf::thorough ? 6 : 5); W++)
        {
          auto sub = Subsets(W); int ns = sub.size();
          if (how >= 2 && W + first > 5) continue; if (how >= 3 && W + first > (vf::thorough ? 5 : 4)) continue;
          auto one = [&](const VI & masks) {
            for (int lm = 0; lm < 3; lm++)
              for (int cut = 0; cut < 2; cut++)
                {
                  if (W >= 4 && lm == 2 && !vf::thorough) continue;
                  VI mm = masks; int w = W, f = first, l = lm, h = how, c = cut;
                  if (mm.empty() && l == 0 && h == 0 && w > 1) { }
                  emit(str("how", h, "/first", f, "/W", w, "/", S(mm), "/loc", l, "/cut", c), [=]() { RunFamily(mm, w, f, l, h, c); });
                }
          };
          if (ns <= 11)
            {
              for (int64_t fm = 0; fm < (1ll << ns); fm++)
                {
                  if (W == 4 && !vf::thorough && __builtin_popcountll(fm) > 3 && __builtin_popcountll(fm) < 10) continue;
                  VI m; for (int i = 0; i < ns; i++) if (fm >> i & 1) m.push_back(sub[i]);
                  one(m);
                }
            }
          else
            {
              // W = 5: all families of up to three patterns
              for (int i = 0; i < ns; i++)
                { one({ sub[i] }); for (int j = i + 1; j < ns; j++) { one({ sub[i], sub[j] }); for (int k = j + 1; k < ns; k++) one({ sub[i], sub[j], sub[k] }); } }
            }
        }
}

// limited number of dofs / selected dofs only (max_nd, select), and multiplicities
VF_PART(D01, select)
{
  for (int W = 1; W <= 3; W++)
    for (int N = 0; N <= 3; N++)
      AllParts(W, N, [&](const Part & p) {
        for (int sel = 0; sel < (1 << N); sel++)
          {
            emit(str(p.str(), "/sel", sel), [=]() {
              std::set<VI> fam; for (int g = 0; g < p.N(); g++) if (sel >> g & 1) fam.insert(p.procs(g));
              auto lat = lattice(fam); std::vector<RankView> V(p.np());
              Par(p.np(), [&](int r) {
                auto pd = MakePD(p, r); auto loc = p.locals(r);
                auto ba = make_shared<BitArray>(loc.size()); ba->Clear(); std::vector<VI> mine;
                for (size_t i = 0; i < loc.size(); i++) if (sel >> loc[i] & 1) { ba->SetBit(i); auto d = p.dps(loc[i], r); if (d.size()) mine.push_back(d); }
                EQCHierarchy e(pd, true, -1, ba);
                V[r] = CheckLocal(e, r, p.np(), mine, loc.size() > 0, true, lat);
                // data of selected unknowns sorted into classes
                auto tab = e.PartitionData<int>(loc.size(), [&](auto k) -> size_t { if (!ba->Test(k)) return NO_EQC; auto d = pd->GetDistantProcs(k); return e.FindEQCWithDPs(d); }, [&](auto k) { return loc[k]; });
                vf::check(tab.Size() == e.GetNEQCS(), "partition", "rows");
                size_t c = 0;
                for (size_t k = 0; k < tab.Size(); k++)
                  {
                    VI got = ToVI(tab[k]), want; for (int g : loc) if ((sel >> g & 1) && p.dps(g, r) == V[r].cls[k].dps) want.push_back(g);
                    vf::check(got == want, "partition", str("rank ", r, " class ", S(V[r].cls[k].dps), " got ", S(got), " want ", S(want))); c += got.size();
                  }
              }, [&]() { CheckGlobal(V); }, nullptr, false);
            });
          }
      });
}

// ------------------------------------------------------------------ D02
static VI SortDps (const EQCHierarchy & e, int k) { return ToVI(e.GetDistantProcs(k)); }
static int members (const VI & d) { return d.size() + 1; }

// row of class with member list `full` on process r: size pattern sz, deterministic contents
static VI RowOf (const VI & full, int r, int sz)
{
  VI v; int base = 0; for (int p : full) base = base * 7 + p + 1;
  int n = 0;
  switch (sz) { case 0: n = 0; break; case 1: n = 1; break; case 2: n = 2; break; case 3: n = (r % 2) ? 2 : 0; break; case 4: n = r % 3; break; case 5: n = (base + r) % 3; break;
    case 14: n = 30 + (base + r) % 4 * 45; break; default: n = ((unsigned(base * 31 + r + 1) * 2654435761u * unsigned(2 * sz + 1)) >> 19) % 3; }   // 6..13: mixed empty and filled rows
  for (int i = 0; i < n; i++) v.push_back(base * 100 + r * 10 + i);
  return v;
}

static void RunReduce (const Part & p, int sz, int op, bool cut)
{
  Par(p.np(), [&](int r) {
    auto pd = MakePD(p, r);
    auto e = make_shared<EQCHierarchy>(pd, cut);
    int n = e->GetNEQCS();
    auto full = [&](int k) { VI f = SortDps(*e, k); f.push_back(r); std::sort(f.begin(), f.end()); return f; };
    TableCreator<int> c(n);
    for (; !c.Done(); c++) for (int k = 0; k < n; k++) for (int x : RowOf(full(k), r, sz)) c.Add(k, x);
    auto tin = c.MoveTable();
    auto reduce = [&](const std::vector<VI> & rows) {
      VI o;
      if (op == 0) { for (auto & x : rows) for (int y : x) o.push_back(y); }                             // concatenate in rank order
      else if (op == 1) { long s = 0; for (auto & x : rows) for (int y : x) s += y; o.push_back(s); }    // sum
      else if (op == 2) { for (auto & x : rows) if (x.size() > o.size()) o = x; }                        // longest row, lowest rank first
      else { o.push_back(rows.size()); for (auto & x : rows) o.push_back(x.size()); }                   // who was asked
      return o; };
    auto lam = [&](auto & tab) {
      std::vector<VI> rows; for (auto x : tab) { VI v; for (auto y : x) v.push_back(y); rows.push_back(v); }
      VI o = reduce(rows); Array<int> out; for (int x : o) out.Append(x); return out; };
    VI before; for (auto row : tin) for (int x : row) before.push_back(x);
    Table<int> out = ReduceTable<int,int>(tin, e, lam);
    VI after; for (auto row : tin) for (int x : row) after.push_back(x);
    vf::check(before == after, "input", "ReduceTable changed its input");
    vf::check((int)out.Size() == n, "size", "");
    for (int k = 0; k < n; k++)
      {
        std::vector<VI> rows; for (int q : full(k)) rows.push_back(RowOf(full(k), q, sz));
        VI want = reduce(rows), got = ToVI(out[k]);
        vf::check(got == want, "reduce", str("rank ", r, " class ", S(full(k)), ": got ", S(got), " want ", S(want)));
      }
    // several rows per class, in any consistent order
    if (op == 0)
      {
        Array<size_t> eqcs; for (int k = n - 1; k >= 0; k--) { eqcs.Append(k); eqcs.Append(k); }
        TableCreator<int> c2(eqcs.Size());
        for (; !c2.Done(); c2++) for (size_t j = 0; j < eqcs.Size(); j++) for (int x : RowOf(full(eqcs[j]), r, sz)) c2.Add(j, x + (j % 2) * 1000000);
        auto t2 = c2.MoveTable(); shared_ptr<const EQCHierarchy> ce = e;
        auto o2 = ReduceTable<int,int>(t2, eqcs, ce, lam);
        for (size_t j = 0; j < eqcs.Size(); j++)
          {
            std::vector<VI> rows; for (int q : full(eqcs[j])) { rows.push_back(RowOf(full(eqcs[j]), q, sz)); for (int & x : rows.back()) x += (j % 2) * 1000000; }
            vf::check(ToVI(o2[j]) == reduce(rows), "reduce", str("rank ", r, " row ", j));
          }
      }
  });
}
static void RunScatter (const Part & p, int sz, int kind, bool cut)
{
  Par(p.np(), [&](int r) {
    auto pd = MakePD(p, r);
    auto e = make_shared<EQCHierarchy>(pd, cut);
    int n = e->GetNEQCS();
    auto full = [&](int k) { VI f = SortDps(*e, k); f.push_back(r); std::sort(f.begin(), f.end()); return f; };
    auto want = [&](int k) { return RowOf(full(k), full(k)[0], sz); };
    if (kind == 0)        // row sizes known everywhere
      {
        TableCreator<int> c(n);
        for (; !c.Done(); c++) for (int k = 0; k < n; k++) for (int x : want(k)) c.Add(k, e->IsMasterOfEQC(k) ? x : -1);
        auto t = c.MoveTable();
        auto reqs = e->ScatterEQCData(t);
        MyMPI_WaitAll(reqs);
        for (int k = 0; k < n; k++) vf::check(ToVI(t[k]) == want(k), "scatter", str("rank ", r, " class ", S(full(k)), " got ", S(ToVI(t[k]))));
      }
    else if (kind == 1)   // only the master has the row
      {
        TableCreator<int> c(n);
        for (; !c.Done(); c++) for (int k = 0; k < n; k++) if (e->IsMasterOfEQC(k)) for (int x : want(k)) c.Add(k, x);
        auto t = ScatterEqcData(c.MoveTable(), *e);
        for (int k = 0; k < n; k++) vf::check(ToVI(t[k]) == want(k), "scatter", str("rank ", r, " class ", S(full(k)), " got ", S(ToVI(t[k]))));
      }
    else if (kind == 2)   // one value per class
      {
        Array<int> a(n); for (int k = 0; k < n; k++) a[k] = e->IsMasterOfEQC(k) ? RowOf(full(k), full(k)[0], 1)[0] : -1;
        e->ScatterEQCArray(FlatArray<int>(a));
        for (int k = 0; k < n; k++) vf::check(a[k] == RowOf(full(k), full(k)[0], 1)[0], "scatter", str("rank ", r, " class ", S(full(k)), " got ", a[k]));
      }
    else if (kind == 3)   // gather to the master, sizes differ
      {
        Array<Array<int>> buf(n); for (int k = 0; k < n; k++) for (int x : RowOf(full(k), r, sz)) buf[k].Append(x);
        auto [reqs, inds] = GatherEQCData(buf, *e);
        MyMPI_WaitAll(reqs);
        for (int k = 0; k < n; k++)
          {
            VI w; VI f = full(k);
            if (e->IsMasterOfEQC(k)) { for (int q : f) for (int x : RowOf(f, q, sz)) w.push_back(x); } else w = RowOf(f, r, sz);
            vf::check(ToVI(buf[k]) == w, "gather", str("rank ", r, " class ", S(f), " got ", S(ToVI(buf[k])), " want ", S(w)));
            if (e->IsMasterOfEQC(k))
              for (size_t j = 0; j < f.size(); j++) vf::check(inds[k][j+1] - inds[k][j] == (int)RowOf(f, f[j], sz).size(), "gather", "offsets");
          }
      }
    else                   // pairwise exchange with all neighbours
      {
        auto dps = e->GetDistantProcs(); int nn = dps.Size(); auto comm = e->GetCommunicator();
        auto msg = [&](int from, int to) { VI v; int l = (kind == 4) ? 2 : (from * 3 + to + sz) % 3; for (int i = 0; i < l; i++) v.push_back(from * 100 + to * 10 + i); return v; };
        Array<Array<int>> s(nn), q(nn);
        for (int k = 0; k < nn; k++) { for (int x : msg(r, dps[k])) s[k].Append(x); if (kind == 4) { q[k].SetSize(2); q[k] = -1; } }
        if (kind == 4) ExchangePairWise(comm, dps, s, q); else if (kind == 5) ExchangePairWise2(comm, dps, s, q); else ExchangePairWise_norecbuffer(comm, dps, s, q);
        for (int k = 0; k < nn; k++) vf::check(ToVI(q[k]) == msg(dps[k], r), "exchange", str("rank ", r, " from ", dps[k], " got ", S(ToVI(q[k]))));
      }
  });
}
static void RunDofData (const Part & p, int op)
{
  Par(p.np(), [&](int r) {
    auto pd = MakePD(p, r); auto loc = p.locals(r);
    auto val = [&](int g, int q) { return double((g * 7 + q * 3) % 5 - 2); };
    Array<double> d(loc.size()); for (size_t i = 0; i < loc.size(); i++) d[i] = val(loc[i], r);
    NgsAMG_Comm c(pd->GetCommunicator());
    auto comb = [&](double & a, double b) { if (op == 0) a += b; else a = 10 * a + b + 3; };   // second: order dependent
    MyAllReduceDofData(*pd, d, comb);
    for (size_t i = 0; i < loc.size(); i++)
      {
        auto pr = p.procs(loc[i]); double w = 0;
        if (pr.size() == 1) w = val(loc[i], r); else for (int q : pr) comb(w, val(loc[i], q));
        vf::check(d[i] == w, "allreduce", str("rank ", r, " unknown ", loc[i], " got ", d[i], " want ", w));
      }
  });
}

VF_PART(D02, tables)
{
  int WM = vf::thorough ? 4 : 3;
  for (int W = 1; W <= WM; W++)
    for (int N = 0; N <= (W == 4 ? 3 : 4); N++)
      SortedParts(W, N, [&](const Part & p) {
        for (int cut = 0; cut < 2; cut++)
          for (int sz = 0; sz < 15; sz++)
            {
              for (int op = 0; op < 4; op++)
                if (sz < 6 || op < 2) emit(str("reduce/", p.str(), "/sz", sz, "/op", op, "/cut", cut), [=]() { RunReduce(p, sz, op, cut); });
              for (int k = 0; k < 7; k++)
                if (sz < 6 || sz > 11 || k == 3) emit(str("scatter/", p.str(), "/sz", sz, "/kind", k, "/cut", cut), [=]() { RunScatter(p, sz, k, cut); });
            }
      });
}
VF_PART(D02, dofs)
{
  for (int W = 1; W <= 3; W++)
    for (int N = 0; N <= (vf::thorough ? 5 : 4); N++)
      AllParts(W, N, [&](const Part & p) { for (int op = 0; op < 2; op++) emit(str(p.str(), "/op", op), [=]() { RunDofData(p, op); }); });
}
// more classes between the same processes: all families of classes of 4 processes with up to 3 members of the family
VF_PART(D02, families)
{
  int W = 4; VI sub = Subsets(W); int ns = sub.size();
  for (int i = 0; i < ns; i++) for (int j = i; j < ns; j++) for (int k = j; k < ns; k++)
    for (int sz = 5; sz < 10; sz++)
      {
        Part p; p.W = W; p.mask = { sub[i] }; if (j > i) p.mask.push_back(sub[j]); if (k > j) p.mask.push_back(sub[k]); if (k == j && k > i) continue; p.mask.push_back(1);
        emit(str("reduce/", p.str(), "/sz", sz), [=]() { RunReduce(p, sz, 0, true); });
        emit(str("gather/", p.str(), "/sz", sz), [=]() { RunScatter(p, sz, 3, false); });
      }
}
// many unknowns
VF_PART(D02, large)
{
  for (int W = 2; W <= 4; W++) for (int N = 40; N <= 240; N += 100) for (int pat = 0; pat < 3; pat++)
    {
      Part p; p.W = W; for (int g = 0; g < N; g++) p.mask.push_back(pat == 0 ? (1 << W) - 1 : pat == 1 ? 1 + g % ((1 << W) - 1) : 3 << (g % (W - 1)));
      for (int op = 0; op < 2; op++) emit(str("dofs/W", W, "/N", N, "/pattern", pat, "/op", op), [=]() { RunDofData(p, op); });
      for (int k = 0; k < 7; k++) emit(str("scatter/W", W, "/N", N, "/pattern", pat, "/kind", k), [=]() { RunScatter(p, 14, k, true); });
    }
}
