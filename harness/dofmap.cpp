// C02, C03: level transfer steps, merged steps and Galerkin products
#include "linalg.hpp"
#include <dof_map.hpp>
#include <dof_contract.hpp>
#include <dyn_block.hpp>
#include <iostream>
using namespace vh;
namespace amg
{
shared_ptr<BaseDOFMapStep> MakeSingleStep2 (FlatArray<shared_ptr<BaseDOFMapStep>> init_steps);
shared_ptr<BaseDOFMapStep> MakeSingleStep3 (FlatArray<shared_ptr<BaseDOFMapStep>> init_steps);
}
typedef shared_ptr<BaseDOFMapStep> TStep;
static struct Quiet { Quiet () { std::cout.setstate(std::ios::failbit); } } quiet;   // ConcStep prints

// a space of N block unknowns, distributed over the members of one communicator
struct Space
{
  int N = 0, bs = 1; bool seq = false;
  VI world;                       // world ranks of the members
  std::vector<VI> loc;            // per member: global numbers in local order
  int member (int wr) const { for (size_t i = 0; i < world.size(); i++) if (world[i] == wr) return i; return -1; }
  VI owners (int g) const { VI v; for (size_t m = 0; m < loc.size(); m++) for (int x : loc[m]) if (x == g) v.push_back(m); return v; }
  bool on (int g, int m) const { for (int x : loc[m]) if (x == g) return true; return false; }
};
static Space Of (const Part & p, int bs, bool seq = false, bool rev = false)
{
  Space s; s.N = p.N(); s.bs = bs; s.seq = seq;
  for (int r = 0; r < (seq ? 1 : p.np()); r++) { s.world.push_back(r); VI l = p.locals(seq ? p.first : r); if (rev) std::reverse(l.begin(), l.end()); s.loc.push_back(l); }
  return s;
}
// the space after moving every group of members of f to its first member
static Space Contract (const Space & f, const std::vector<VI> & groups, bool rev)
{
  Space c; c.N = f.N; c.bs = f.bs;
  for (auto & g : groups)
    {
      c.world.push_back(f.world[g[0]]); VI l;
      for (int d = 0; d < f.N; d++) { bool h = false; for (int m : g) h = h || f.on(d, m); if (h) l.push_back(d); }
      if (rev) std::reverse(l.begin(), l.end());
      c.loc.push_back(l);
    }
  return c;
}
static UniversalDofs MakeUD (const Space & s, int m, NgMPI_Comm c)
{
  if (s.seq) return UniversalDofs(s.loc[0].size(), s.bs);
  TableCreator<int> t(s.loc[m].size());
  for (; !t.Done(); t++) for (size_t i = 0; i < s.loc[m].size(); i++) for (int q : s.owners(s.loc[m][i])) if (q != m) t.Add(i, q);
  return UniversalDofs(make_shared<ParallelDofs>(c, t.MoveTable(), s.bs, false));
}
enum Kind { PROL, CTR, MULTI, DYN };
struct StepD { Kind kind = PROL; Dense P; std::vector<VI> groups; int blocking = 0; };
struct Chain { std::vector<Space> sp; std::vector<StepD> st; int n () const { return st.size(); } };
static Dense OpOf (const Chain & c, int a, int b)   // from space b to space a (a <= b)
{
  int n = c.sp[a].N * c.sp[a].bs; Dense X = Zero(n); for (int i = 0; i < n; i++) X[i][i] = 1;
  for (int k = a; k < b; k++) if (c.st[k].kind != CTR) X = Mul(X, c.st[k].P);
  return X;
}
template<int H, int W> static shared_ptr<SparseMat<H,W>> LocProl (const Space & f, const Space & c, int mf, int mc, const Dense & P)
{
  Entries<StripTM<H,W>> e;
  for (size_t i = 0; i < f.loc[mf].size(); i++) for (size_t j = 0; j < c.loc[mc].size(); j++)
    {
      int gf = f.loc[mf][i], gc = c.loc[mc][j]; StripTM<H,W> m; bool nz = false;
      for (int a = 0; a < H; a++) for (int b = 0; b < W; b++) { double x = P[gf*H+a][gc*W+b]; Ent(m, a, b) = x; nz = nz || x != 0; }
      if (nz) e[{int(i), int(j)}] = m;
    }
  return MakeSp<StripTM<H,W>>(f.loc[mf].size(), c.loc[mc].size(), e);
}
// fac as in ConvertDynBlockProl of the code: explicit blockings of both sides
static DynVectorBlocking<> Blocking (int n, int code)   // bit k of code: block boundary before k+1
{
  Array<unsigned> off; off.Append(0); for (int k = 1; k < n; k++) if (code >> (k - 1) & 1) off.Append(k); if (n) off.Append(n);
  size_t nb = off.Size() - 1; return DynVectorBlocking<>(nb, n, std::move(off));
}
template<class F> static void OnBS (int h, int w, F f)
{
  auto on2 = [&](auto H) {
    constexpr int h = decltype(H)::value;
    switch (w)
      {
      case 1: f(H, std::integral_constant<int,1>()); break;
      case 2: if constexpr (h != 6) f(H, std::integral_constant<int,2>()); break;
      case 3: f(H, std::integral_constant<int,3>()); break;
#ifdef ELASTICITY
      case 6: if constexpr (h != 2) f(H, std::integral_constant<int,6>()); break;
#endif
      } };
  switch (h)
    {
    case 1: on2(std::integral_constant<int,1>()); break; case 2: on2(std::integral_constant<int,2>()); break; case 3: on2(std::integral_constant<int,3>()); break;
#ifdef ELASTICITY
    case 6: on2(std::integral_constant<int,6>()); break;
#endif
    }
}
#ifdef ELASTICITY
static const std::vector<int> BSS = { 1, 2, 3, 6 };
#else
static const std::vector<int> BSS = { 1, 2, 3 };
#endif
static bool HaveBS (int h, int w) { return !((h == 2 && w == 6) || (h == 6 && w == 2)); }
struct Built { Array<TStep> steps; std::vector<UniversalDofs> ud; };   // what one process has
static Built Build (const Chain & c, int wr, bool finalize = true, bool setup = true)
{
  Built B; NgsAMG_Comm comm = World(); B.ud.resize(c.n() + 1);
  if (c.sp[0].member(wr) < 0) return B;
  B.ud[0] = MakeUD(c.sp[0], c.sp[0].member(wr), comm);
  for (int k = 0; k < c.n(); k++)
    {
      const Space & f = c.sp[k]; const Space & g = c.sp[k+1]; const StepD & s = c.st[k];
      int mf = f.member(wr), mc = g.member(wr);
      if (s.kind != CTR)
        {
          B.ud[k+1] = MakeUD(g, mc, comm);
          TStep res;
          OnBS(f.bs, g.bs, [&](auto HH, auto WW) {
              constexpr int H = decltype(HH)::value, W = decltype(WW)::value;
              auto P = LocProl<H,W>(f, g, mf, mc, s.P);
              auto pm = make_shared<ProlMap<StripTM<H,W>>>(P, B.ud[k], B.ud[k+1]); if (finalize || s.kind == DYN) pm->Finalize();
              res = pm;
              if constexpr (H == 1 && W == 1) if (s.kind == DYN)
                {
                  auto fb = Blocking(f.loc[mf].size(), s.blocking & 15), cb = Blocking(g.loc[mc].size(), s.blocking >> 4 & 15);
                  shared_ptr<DynBlockSparseMatrix<double>> dP, dPT;
                  if (s.blocking >> 8 & 1) { dP = make_shared<DynBlockSparseMatrix<double>>(*pm->GetProl(), &cb); dPT = make_shared<DynBlockSparseMatrix<double>>(*pm->GetProlTrans(), cb, dP->GetRowBlocking(), false); }
                  else { dP = make_shared<DynBlockSparseMatrix<double>>(*pm->GetProl(), fb, cb, false); dPT = make_shared<DynBlockSparseMatrix<double>>(*pm->GetProlTrans(), cb, fb, false); }
                  res = make_shared<DynBlockProlMap<double>>(dP, dPT, B.ud[k], B.ud[k+1]);
                }
              if (s.kind == MULTI)
                {
                  // second map: something else entirely, must not influence the transfer
                  Dense Q = s.P; for (auto & r : Q) for (double & x : r) x = x ? -x : 0;
                  auto pm2 = make_shared<ProlMap<StripTM<H,W>>>(LocProl<H,W>(f, g, mf, mc, Q), B.ud[k], B.ud[k+1]);
                  Array<TStep> two; two.Append(pm); two.Append(pm2); res = make_shared<MultiDofMapStep>(two); res->Finalize();
                }
            });
          B.steps.Append(res);
        }
      else
        {
          Array<int> mem; for (auto & gr : s.groups) mem.Append(gr[0]);
          NgsAMG_Comm cc = comm.CreateSubCommunicatorGlobal(mem);
          int gi = -1; for (size_t i = 0; i < s.groups.size(); i++) for (int m : s.groups[i]) if (m == mf) gi = i;
          Array<int> group; for (int m : s.groups[gi]) group.Append(m);
          Table<int> maps;
          if (mc >= 0)
            {
              B.ud[k+1] = MakeUD(g, mc, cc);
              TableCreator<int> t(group.Size());
              for (; !t.Done(); t++) for (size_t i = 0; i < group.Size(); i++) for (int d : f.loc[group[i]]) { int j = 0; while (g.loc[mc][j] != d) j++; t.Add(i, j); }
              maps = t.MoveTable();
            }
          TStep res;
          OnBS(f.bs, f.bs, [&](auto HH, auto) {
              constexpr int H = decltype(HH)::value;
              auto cm = make_shared<CtrMap<StripVec<H>>>(B.ud[k], B.ud[k+1], std::move(group), std::move(maps));
              if (mc >= 0) cm->_comm_keepalive_hack = cc;
              if (setup) cm->SetUpMPIStuff(); res = cm;
            });
          B.steps.Append(res);
          if (mc < 0) break;
          comm = cc;
        }
    }
  return B;
}

// ------------ transfers
struct Probe   // collects the vectors of all processes after the run
{
  struct One { bool have = false; VD x; PARALLEL_STATUS st; };
  std::vector<std::map<int, One>> v;   // [slot][rank]
};
static VD GlobalOf (const Space & s, const std::map<int, Probe::One> & m, const string & what)
{
  int bs = s.bs; VD g(s.N * bs, 0.0); std::vector<int> cnt(s.N * bs, 0); bool cum = false, first = true;
  for (auto & x : m)
    {
      int me = s.member(x.first); if (me < 0 || s.loc[me].empty()) continue;
      bool c = x.second.st != DISTRIBUTED; if (first) { cum = c; first = false; } vf::check(c == cum, "status", what + ": processes disagree about the parallel status");
      vf::check(x.second.x.size() == s.loc[me].size() * bs, "size", what + ": vector size");
    }
  for (auto & x : m)
    {
      int me = s.member(x.first); if (me < 0) continue;
      for (size_t i = 0; i < s.loc[me].size(); i++) for (int l = 0; l < bs; l++)
        {
          int d = s.loc[me][i] * bs + l; double y = x.second.x[i * bs + l];
          if (!cum) g[d] += y;
          else { if (cnt[d]) vf::check(std::fabs(g[d] - y) <= 1e-12 * std::max(1.0, std::fabs(y)), "inconsistent", str(what, ": full value of unknown ", d, " differs between processes: ", g[d], " and ", y)); g[d] = y; cnt[d]++; }
        }
    }
  return g;
}
static void Set (BaseVector & v, const Space & s, int m, const VD & g, bool cum, int salt)
{
  auto f = v.FVDouble();
  for (size_t i = 0; i < s.loc[m].size(); i++) for (int l = 0; l < s.bs; l++)
    {
      int d = s.loc[m][i]; double val = g[d * s.bs + l]; VI o = s.owners(d);
      if (!cum && o.size() > 1) { double rest = val, mine = 0; for (size_t k = 1; k < o.size(); k++) { double c = 0.5 * ((d * 3 + o[k] * 5 + l * 2 + salt * 7) % 9 - 4); rest -= c; if (o[k] == m) mine = c; } val = (o[0] == m) ? rest : mine; }
      f(i * s.bs + l) = val;
    }
  if (!s.seq) v.SetParallelStatus(cum ? CUMULATED : DISTRIBUTED);
}
static Probe::One Get (const BaseVector & v) { Probe::One o; o.have = true; o.x = GetLoc(v); o.st = v.GetParallelStatus(); return o; }
static VD Vals (int n, int salt) { VD v(n); for (int i = 0; i < n; i++) v[i] = 1 + ((i * 7 + salt * 5) % 11) * 0.5 + (i % 2 ? -4 : 0); return v; }

// the four transfer operations of one operator between spaces a and b, all combinations of vector statuses
struct Ops { std::function<void(const BaseVector*, BaseVector*)> f2c; std::function<void(double, const BaseVector*, BaseVector*)> af2c; std::function<void(BaseVector*, const BaseVector*)> c2f; std::function<void(double, BaseVector*, const BaseVector*)> ac2f; };
static Ops OpsOf (BaseDOFMapStep & s)
{
  Ops o; auto p = &s;
  o.f2c = [p](auto x, auto y) { p->TransferF2C(x, y); }; o.af2c = [p](double f, auto x, auto y) { p->AddF2C(f, x, y); };
  o.c2f = [p](auto x, auto y) { p->TransferC2F(x, y); }; o.ac2f = [p](double f, auto x, auto y) { p->AddC2F(f, x, y); };
  return o;
}
// run on one rank; slot: first slot in probe (uses 2 per operation and status combination = 32 slots)
enum { SLOTS = 32 };
static int onlyOp = -1;   // restrict to one operation and status combination (used when all completion orders are explored)
static void RunOps (const Chain & c, int a, int b, const Built & B, int wr, const Ops & o, std::vector<std::map<int, Probe::One>> & v, int slot, bool plainOnly = false, int one = -1)
{
  const Space & f = c.sp[a]; const Space & g = c.sp[b]; int mf = f.member(wr), mc = g.member(wr);
  if (mf < 0) return;
  VD xf = Vals(f.N * f.bs, 1), xc = Vals(g.N * g.bs, 2);
  for (int st = 0; st < 4; st++)
    for (int op = 0; op < 4; op++)
      {
        if (f.seq && st) continue;
        if (plainOnly && (op % 2)) continue;
        if (onlyOp >= 0 && st * 4 + op != onlyOp) continue;
        shared_ptr<BaseVector> vfi = B.ud[a].CreateVector(), vco; if (mc >= 0) vco = B.ud[b].CreateVector();
        if (mc >= 0) vf::check(vco != nullptr, "vector", "no vector on the coarse level");
        Set(*vfi, f, mf, xf, st & 1, st); if (vco) Set(*vco, g, mc, xc, st & 2, st + 1);
        switch (op)
          {
          case 0: o.f2c(vfi.get(), vco.get()); break;
          case 1: o.af2c(-0.5, vfi.get(), vco.get()); break;
          case 2: o.c2f(vfi.get(), vco.get()); break;
          case 3: o.ac2f(-0.5, vfi.get(), vco.get()); break;
          }
        int sl = slot + (st * 4 + op) * 2;
        v[sl][wr] = Get(*vfi); if (vco) v[sl+1][wr] = Get(*vco);
      }
}
static void JudgeOps (const Chain & c, int a, int b, const std::vector<std::map<int, Probe::One>> & v, int slot, const string & what, bool plainOnly = false)
{
  const Space & f = c.sp[a]; const Space & g = c.sp[b]; Dense P = OpOf(c, a, b);
  VD xf = Vals(f.N * f.bs, 1), xc = Vals(g.N * g.bs, 2), Pc = MulV(P, xc), Pt = MulTV(P, xf);
  static const char * N[] = { "TransferF2C", "AddF2C", "TransferC2F", "AddC2F" };
  for (int st = 0; st < 4; st++)
    for (int op = 0; op < 4; op++)
      {
        if (f.seq && st) continue;
        if (plainOnly && (op % 2)) continue;
        if (onlyOp >= 0 && st * 4 + op != onlyOp) continue;
        VD wf = xf, wc = xc;
        if (op == 0) wc = Pt; if (op == 1) for (size_t i = 0; i < wc.size(); i++) wc[i] -= 0.5 * Pt[i];
        if (op == 2) wf = Pc; if (op == 3) for (size_t i = 0; i < wf.size(); i++) wf[i] -= 0.5 * Pc[i];
        int sl = slot + (st * 4 + op) * 2; string w = str(what, " ", N[op], " fine ", st & 1 ? "full" : "partial", " coarse ", st & 2 ? "full" : "partial");
        VD gf = GlobalOf(f, v[sl], w + " fine vector"), gc = GlobalOf(g, v[sl+1], w + " coarse vector");
        vf::check(Close(gf, wf, 1e-11), op < 2 ? "input-changed" : "value", str(w, ": fine vector ", S(gf), " expected ", S(wf)));
        vf::check(Close(gc, wc, 1e-11), op < 2 ? "value" : "input-changed", str(w, ": coarse vector ", S(gc), " expected ", S(wc)));
      }
}

// all ways of putting the steps of a chain together (b - a >= 2), given the local steps
struct Way { string name; std::function<TStep(FlatArray<TStep>)> make; };
static std::vector<Way> Ways ()
{
  std::vector<Way> w;
  w.push_back({ "ConcDMS", [](auto s) { auto x = make_shared<ConcDMS>(s); x->Finalize(); return TStep(x); } });
  w.push_back({ "ConcDMS(vecs)", [](auto s) {
      Array<shared_ptr<BaseVector>> v; for (size_t k = 0; k + 1 < s.Size(); k++) v.Append(shared_ptr<BaseVector>(s[k]->CreateMappedVector()));
      auto x = make_shared<ConcDMS>(s, v); x->Finalize(); return TStep(x); } });
  w.push_back({ "nested-left", [](auto s) {
      if (s.Size() < 2) return s[0];
      auto in = make_shared<ConcDMS>(s.Range(0, s.Size() - 1)); Array<TStep> t; t.Append(in); t.Append(s.Last()); auto x = make_shared<ConcDMS>(t); x->Finalize(); return TStep(x); } });
  w.push_back({ "nested-right", [](auto s) {
      if (s.Size() < 2) return s[0];
      auto in = make_shared<ConcDMS>(s.Range(1, s.Size())); Array<TStep> t; t.Append(s[0]); t.Append(in); auto x = make_shared<ConcDMS>(t); x->Finalize(); return TStep(x); } });
  w.push_back({ "MakeSingleStep2", [](auto s) { auto x = MakeSingleStep2(s); x->Finalize(); return x; } });
  w.push_back({ "MakeSingleStep3", [](auto s) { auto x = MakeSingleStep3(s); x->Finalize(); return x; } });
  w.push_back({ "MakeSingleStep3(nested)", [](auto s) {
      if (s.Size() < 2) return s[0];
      auto in = make_shared<ConcDMS>(s.Range(0, 2)); Array<TStep> t; t.Append(in); for (size_t k = 2; k < s.Size(); k++) t.Append(s[k]); auto x = MakeSingleStep3(t); x->Finalize(); return x; } });
  w.push_back({ "Concatenate", [](auto s) {
      Array<TStep> t; t.Append(s[0]);
      for (size_t k = 1; k < s.Size(); k++) if (auto x = t.Last()->Concatenate(s[k])) { x->Finalize(); t.Last() = x; } else t.Append(s[k]);
      if (t.Size() == 1) return t[0]; auto x = make_shared<ConcDMS>(t); x->Finalize(); return TStep(x); } });
  w.push_back({ "Concatenate-from-the-right", [](auto s) {
      Array<TStep> t; t.Append(s.Last());
      for (int k = int(s.Size()) - 2; k >= 0; k--) if (auto x = s[k]->Concatenate(t[0])) { x->Finalize(); t[0] = x; } else t.Insert(0, s[k]);
      if (t.Size() == 1) return t[0]; auto x = make_shared<ConcDMS>(t); x->Finalize(); return TStep(x); } });
  return w;
}
static int NP (const Chain & c) { return c.sp[0].seq ? 1 : c.sp[0].world.size(); }
static std::vector<sim::Options> Modes (const Chain & c, bool wany)
{
  if (NP(c) == 1) { sim::Options o; o.n = 1; return { o }; }
  auto ms = vf::modes(NP(c), false); if (!wany) for (auto & m : ms) m.waitany = false; return ms;
}
static void TestTransfersOne (const Chain & c, bool wany, bool merged)
{
  for (auto & opt : Modes(c, wany))
    {
      int n = c.n(); std::vector<std::map<int, Probe::One>> v; std::vector<string> names; std::vector<std::array<int,2>> ab; std::vector<bool> plain;
      auto ways = Ways();
      // layout
      for (int k = 0; k < n; k++) { names.push_back(str("step ", k)); ab.push_back({k, k+1}); plain.push_back(false); }
      if (merged)
        {
          for (auto & w : ways) for (int a = 0; a < n; a++) for (int b = a + 2; b <= n; b++) { names.push_back(str(w.name, " ", a, "-", b)); ab.push_back({a, b}); plain.push_back(false); }
          for (int kind = 0; kind < 2; kind++) for (int a = 0; a < n; a++) for (int b = a + 1; b <= n; b++) { names.push_back(str(kind ? "ConcStep(merge) " : "ConcStep ", a, "-", b)); ab.push_back({a, b}); plain.push_back(false); }
          for (int a = 0; a < n; a++) for (int b = a + 1; b <= n; b++) { names.push_back(str("TransferAtoB ", a, "-", b)); ab.push_back({a, b}); plain.push_back(true); }
          names.push_back(str("SubMap 1-", n)); ab.push_back({1, n}); plain.push_back(true);
        }
      v.resize(names.size() * SLOTS);
      vf::Explore ex; ex.opt = opt;
      ex([&](int wr) {
          auto B = Build(c, wr); int ns = B.steps.Size(), s = 0;
          for (int k = 0; k < n; k++, s += SLOTS) if (k < ns) RunOps(c, k, k+1, B, wr, OpsOf(*B.steps[k]), v, s);
          if (!merged) return;
          for (auto & w : ways) for (int a = 0; a < n; a++) for (int b = a + 2; b <= n; b++, s += SLOTS) if (a < ns) { auto st = w.make(B.steps.Range(a, std::min(b, ns))); RunOps(c, a, b, B, wr, OpsOf(*st), v, s); }
          DOFMap dm; for (int k = ns - 1; k >= 0; k--) if (k % 2) dm.PrependStep(B.steps[k]); else { dm.PrependStep(B.steps[k]); } dm.Finalize();
          for (int kind = 0; kind < 2; kind++) for (int a = 0; a < n; a++) for (int b = a + 1; b <= n; b++, s += SLOTS) if (a < ns) { auto st = dm.ConcStep(a, std::min(b, ns), kind == 0); st->Finalize(); RunOps(c, a, b, B, wr, OpsOf(*st), v, s); }
          for (int a = 0; a < n; a++) for (int b = a + 1; b <= n; b++, s += SLOTS)
            { Ops o; o.f2c = [&](auto x, auto y) { dm.TransferAtoB(a, b, x, y); }; o.c2f = [&](auto x, auto y) { dm.TransferAtoB(b, a, y, x); }; if (a < ns) RunOps(c, a, b, B, wr, o, v, s, true); }
          if (1 < ns) { auto sm = dm.SubMap(1); Ops o; int top = std::min(n, ns) - 1; o.f2c = [&](auto x, auto y) { sm->TransferAtoB(0, top, x, y); }; o.c2f = [&](auto x, auto y) { sm->TransferAtoB(top, 0, y, x); }; if (n > 1) RunOps(c, 1, n, B, wr, o, v, s, true); }
        },
        [&]() { for (size_t i = 0; i < names.size(); i++) if (ab[i][0] < ab[i][1]) JudgeOps(c, ab[i][0], ab[i][1], v, i * SLOTS, names[i], plain[i]); vf::traces(names.size()); },
        [&]() { for (auto & x : v) x.clear(); });
    }
}

static void TestTransfers (const Chain & c, bool wany, bool merged)
{
  onlyOp = -1;
  if (wany) { for (int k = 0; k < 16; k++) { onlyOp = k; TestTransfersOne(c, true, merged); } onlyOp = -1; }
  else TestTransfersOne(c, false, merged);
}

// ------------ Galerkin products
template<int H> static shared_ptr<SparseMat<H,H>> LocMat (const Space & f, int m, const Dense & A, int salt)
{
  Entries<StripTM<H,H>> e;
  for (size_t i = 0; i < f.loc[m].size(); i++) for (size_t j = 0; j < f.loc[m].size(); j++)
    {
      int gi = f.loc[m][i], gj = f.loc[m][j]; StripTM<H,H> M; bool nz = gi == gj; VI o; for (size_t q = 0; q < f.loc.size(); q++) if (f.on(gi, q) && f.on(gj, q)) o.push_back(q);
      for (int a = 0; a < H; a++) for (int b = 0; b < H; b++)
        {
          double x = A[gi*H+a][gj*H+b]; nz = nz || x != 0;
          double rest = x, mine = 0; if (x != 0) for (size_t k = 1; k < o.size(); k++) { double cc = 0.5 * (((gi + gj) * 3 + (gi * gj) + o[k] * 5 + a + b + salt) % 7 - 3); rest -= cc; if (o[k] == m) mine = cc; }
          Ent(M, a, b) = x == 0 ? 0 : o[0] == m ? rest : mine;
        }
      if (nz) e[{int(i), int(j)}] = M;
    }
  return MakeSp<StripTM<H,H>>(f.loc[m].size(), f.loc[m].size(), e);
}
static Dense GlobMat (int n, bool sym, int pattern, int bs)   // pattern: bit (i,j), i<j: coupled
{
  Dense A = Zero(n * bs); int bit = 0;
  for (int i = 0; i < n; i++) for (int j = i; j < n; j++)
    {
      bool on = i == j || (pattern >> bit & 1); if (i != j) bit++;
      if (on) for (int a = 0; a < bs; a++) for (int b = 0; b < bs; b++)
        {
          if (i == j && b < a && sym) continue;
          double x = i == j ? (a == b ? 8 + i : 1) : -1 - 0.5 * ((i + j + a * 2 + b) % 3);
          A[i*bs+a][j*bs+b] = x; if (i != j || a != b) A[j*bs+b][i*bs+a] = sym ? x : x + 0.5 + i;
        }
    }
  return A;
}
static void JudgeMat (const Space & g, const std::map<int, Dense> & M, const Dense & want, bool sym, const string & what)
{
  int bs = g.bs; Dense D = Zero(g.N * bs);
  for (auto & x : M)
    {
      int m = g.member(x.first); vf::check(m >= 0, "matrix", what + ": a process outside the level got a matrix"); size_t n = g.loc[m].size() * bs;
      vf::check(x.second.size() == n, "size", str(what, ": matrix on rank ", x.first, " has ", x.second.size(), " rows, expected ", n));
      for (size_t i = 0; i < n; i++) { vf::check(x.second[i].size() == n, "size", what + ": matrix not square"); for (size_t j = 0; j < n; j++) { D[g.loc[m][i/bs]*bs+i%bs][g.loc[m][j/bs]*bs+j%bs] += x.second[i][j]; if (sym) vf::check(std::fabs(x.second[i][j] - x.second[j][i]) <= 1e-11, "symmetry", str(what, ": local matrix not symmetric on rank ", x.first)); } }
    }
  for (auto & w : g.world) vf::check(M.count(w), "matrix", str(what, ": no matrix on rank ", w));
  for (size_t i = 0; i < D.size(); i++) vf::check(Close(D[i], want[i], 1e-11), "galerkin", str(what, ": row ", i, " is ", S(D[i]), " expected ", S(want[i])));
}
// sorted, duplicate-free rows
template<class TM> static Dense CheckedDense (const SparseMatrixTM<TM> & m, int bs, const string & what)
{
  for (size_t i = 0; i < size_t(m.Height()); i++) { auto ri = m.GetRowIndices(i); for (size_t k = 0; k < ri.Size(); k++) vf::check(ri[k] >= 0 && ri[k] < m.Width() && (!k || ri[k-1] < ri[k]), "rows", str(what, ": row ", i, " not sorted or out of range")); }
  return ToDense<TM>(m, bs, bs);
}
static Dense AnyDense (shared_ptr<BaseMatrix> m, int bs, const string & what)
{
  Dense D; OnBS(bs, bs, [&](auto HH, auto) { constexpr int H = decltype(HH)::value; auto s = dynamic_pointer_cast<SparseMatTM<H,H>>(m); vf::check(s != nullptr, "type", what + ": assembled matrix has an unexpected type"); D = CheckedDense<StripTM<H,H>>(*s, bs, what); });
  return D;
}
static void TestGalerkin (const Chain & c, const Dense & A, bool sym, bool merged)
{
  int n = c.n(); auto ways = Ways(); Dense Pn = OpOf(c, 0, n);
  for (auto & opt : Modes(c, false))
    {
      std::vector<std::vector<std::map<int, Dense>>> M;   // [way][level][rank]
      int nw = 2 + (merged ? ways.size() + 1 : 0);
      vf::Explore ex; ex.opt = opt;
      ex([&](int wr) {
          auto B = Build(c, wr, false); int ns = B.steps.Size(); const Space & f = c.sp[0]; int m = f.member(wr);
          shared_ptr<BaseMatrix> a0; OnBS(f.bs, f.bs, [&](auto HH, auto) { a0 = LocMat<decltype(HH)::value>(f, m, A, 0); });
          Dense a0d = AnyDense(a0, f.bs, "fine");
          // step by step
          shared_ptr<BaseMatrix> a = a0; for (int k = 0; k < ns; k++) { a = B.steps[k]->AssembleMatrix(a); if (a) M[0][k+1][wr] = AnyDense(a, c.sp[k+1].bs, str("step ", k)); else vf::check(c.sp[k+1].member(wr) < 0, "matrix", "no coarse matrix"); }
          // through the DOFMap
          { DOFMap dm; for (auto & s : B.steps) dm.AddStep(s); auto ms = dm.AssembleMatrices(a0); vf::check(ms.Size() == size_t(ns) + 1, "levels", "number of matrices"); for (int k = 0; k < ns; k++) if (ms[k+1]) M[1][k+1][wr] = AnyDense(ms[k+1], c.sp[k+1].bs, "AssembleMatrices"); }
          if (merged)
            {
              for (size_t w = 0; w < ways.size(); w++) { auto st = ways[w].make(B.steps); auto x = st->AssembleMatrix(a0); if (x) M[2+w][n][wr] = AnyDense(x, c.sp[n].bs, ways[w].name); }
              // from Multi
              Array<TStep> two; two.Append(ways[0].make(B.steps)); two.Append(B.steps[0]); auto mm = make_shared<MultiDofMapStep>(two); auto x = mm->AssembleMatrix(a0); if (x) M[2+ways.size()][n][wr] = AnyDense(x, c.sp[n].bs, "MultiDofMapStep");
            }
          Dense a0e = AnyDense(a0, f.bs, "fine"); vf::check(a0d == a0e, "input-changed", "the fine matrix was changed");
        },
        [&]() {
          for (int w = 0; w < nw; w++) for (int k = 1; k <= n; k++) { if (w >= 2 && k < n) continue; Dense P = OpOf(c, 0, k); JudgeMat(c.sp[k], M[w][k], Mul(Trans(P), Mul(A, P)), sym, str(w == 0 ? "step by step" : w == 1 ? "AssembleMatrices" : w - 2 < (int)ways.size() ? ways[w-2].name.c_str() : "MultiDofMapStep", ", level ", k)); }
          vf::traces(nw); },
        [&]() { M.assign(nw, std::vector<std::map<int, Dense>>(n + 1)); });
    }
}

// ------------ enumeration
// prolongation pattern between partitions: bit (i*M+j); only where all processes of i have j
static int Allowed (const Part & f, const Part & c) { int a = 0; for (int i = 0; i < f.N(); i++) for (int j = 0; j < c.N(); j++) if (!(f.mask[i] & ~c.mask[j])) a |= 1 << (i * c.N() + j); return a; }
static Dense ProlVals (int n, int m, int bf, int bc, int pat, int salt)
{
  Dense P = Zero(n * bf, m * bc);
  for (int i = 0; i < n; i++) for (int j = 0; j < m; j++) if (pat >> (i * m + j) & 1) for (int a = 0; a < bf; a++) for (int b = 0; b < bc; b++) P[i*bf+a][j*bc+b] = 0.5 + 0.25 * ((i * 5 + j * 3 + a * 2 + b * 7 + salt) % 8) * ((a + b) % 2 ? -1 : 1);
  return P;
}
template<class F> static void SubPatterns (int allowed, bool all, F f)
{
  if (!all) { f(allowed); int x = 0, k = 0; for (int b = 0; b < 30; b++) if (allowed >> b & 1) { if (k++ % 2) x |= 1 << b; } if (x != allowed) f(x); return; }
  int s = allowed; for (;;) { f(s); if (!s) return; s = (s - 1) & allowed; }
}
static Chain Prol2 (const Part & f, const Part & c, int bf, int bc, int pat, bool seq, Kind k = PROL, bool rev = false)
{ Chain ch; ch.sp = { Of(f, bf, seq, rev), Of(c, bc, seq, rev) }; StepD s; s.kind = k; s.P = ProlVals(f.N(), c.N(), bf, bc, pat, 1); ch.st = { s }; return ch; }

// single prolongations: all partitions, all patterns
template<class F> static void ForProls (bool th, F f)
{
  for (int bf : BSS) for (int bc : BSS)
    {
      if (!HaveBS(bf, bc)) continue;
      bool sc = bf == 1 && bc == 1;
      // sequential
      AllParts(1, 3, [&](const Part & pf) { AllParts(1, 2, [&](const Part & pc) { SubPatterns(Allowed(pf, pc), sc, [&](int pat) { f(pf, pc, bf, bc, pat, true); }); }); });
      SortedParts(2, sc ? 3 : 2, [&](const Part & pf) { AllParts(2, 2, [&](const Part & pc) { SubPatterns(Allowed(pf, pc), sc, [&](int pat) { f(pf, pc, bf, bc, pat, false); }); }); });
      if (sc || th) SortedParts(3, 2, [&](const Part & pf) { AllParts(3, 2, [&](const Part & pc) { SubPatterns(Allowed(pf, pc), th, [&](int pat) { f(pf, pc, bf, bc, pat, false); }); }); });
    }
}
VF_PART(C02, prol)
{
  ForProls(vf::thorough, [&](const Part & pf, const Part & pc, int bf, int bc, int pat, bool seq) {
      if (bf * bc > 1) pat = pat;
      emit(str(seq ? "seq" : "", pf.str(), "-", pc.str(), "b", bf, bc, "p", pat), [=]() {
          for (int rev = 0; rev < 2; rev++) { TestTransfers(Prol2(pf, pc, bf, bc, pat, seq, PROL, rev), false, false); TestTransfers(Prol2(pf, pc, bf, bc, pat, seq, MULTI, rev), false, false); }
          vf::outcome(vf::hash(str(pf.str(), pc.str(), bf, bc, pat))); });
    });
}
VF_PART(C02, dyn)
{
  auto go = [&](const Part & pf, const Part & pc, bool seq) {
    SubPatterns(Allowed(pf, pc), true, [&](int pat) {
        for (int fb = 0; fb < (1 << (pf.N() - 1)); fb++) for (int cb = 0; cb < (1 << (pc.N() - 1)); cb++) for (int a = 0; a < 2; a++)
          { if (a && fb) continue; int code = fb | cb << 4 | a << 8;
            // the format holds full blocks only: on every process a pair of blocks is either full or empty
            bool full = true; Space F = Of(pf, 1, seq), C = Of(pc, 1, seq);
            for (size_t m = 0; m < F.loc.size(); m++)
              for (size_t i = 0; i < F.loc[m].size(); i++) for (size_t j = 0; j < C.loc[m].size(); j++)
                {
                  auto has = [&](size_t x, size_t y) { return pat >> (F.loc[m][x] * pc.N() + C.loc[m][y]) & 1; };
                  if (j + 1 < C.loc[m].size() && !(cb >> j & 1) && has(i, j) != has(i, j + 1)) full = false;
                  if (!a && i + 1 < F.loc[m].size() && !(fb >> i & 1) && has(i, j) != has(i + 1, j)) full = false;
                }
            if (!full) continue;
            emit(str(seq ? "seq" : "", pf.str(), "-", pc.str(), "p", pat, "c", code), [=]() { Chain c = Prol2(pf, pc, 1, 1, pat, seq, DYN); c.st[0].blocking = code; TestTransfers(c, false, false); }); }
      });
  };
  AllParts(1, 3, [&](const Part & pf) { AllParts(1, 2, [&](const Part & pc) { go(pf, pc, true); }); });
  SortedParts(2, 2, [&](const Part & pf) { SortedParts(2, 2, [&](const Part & pc) { go(pf, pc, false); }); });
}
// all partitions of W workers into groups; rank 0 alone, or everything on rank 0
VF_PART(C02, contract)
{
  for (int bs : BSS) for (int W = 1; W <= 3; W++)
    {
      int N = bs == 1 ? 3 : 2; if (bs > 1 && W == 3 && !vf::thorough) continue;
      SortedParts(W, N, [&](const Part & p) { ForGroups(W, [&](const std::vector<VI> & g) {
            for (int rev = 0; rev < 2; rev++)
              emit(str(p.str(), GS(g), "b", bs, rev ? "r" : ""), [=]() { Chain c; c.sp.push_back(Of(p, bs)); c.sp.push_back(Contract(c.sp[0], g, rev)); StepD s; s.kind = CTR; s.groups = g; c.st = { s }; TestTransfers(c, W < 3 || bs == 1, false); vf::outcome(vf::hash(str(p.str(), GS(g), bs))); });
          }); });
    }
}
VF_PART(C02, contract4)
{
  SortedParts(4, vf::thorough ? 3 : 2, [&](const Part & p) { ForGroups(4, [&](const std::vector<VI> & g) {
        emit(str(p.str(), GS(g)), [=]() { Chain c; c.sp.push_back(Of(p, 1)); c.sp.push_back(Contract(c.sp[0], g, true)); StepD s; s.kind = CTR; s.groups = g; c.st = { s }; TestTransfers(c, false, false); }); }); });
}
// chains of up to 3 steps: kinds and block sizes
template<class F> static void ForChains (bool th, F f)
{
  // sequential / parallel without redistribution: P1 P2 (P3), all block sizes
  auto mk = [](const Part & a, const Part & b, const Part & c, const Part * d, int b0, int b1, int b2, int b3, bool seq, int sel) {
    Chain ch; ch.sp = { Of(a, b0, seq), Of(b, b1, seq), Of(c, b2, seq) };
    auto pat = [&](const Part & x, const Part & y) { int al = Allowed(x, y), r = al, k = 0; if (sel) { r = 0; for (int i = 0; i < 30; i++) if (al >> i & 1) if (k++ % 3 != 1) r |= 1 << i; } return r; };
    StepD s1, s2; s1.P = ProlVals(a.N(), b.N(), b0, b1, pat(a, b), 1); s2.P = ProlVals(b.N(), c.N(), b1, b2, pat(b, c), 2); ch.st = { s1, s2 };
    if (d) { ch.sp.push_back(Of(*d, b3, seq)); StepD s3; s3.P = ProlVals(c.N(), d->N(), b2, b3, pat(c, *d), 3); ch.st.push_back(s3); }
    return ch;
  };
  Part s3, s2, s1; s3.mask = { 1, 1, 1 }; s2.mask = { 1, 1 }; s1.mask = { 1 };
  for (int b0 : BSS) for (int b1 : BSS) for (int b2 : BSS)
    for (int sel = 0; sel < 2; sel++)
      {
        if (!HaveBS(b0, b1) || !HaveBS(b1, b2)) continue;
        f(str("seq-b", b0, b1, b2, "-", sel), mk(s3, s2, s1, nullptr, b0, b1, b2, 0, true, sel));
        for (int b3 : BSS) if (HaveBS(b2, b3)) f(str("seq-b", b0, b1, b2, b3, "-", sel), mk(s3, s3, s2, &s1, b0, b1, b2, b3, true, sel));
      }
  SortedParts(2, 2, [&](const Part & a) { AllParts(2, 2, [&](const Part & b) { AllParts(2, 1, [&](const Part & c) { for (int sel = 0; sel < 2; sel++) { f(str("par", a.str(), b.str(), c.str(), "-", sel), mk(a, b, c, nullptr, 1, 1, 1, 0, false, sel)); f(str("par3", a.str(), b.str(), c.str(), "-", sel), mk(a, b, b, &c, 1, 1, 1, 1, false, sel)); if (th || !sel) f(str("parb", a.str(), b.str(), c.str(), "-", sel), mk(a, b, c, nullptr, 2, 3, 3, 0, false, sel)); } }); }); });
  // with redistribution: every arrangement of one or two contractions among prolongations
  auto mkc = [&](const Part & a, const Part & b, const std::vector<VI> & g, int shape, int b0, int b1, bool rev) {
    Chain ch; int pat = Allowed(a, b); Dense P = ProlVals(a.N(), b.N(), b0, b1, pat, 1); StepD sp, sc; sp.P = P; sc.kind = CTR; sc.groups = g;
    auto full = [&](const Space & x, int n, int bs) { Space y; y.N = n; y.bs = bs; y.world = x.world; for (size_t m = 0; m < x.loc.size(); m++) { VI l; if (!x.loc[m].empty()) for (int i = 0; i < n; i++) l.push_back(i); y.loc.push_back(l); } return y; };
    switch (shape)
      {
      case 0: ch.sp = { Of(a, b0), Of(b, b1) }; ch.sp.push_back(Contract(ch.sp[1], g, rev)); ch.st = { sp, sc }; break;                                       // P C
      case 1: ch.sp = { Of(a, b0) }; ch.sp.push_back(Contract(ch.sp[0], g, rev)); ch.sp.push_back(full(ch.sp[1], 2, b1)); sp.P = ProlVals(a.N(), 2, b0, b1, (1 << (2 * a.N())) - 1, 1); ch.st = { sc, sp }; break;   // C P
      case 2: { ch.sp = { Of(a, b0), Of(b, b1) }; ch.sp.push_back(Contract(ch.sp[1], g, rev)); ch.sp.push_back(full(ch.sp[2], 1, b1)); StepD s2; s2.P = ProlVals(b.N(), 1, b1, b1, (1 << b.N()) - 1, 2); ch.st = { sp, sc, s2 }; break; }   // P C P
      case 3: { ch.sp = { Of(a, b0) }; ch.sp.push_back(Contract(ch.sp[0], g, rev)); int k = ch.sp[1].world.size(); StepD s2; s2.kind = CTR; s2.groups.resize(1); for (int i = 0; i < k; i++) s2.groups[0].push_back(i); ch.sp.push_back(Contract(ch.sp[1], s2.groups, !rev)); ch.st = { sc, s2 }; break; }   // C C (second: all on one)
      case 4: { ch.sp = { Of(a, b0) }; ch.sp.push_back(Contract(ch.sp[0], g, rev)); ch.sp.push_back(full(ch.sp[1], 2, b1)); sp.P = ProlVals(a.N(), 2, b0, b1, (1 << (2 * a.N())) - 1, 1); int k = ch.sp[1].world.size(); StepD s2; s2.kind = CTR; s2.groups.resize(1); for (int i = 0; i < k; i++) s2.groups[0].push_back(i); ch.sp.push_back(Contract(ch.sp[2], s2.groups, !rev)); ch.st = { sc, sp, s2 }; break; }   // C P C
      }
    return ch;
  };
  for (int W = 2; W <= 3; W++)
    SortedParts(W, 2, [&](const Part & a) { if (!Canonical(a) && !th) return;
        std::set<int> used; for (int m : a.mask) used.insert(m);
        ForGroups(W, [&](const std::vector<VI> & g) {
            for (int shape = 0; shape < 5; shape++) for (int bb = 0; bb < 2; bb++)
              {
                auto one = [&](const Part & b) { f(str("ctr", a.str(), b.str(), GS(g), "s", shape, "b", bb), mkc(a, b, g, shape, 1 + bb, 1 + 2 * bb, bb)); };
                if (shape == 0 || shape == 2) { if (W == 2) SortedParts(W, 2, [&](const Part & b) { one(b); }); else { Part b = a; b.mask[1] = (1 << W) - 1; one(b); one(a); } }
                else one(a);
              }
          }); });
}
VF_PART(C02, merged)
{ ForChains(vf::thorough, [&](const string & id, const Chain & c) { emit(id, [=]() { TestTransfers(c, false, true); vf::outcome(vf::hash(id)); }); }); }

// redistribution followed by a prolongation, turned into a prolongation followed by a redistribution
VF_PART(C02, pullback)
{
  for (int W = 2; W <= 3; W++) for (int bs = 1; bs <= 2; bs++)
    SortedParts(W, W == 2 ? 3 : 2, [&](const Part & a) { ForGroups(W, [&](const std::vector<VI> & g) {
          int M = 2; SubPatterns((1 << (M * a.N())) - 1, W == 2 && bs == 1, [&](int pat) {
              emit(str(a.str(), GS(g), "b", bs, "p", pat), [=]() {
                  Chain ch; StepD sc, sp; sc.kind = CTR; sc.groups = g; sp.P = ProlVals(a.N(), M, bs, bs, pat, 1);
                  ch.sp = { Of(a, bs) }; ch.sp.push_back(Contract(ch.sp[0], g, bs == 2));
                  Space y; y.N = M; y.bs = bs; y.world = ch.sp[1].world; for (auto & l : ch.sp[1].loc) y.loc.push_back(l.empty() ? VI() : VI{0, 1}); ch.sp.push_back(y); ch.st = { sc, sp };
                  bool any = false; for (auto & l : ch.sp[0].loc) any = any || !l.empty();
                  if (!any) return;
                  for (auto & opt : Modes(ch, false)) for (int multi = 0; multi < 2; multi++)
                    {
                      std::vector<std::map<int, Probe::One>> v(SLOTS);
                      vf::Explore ex; ex.opt = opt;
                      ex([&](int wr) {
                          auto B = Build(ch, wr, true, false); TStep p = B.steps.Size() > 1 ? B.steps[1] : nullptr, q;
                          OnBS(bs, bs, [&](auto HH, auto) {
                              auto cm = dynamic_pointer_cast<CtrMap<StripVec<decltype(HH)::value>>>(B.steps[0]);
                              if (multi) { Array<TStep> one; one.Append(B.steps[0]); auto mm = make_shared<MultiDofMapStep>(one); q = mm->PullBack(p); } else q = cm->PullBack(p);
                              cm->SetUpMPIStuff(); });
                          q->Finalize(); Array<TStep> two; two.Append(q); two.Append(B.steps[0]); auto x = make_shared<ConcDMS>(two); x->Finalize();
                          RunOps(ch, 0, 2, B, wr, OpsOf(*x), v, 0);
                        }, [&]() { JudgeOps(ch, 0, 2, v, 0, "PullBack"); vf::traces(1); }, [&]() { for (auto & x : v) x.clear(); });
                    }
                });
            });
        }); });
}

// larger spaces: n fine unknowns in a ring over W processes, aggregated by k, with longer rows of the prolongation, redistributed in between
static Chain Larger (int n, int W, int b0, int b1, int shape, const std::vector<VI> & g, bool rev)
{
  Chain ch; Part a, b; a.W = b.W = std::max(W, 1); if (W == 0) { a.first = b.first = 1; }
  int M = n / 3;
  auto own = [&](int i, int N) { return W ? i * W / N : 0; };
  a.mask.assign(n, 0); b.mask.assign(M, 0);
  for (int i = 0; i < n; i++) { a.mask[i] = 1 << own(i, n); if (W && own((i + 1) % n, n) != own(i, n)) a.mask[i] |= 1 << own((i + 1) % n, n); }
  for (int i = 0; i < n; i++) for (int d = -1; d <= 1; d++) { int j = (i / 3 + d + M) % M; if (i / 3 < M) b.mask[j] |= a.mask[i]; }
  if (W > 2) { a.mask[0] = (1 << W) - 1; for (int d = -1; d <= 1; d++) b.mask[(d + M) % M] = (1 << W) - 1; }
  int dense = 7;   // unknown 7 depends on everything its processes know
  Dense P = Zero(n * b0, M * b1);
  for (int i = 0; i < n; i++) for (int j = 0; j < M; j++)
    {
      bool on = std::abs(i / 3 - j) <= 1 || i == dense; if (a.mask[i] & ~b.mask[j]) on = false;
      if (on) for (int x = 0; x < b0; x++) for (int y = 0; y < b1; y++) P[i*b0+x][j*b1+y] = 0.5 + 0.25 * ((i * 5 + j * 3 + x * 2 + y * 7) % 8) * ((x + y) % 2 ? -1 : 1);
    }
  bool seq = W == 0; StepD sp, sc; sp.P = P; sc.kind = CTR; sc.groups = g;
  ch.sp = { Of(a, b0, seq, rev), Of(b, b1, seq, rev) }; ch.st = { sp };
  auto coarse = [&](const Space & x, int bs) { Space y; y.N = M; y.bs = bs; y.world = x.world; for (auto & l : x.loc) { VI all; if (!l.empty()) for (int i = 0; i < M; i++) all.push_back(i); y.loc.push_back(all); } return y; };
  if (shape >= 1) { ch.sp.push_back(Contract(ch.sp[1], g, !rev)); ch.st.push_back(sc); }
  if (shape >= 2) { Space y = coarse(ch.sp.back(), b1); StepD s2; s2.P = ProlVals(M, M, b1, b1, 0, 3); for (int i = 0; i < M; i++) for (int j = 0; j < M; j++) if ((i + j) % 3 != 1) for (int x = 0; x < b1; x++) s2.P[i*b1+x][j*b1+x] = 1 + 0.25 * ((i + 2 * j) % 5); ch.sp.push_back(y); ch.st.push_back(s2); }
  return ch;
}
template<class F> static void ForLarger (F f)
{
  for (int n : { 12, 40, 120 }) for (int W : { 0, 2, 3, 4 }) for (int bb = 0; bb < 3; bb++)
    {
      std::vector<std::vector<VI>> gs; if (W == 0) gs = { {} }; if (W == 2) gs = { { {0}, {1,2} }, { {0,1,2} } }; if (W == 3) gs = { { {0}, {1,3}, {2} }, { {0}, {1,2,3} } }; if (W == 4) gs = { { {0}, {1,4}, {2,3} }, { {0}, {1}, {2,3,4} } };
      for (size_t g = 0; g < gs.size(); g++) for (int shape = 0; shape < (W ? 3 : 1); shape++)
        { if (n > 100 && (bb == 2 || W == 2)) continue; int b0 = bb == 2 ? 2 : 1, b1 = bb == 0 ? 1 : 3; f(str("n", n, "W", W, "b", b0, b1, "g", g, "s", shape), n, W, b0, b1, shape, gs[g], bb == 1); }
    }
}
VF_PART(C02, larger)
{ ForLarger([&](const string & id, int n, int W, int b0, int b1, int shape, const std::vector<VI> & g, bool rev) { emit(id, [=]() { Chain c = Larger(n, W, b0, b1, shape, g, rev); TestTransfers(c, false, shape > 0); vf::outcome(vf::hash(id)); }); }); }
VF_PART(C03, larger)
{
  ForLarger([&](const string & id, int n, int W, int b0, int b1, int shape, const std::vector<VI> & g, bool rev) { if (n > 100 && b1 > 1) return; emit(id, [=]() {
        Chain c = Larger(n, W, b0, b1, shape, g, rev); const Space & f = c.sp[0];
        for (int sym = 0; sym < 2; sym++)
          {
            Dense A = Zero(n * b0);
            for (int i = 0; i < n; i++) for (int j = 0; j < n; j++)
              {
                int d = std::min(std::abs(i - j), n - std::abs(i - j)); bool on = d <= 2 || (i * 7 + 3) % n == j || (j * 7 + 3) % n == i, com = false;
                for (size_t m = 0; m < f.loc.size() && on && !com; m++) com = f.on(i, m) && f.on(j, m);
                if (on && com) for (int x = 0; x < b0; x++) for (int y = 0; y < b0; y++) A[i*b0+x][j*b0+y] = d == 0 ? (x == y ? 9 + i % 4 : 1) : -1 - 0.25 * ((i + j + x + y) % 4) + (sym ? 0 : (i < j ? 0.5 : 0));
              }
            TestGalerkin(c, A, sym, shape > 0);
          }
        vf::outcome(vf::hash(id)); }); });
}

VF_PART(C03, prol)
{
  ForProls(vf::thorough, [&](const Part & pf, const Part & pc, int bf, int bc, int pat, bool seq) {
      emit(str(seq ? "seq" : "", pf.str(), "-", pc.str(), "b", bf, bc, "p", pat), [=]() {
          int n = pf.N(), np = n * (n - 1) / 2, al = 0, bit = 0;
          for (int i = 0; i < n; i++) for (int j = i + 1; j < n; j++, bit++) if (pf.mask[i] & pf.mask[j]) al |= 1 << bit;
          for (int ap = 0; ap < (1 << np); ap++) { if (ap & ~al) continue; for (int sym = 0; sym < 2; sym++) TestGalerkin(Prol2(pf, pc, bf, bc, pat, seq), GlobMat(n, sym, ap, bf), sym, false); }
          vf::outcome(vf::hash(str(pf.str(), pc.str(), bf, bc, pat))); });
    });
}
VF_PART(C03, contract)
{
  for (int bs : BSS) for (int W = 1; W <= 4; W++)
    {
      int N = bs == 1 && W < 4 ? 3 : 2; if (bs > 1 && W >= 3 && !vf::thorough) continue;
      SortedParts(W, N, [&](const Part & p) { ForGroups(W, [&](const std::vector<VI> & g) {
            for (int rev = 0; rev < 2; rev++)
              emit(str(p.str(), GS(g), "b", bs, rev ? "r" : ""), [=]() {
                  Chain c; c.sp.push_back(Of(p, bs)); c.sp.push_back(Contract(c.sp[0], g, rev)); StepD s; s.kind = CTR; s.groups = g; c.st = { s };
                  int n = p.N(), np = n * (n - 1) / 2, al = 0, bit = 0; for (int i = 0; i < n; i++) for (int j = i + 1; j < n; j++, bit++) if (p.mask[i] & p.mask[j]) al |= 1 << bit;
                  for (int ap = 0; ap < (1 << np); ap++) if (!(ap & ~al)) for (int sym = 0; sym < 2; sym++) TestGalerkin(c, GlobMat(n, sym, ap, bs), sym, false);
                  vf::outcome(vf::hash(str(p.str(), GS(g), bs))); });
          }); });
    }
}
VF_PART(C03, merged)
{
  ForChains(vf::thorough, [&](const string & id, const Chain & c) { emit(id, [=]() {
        const Space & f = c.sp[0]; int al = 0, bit = 0; for (int i = 0; i < f.N; i++) for (int j = i + 1; j < f.N; j++, bit++) for (size_t m = 0; m < f.loc.size(); m++) if (f.on(i, m) && f.on(j, m)) al |= 1 << bit;
        for (int sym = 0; sym < 2; sym++) TestGalerkin(c, GlobMat(f.N, sym, al, f.bs), sym, true); vf::outcome(vf::hash(id)); }); });
}
// A04: unknowns, vectors and matrices of a redistributed level
VF_PART(A04, dofs)
{
  for (int bs : BSS) for (int W = 1; W <= 4; W++)
    {
      int N = bs == 1 && W < 4 ? 3 : 2; if (bs > 1 && W >= 3 && !vf::thorough) continue;
      SortedParts(W, N, [&](const Part & p) { ForGroups(W, [&](const std::vector<VI> & g) {
            for (int rev = 0; rev < 2; rev++)
              emit(str(p.str(), GS(g), "b", bs, rev ? "r" : ""), [=]() {
                  Chain c; c.sp.push_back(Of(p, bs)); c.sp.push_back(Contract(c.sp[0], g, rev)); StepD s; s.kind = CTR; s.groups = g; c.st = { s };
                  TestTransfers(c, false, false);
                  int n = p.N(), al = 0, bit = 0; for (int i = 0; i < n; i++) for (int j = i + 1; j < n; j++, bit++) if (p.mask[i] & p.mask[j]) al |= 1 << bit;
                  for (int ap = 0; ap < 2; ap++) for (int sym = 0; sym < 2; sym++) TestGalerkin(c, GlobMat(n, sym, ap ? al : al & 5, bs), sym, false);
                  vf::outcome(vf::hash(str(p.str(), GS(g), bs))); });
          }); });
    }
  ForLarger([&](const string & id, int n, int W, int b0, int b1, int shape, const std::vector<VI> & g, bool rev) { if (shape != 1 || n > 100) return; emit(id, [=]() { TestTransfers(Larger(n, W, b0, b1, shape, g, rev), false, true); }); });
}
