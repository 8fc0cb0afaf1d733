#pragma once
// oracle for a complete preconditioner: dense level operators are extracted from the objects the set-up produced and the
// cycle, the Galerkin products, the kernels and the spectrum are checked against them
namespace vh
{
enum { P_C01 = 1, P_C03 = 2, P_A03 = 4, P_E01 = 8, P_E02 = 16, P_C04 = 32 };
struct Lev { int n = 0, bs = 1; Dense A, P, R, F, B; int holders = 0; std::map<int, std::array<double,3>> pos; };
struct Opt { string id; std::vector<std::pair<string,string>> s; std::vector<std::pair<string,double>> n; std::vector<std::pair<string,bool>> b; std::vector<std::pair<string,VD>> l; };
inline Flags MakeFlags (const std::vector<Opt> & os)
{
  Flags f; f.SetFlag("ngs_amg_log_level", "none");
  for (auto & o : os)
    {
      for (auto & x : o.s) f.SetFlag("ngs_amg_" + x.first, x.second); for (auto & x : o.n) f.SetFlag("ngs_amg_" + x.first, x.second); for (auto & x : o.b) f.SetFlag("ngs_amg_" + x.first, x.second);
      for (auto & x : o.l) { Array<double> a(x.second.size()); for (size_t i = 0; i < x.second.size(); i++) a[i] = x.second[i]; f.SetFlag(("ngs_amg_" + x.first).c_str(), a); }
    }
  return f;
}
inline bool Has (const std::vector<Opt> & os, const string & k, const string & v) { bool r = false; for (auto & o : os) for (auto & x : o.s) if (x.first == k) r = x.second == v; return r; }
inline bool HasB (const std::vector<Opt> & os, const string & k) { bool r = false; for (auto & o : os) for (auto & x : o.b) if (x.first == k) r = x.second; return r; }

// global numbers of the unknowns of one level as seen by this process
struct Num { std::vector<int> g; int n = 0; int bs = 1; };
inline Num Enumerate (const UniversalDofs & ud)
{
  Num m; m.bs = ud.GetBS(); int nd = ud.GetND();
  if (auto pd = ud.GetParallelDofs()) { Array<int> gn; int ng = 0; pd->EnumerateGlobally(nullptr, gn, ng); m.n = ng; for (int i = 0; i < nd; i++) m.g.push_back(gn[i]); }
  else { m.n = nd; for (int i = 0; i < nd; i++) m.g.push_back(i); }
  return m;
}
inline void Unit (BaseVector & v, const Num & m, const UniversalDofs & ud, int col, bool cum)
{
  auto f = v.FVDouble(); f = 0.0; auto pd = ud.GetParallelDofs();
  for (size_t i = 0; i < m.g.size(); i++) if (m.g[i] == col / m.bs && (cum || !pd || pd->IsMasterDof(i))) f(i * m.bs + col % m.bs) = 1;
  v.SetParallelStatus(cum ? CUMULATED : DISTRIBUTED);
}
struct Out   // one dense operator, filled column by column by all processes
{
  string nm; Dense D; std::vector<std::vector<char>> set;
  void Size (const string & name, int h, int w) { if (D.empty() && set.empty()) { nm = name; D = Zero(h, w); set.assign(h, std::vector<char>(w, 0)); } VFCK((int)set.size() == h && (h == 0 || (int)set[0].size() == w), "sizes", name + ": processes disagree about the sizes"); }
  void Column (int j, BaseVector & v, const Num & m)
  {
    v.Cumulate(); auto f = v.FVDouble();
    for (size_t i = 0; i < m.g.size(); i++) for (int k = 0; k < m.bs; k++)
      { int r = m.g[i] * m.bs + k; double x = f(i * m.bs + k); if (set[r][j]) VFCK(std::fabs(D[r][j] - x) <= 1e-12 * std::max(1.0, std::fabs(x)), "inconsistent", str(nm, ": entry ", r, ",", j, " differs between processes: ", D[r][j], " and ", x)); VFCK(std::isfinite(x), "nan", str(nm, ": entry ", r, ",", j, " is ", x)); D[r][j] = x; set[r][j] = 1; }
  }
  void Full () const { for (auto & r : set) for (char c : r) VFCK(c, "missing", nm + ": an unknown is held by no process"); }
};
struct LevOut { Out A, P, R, F, B; int bs = 1; std::map<int, std::array<double,3>> pos; };

struct PcTest
{
  string nm; Dist D; int fm; std::vector<Opt> os; int what;
  std::function<shared_ptr<BaseAMGPC>(shared_ptr<BaseMatrix>, const Flags &)> make;
  std::function<shared_ptr<BaseMatrix>(const Dist &, int)> mat;
  std::function<shared_ptr<BaseAMGPC>(int, const Flags &)> build;   // instead of mat and make: everything up to the finished preconditioner
  VD kernel;   // columns are given per unknown by kern(level) -- H1: ones
  std::vector<char> fr;   // which unknowns are free, instead of fm, for larger problems
  bool spd = true;
  std::vector<sim::Options> opts;
  std::function<void(BaseAMGPC &, int, const Num &, std::map<int, std::array<double,3>> &)> getpos;   // positions of the unknowns of a level by global number
  bool reg = false;       // coarse matrices are made regular
  // inspection and reuse of the finished hierarchy: run on every process, then compare with the dense operators of the levels (in the order of the levels)
  std::function<void(PcTest &, int, BaseAMGPC &)> view;
  std::function<void(PcTest &, const std::vector<Lev> &, const Dense &, const std::vector<Num> &)> viewCheck; std::function<void()> viewReset;
  bool haveC = false; Dense C0; long maxRuns = 20000;

  shared_ptr<BitArray> Free (int r) const { if (fm < 0 && fr.empty()) return nullptr; auto l = D.p.locals(r); auto b = make_shared<BitArray>(l.size()); b->Clear(); for (size_t i = 0; i < l.size(); i++) if (IsFree(l[i])) b->SetBit(i); return b; }
  bool NoFree () const { for (int i = 0; i < D.p.N(); i++) if (IsFree(i)) return false; return true; }
  bool IsFree (int g) const { return !fr.empty() ? fr[g] : fm < 0 || (fm >> g & 1); }

  void Run ()
  {
    vf::progress(nm); const Part & p = D.p; int np = p.np(), bs = D.bs, N = D.A.size(), n = p.N();
    VD b0(N), y0(N), z(N, 0.0); for (int i = 0; i < N; i++) { b0[i] = (i * 5 % 7) - 2.5; y0[i] = (i * 3 % 5) - 1.25; }
    std::vector<Gather> col; Gather gb(p, bs), r1(p, bs), r2(p, bs), r3(p, bs), r4(p, bs), r5(p, bs), r6(p, bs);
    for (int j = 0; j < N; j++) col.emplace_back(p, bs);
    std::vector<LevOut> lo; Out cinv; int nlev = 0; std::vector<int> holders; std::vector<Num> num0(np);
    bool extract = what & (P_C01 | P_C03 | P_A03 | P_C04);
    auto reset = [&]() { lo.clear(); lo.resize(20); cinv = Out(); nlev = 0; holders.assign(20, 0); if (viewReset) viewReset(); };
    auto body = [&](int r) {
      Flags fl = MakeFlags(os); shared_ptr<BaseAMGPC> pc;
      if (build) { pc = build(r, fl); sim::window(true); }
      else { auto A = mat(D, r); fl.SetFlag("not_register_for_auto_update", true); sim::window(true); pc = make(A, fl); auto fd = Free(r); pc->InitLevel(fd); pc->FinalizeLevel(A); }
      auto amg = pc->GetAMGMatrix(); auto map = amg->GetMap();
      AutoVector x = pc->CreateColVector(), b = pc->CreateRowVector();
      VFCK((int)x.FVDouble().Size() == (int)p.locals(r).size() * bs, "size", nm + ": vector size");
      auto garbage = [&](BaseVector & v) { auto f = v.FVDouble(); for (size_t i = 0; i < f.Size(); i++) f(i) = 1000 + 10 * r + i; v.SetParallelStatus(CUMULATED); };
      SetGlobal(b, p, r, b0, DISTRIBUTED, bs, 3); garbage(x); pc->Mult(b, x); r1.Put(r, x); gb.Put(r, b);
      sim::window(false);
      // additive and transposed variants, repeated
      SetGlobal(x, p, r, y0, CUMULATED, bs); SetGlobal(b, p, r, b0, CUMULATED, bs); pc->MultAdd(-0.5, b, x); r2.Put(r, x);
      garbage(x); pc->MultTrans(b, x); r3.Put(r, x);
      SetGlobal(x, p, r, y0, DISTRIBUTED, bs, 2); SetGlobal(b, p, r, b0, DISTRIBUTED, bs, 1); pc->MultTransAdd(2, b, x); r4.Put(r, x);
      if (what & (P_C01 | P_E01)) for (int j = 0; j < N; j++)
        { VD e(N, 0.0); e[j] = 1; SetGlobal(b, p, r, e, j & 1 ? CUMULATED : DISTRIBUTED, bs, j); garbage(x); if (j & 2) x.SetParallelStatus(DISTRIBUTED); pc->Mult(b, x); col[j].Put(r, x); vf::transitions(); }
      SetGlobal(b, p, r, b0, DISTRIBUTED, bs, 3); garbage(x); pc->Mult(b, x); r5.Put(r, x);
      if (!extract) return;
      int nl = map->GetNLevels(); nlev = std::max(nlev, nl);
      Num fn, cn;
      for (int l = 0; l < nl; l++)
        {
          auto ud = map->GetUDofs(l); bool drop = map->CreateVector(l) == nullptr; if (drop) break;
          holders[l]++;
          fn = Enumerate(ud); if (l == 0) num0[r] = fn; lo[l].bs = fn.bs; if (getpos && l > 0) getpos(*pc, l, fn, lo[l].pos);
          auto v = map->CreateVector(l), w = map->CreateVector(l), q = map->CreateVector(l); auto & L = lo[l]; int fN = fn.n * fn.bs;
          string at = str(nm, " level ", l);
          auto Am = l + 1 < nl ? shared_ptr<BaseMatrix>(amg->GetSmoother(l)->GetAMatrix()) : amg->GetCMat();
          if (Am) { L.A.Size(at + " matrix", fN, fN); for (int j = 0; j < fN; j++) { Unit(*v, fn, ud, j, j & 1); Am->Mult(*v, *w); L.A.Column(j, *w, fn); vf::transitions(); } }
          if (l + 1 == nl) { if (auto ci = amg->GetCINV()) { cinv.Size(at + " inverse", fN, fN); for (int j = 0; j < fN; j++) { Unit(*v, fn, ud, j, j & 1); w->FVDouble() = 77; ci->Mult(*v, *w); cinv.Column(j, *w, fn); } } break; }
          auto sm = amg->GetSmoother(l);
          L.F.Size(at + " forward smoother", fN, fN); L.B.Size(at + " backward smoother", fN, fN);
          for (int d = 0; d < 2; d++) for (int j = 0; j < fN; j++)
            {
              v->FVDouble() = 0; v->SetParallelStatus(CUMULATED); Unit(*w, fn, ud, j, j & 1); q->FVDouble() = 7.5; q->SetParallelStatus(DISTRIBUTED);
              if (d) sm->SmoothBack(*v, *w, *q, false, false, false); else sm->Smooth(*v, *w, *q, false, false, false);
              (d ? L.B : L.F).Column(j, *v, fn); vf::transitions();
            }
          auto cv = map->CreateVector(l + 1); UniversalDofs cud; if (cv) { cud = map->GetUDofs(l + 1); cn = Enumerate(cud); } else cn = Num();
          int cN = cn.n * cn.bs; { auto c = ud.GetCommunicator(); if (c.Size() > 1) cN = c.AllReduce(cN, NG_MPI_MAX); }
          L.P.Size(at + " prolongation", fN, cN); L.R.Size(at + " restriction", cN, fN);
          for (int j = 0; j < cN; j++) { if (cv) Unit(*cv, cn, cud, j, j & 1); v->FVDouble() = 77; v->SetParallelStatus(CUMULATED); map->TransferC2F(l, v.get(), cv.get()); L.P.Column(j, *v, fn); vf::transitions(); }
          for (int j = 0; j < fN; j++) { if (cv) { cv->FVDouble() = 77; cv->SetParallelStatus(CUMULATED); } Unit(*v, fn, ud, j, j & 1); map->TransferF2C(l, v.get(), cv.get()); if (cv) L.R.Column(j, *cv, cn); vf::transitions(); }
        }
      if (view) { view(*this, r, *pc); SetGlobal(b, p, r, b0, DISTRIBUTED, bs, 3); garbage(x); pc->Mult(b, x); r6.Put(r, x); }
    };
    auto after = [&]() {
      VD m1 = r1.Get(nm + " Mult"), m2 = r2.Get(nm + " MultAdd"), m3 = r3.Get(nm + " MultTrans"), m4 = r4.Get(nm + " MultTransAdd"), m5 = r5.Get(nm + " Mult again"), bb = gb.Get(nm + " rhs");
      for (double v : m1) VFCK(std::isfinite(v), "nan", str(nm, ": result ", S(m1)));
      Dense C = Zero(N);
      if (what & (P_C01 | P_E01)) for (int j = 0; j < N; j++) { VD c = col[j].Get(str(nm, " Mult column ", j)); for (int i = 0; i < N; i++) C[i][j] = c[i]; }
      if (what & P_E01)
        for (int i = 0; i < N; i++) if (!IsFree(i / bs)) { VFCK(m1[i] == 0 && m3[i] == 0, "constrained", str(nm, ": output at constrained unknown ", i, " is ", m1[i])); for (int j = 0; j < N; j++) { VFCK(C[i][j] == 0, "constrained", str(nm, ": input at ", j, " leads to output ", C[i][j], " at constrained unknown ", i)); VFCK(std::fabs(C[j][i]) < 1e-13, "constrained", str(nm, ": output at ", j, " depends on the input at constrained unknown ", i, ": ", C[j][i])); } }
      if (what & P_E02) { if (haveC) VFCK(Close(m1, C0[0], 1e-11), "timing", str(nm, ": result depends on the timing: ", S(m1), " and ", S(C0[0]))); else { C0 = { m1 }; haveC = true; } VFCK(MaxAbs(m1) > 0 || NoFree() || N == 0, "zero", nm + ": the preconditioner does nothing"); }
      if (what & P_C01)
        {
          VFCK(Close(bb, b0, 1e-13), "rhs changed", str(nm, ": input changed to ", S(bb)));
          VD w = MulV(C, b0), w2(N), w4(N); for (int i = 0; i < N; i++) { w2[i] = y0[i] - 0.5 * w[i]; w4[i] = y0[i] + 2 * w[i]; }
          auto eq = [&](const VD & a, const VD & b, const char * t) { VFCK(Close(a, b, 1e-10), "variant", str(nm, ": ", t, " gives ", S(a), " but the operator gives ", S(b))); };
          eq(m1, w, "Mult"); eq(m2, w2, "MultAdd"); eq(m3, w, "MultTrans"); eq(m4, w4, "MultTransAdd"); eq(m5, w, "Mult after other calls");
          VFCK(Close(Trans(C), C, 1e-9), "symmetry", str(nm, ": operator is not symmetric: ", S(C)));
        }
      if (view) { VD m6 = r6.Get(nm + " Mult after the inspection"); VFCK(Close(m6, m1, 1e-11), "disturbed", str(nm, ": inspection changed the preconditioner: ", S(m6), " before ", S(m1))); }
      if (extract) { Levels(lo, cinv, nlev, holders, num0, C); }
      (void)n;
    };
    for (auto o : opts) { vf::Explore ex; ex.opt = o; ex.maxRuns = maxRuns; ex(body, after, reset); }
    vf::traces();
  }
  Dense Cyc (const std::vector<Lev> & L, const Dense & Ci, int l, int kind) const
  {
    int n = L[l].n; if (l + 1 == (int)L.size()) return Ci;
    Dense X = Zero(n); Dense Cc = Cyc(L, Ci, l + 1, kind), K = Mul(L[l].P, Mul(Cc, Trans(L[l].P)));
    auto step = [&](const Dense & S) { Dense R = Mul(L[l].A, X); for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) R[i][j] = (i == j) - R[i][j]; Dense U = Mul(S, R); for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) X[i][j] += U[i][j]; };
    auto V = [&](const Dense & K) { step(L[l].F); step(K); step(L[l].B); };
    if (kind == 0) V(K);
    else if (kind == 1) { V(K); V(K); }
    else   // Braess-Sarazin like: every smoothing step is itself a V-cycle from this level
      { Dense Vc = Cyc(L, Ci, l, 0); step(Vc); step(K); step(Vc); }
    return X;
  }
  void Levels (std::vector<LevOut> & lo, Out & cinv, int nlev, const std::vector<int> & holders, const std::vector<Num> & num0, const Dense & C)
  {
    const Part & p = D.p; int bs = D.bs, N = D.A.size(); vf::note(str("levels ", nlev));
    std::vector<Lev> L(nlev); VI toLev(p.N(), -1);
    for (int r = 0; r < p.np(); r++) { auto l = p.locals(r); for (size_t i = 0; i < num0[r].g.size(); i++) toLev[l[i]] = num0[r].g[i]; }
    for (int l = 0; l < nlev; l++)
      {
        auto & o = lo[l]; Lev & v = L[l]; for (Out * q : { &o.A, &o.P, &o.R, &o.F, &o.B }) q->Full();
        v.bs = o.bs; v.pos = o.pos; v.A = o.A.D; v.P = o.P.D; v.R = o.R.D; v.F = o.F.D; v.B = o.B.D; v.n = std::max(v.A.size(), l ? (L[l-1].P.empty() ? 0 : L[l-1].P[0].size()) : 0); if (l && holders[l] != holders[l-1]) vf::note("redistributed levels");
      }
    if (viewCheck) viewCheck(*this, L, cinv.D, num0);
    VI inv0(p.N(), -1); for (int i = 0; i < p.N(); i++) if (toLev[i] >= 0) inv0[toLev[i]] = i;
    bool triv = nlev == 2 && !L[0].P.empty() && L[0].P.size() == L[0].P[0].size(); if (triv) for (size_t i = 0; i < L[0].P.size(); i++) for (size_t j = 0; j < L[0].P.size(); j++) triv &= L[0].P[i][j] == (i == j);
    if (triv) vf::note("no proper coarse level");
    // level 0 in the order of the test matrix
    auto perm = [&](const Dense & M, bool rows, bool cols) { Dense X = M; for (int i = 0; i < N; i++) if (rows) X[i] = M[toLev[i / bs] * bs + i % bs]; Dense Y = X; if (cols) for (auto & r : Y) { VD q = r; for (int j = 0; j < N; j++) r[j] = q[toLev[j / bs] * bs + j % bs]; } return Y; };
    if (nlev > 1) { VFCK((int)L[0].A.size() == N, "size", nm + ": finest level"); L[0].A = perm(L[0].A, 1, 1); L[0].F = perm(L[0].F, 1, 1); L[0].B = perm(L[0].B, 1, 1); L[0].P = perm(L[0].P, 1, 0); L[0].R = perm(L[0].R, 0, 1);
      VFCK(Close(L[0].A, D.A, 1e-12), "matrix", str(nm, ": matrix of the finest level is not the given one: ", S(L[0].A))); }
    else L[0].A = D.A;
    if (what & P_C03)
      for (int l = 0; l + 1 < nlev; l++)
        {
          if (L[l].P.empty() || L[l].P[0].empty()) continue;
          VFCK(Close(L[l].R, Trans(L[l].P), 1e-12), "restriction", str(nm, " level ", l, ": restriction ", S(L[l].R), " is not the transpose of the prolongation ", S(L[l].P)));
          if (L[l+1].A.empty()) continue;
          Dense G = Mul(Trans(L[l].P), Mul(L[l].A, L[l].P));
          if (reg) Regularized(L[l+1].A, G, L[l+1].bs, str(nm, " level ", l + 1)); else VFCK(Close(L[l+1].A, G, 1e-10), "galerkin", str(nm, " level ", l + 1, ": coarse matrix ", S(L[l+1].A), " is not P'AP ", S(G), " P ", S(L[l].P)));
        }
    if ((what & P_A03) && kern) kern(*this, L);
    if (what & P_C01)
      {
        Dense Ci = Zero(L.back().n); bool inv = !Has(os, "clev", "none") && !Has(os, "clev", "sm");
        if (inv && nlev > 1 && L.back().n > 0)
          {
            VFCK((int)cinv.D.size() == L.back().n, "coarse solve", nm + ": no coarse level solve"); Ci = cinv.D;
            if (!L.back().A.empty())
              {
                // all unknowns are solved for exactly, constrained ones stay zero
                Dense I = Mul(cinv.D, L.back().A); for (int i = 0; i < L.back().n; i++) for (int j = 0; j < L.back().n; j++) { double e = i == j; if (triv && !(IsFree(inv0[i / bs]) && IsFree(inv0[j / bs]))) continue; VFCK(std::fabs(I[i][j] - e) < 1e-7, "coarse solve", str(nm, ": coarsest level inverse times matrix is ", S(I), " matrix ", S(L.back().A), " inverse ", S(cinv.D))); }
              }
          }
        int kind = Has(os, "mg_cycle", "W") ? 1 : Has(os, "mg_cycle", "BS") ? 2 : 0;
        if (nlev > 1) { Dense W = Cyc(L, Ci, 0, kind); if (kind == 2) W = BS(L, Ci, 0); VFCK(Close(C, W, 1e-8), "cycle", str(nm, ": operator ", S(C), " is not the cycle of its parts ", S(W))); }
        // spectrum on the free unknowns
        VI f; for (int i = 0; i < N; i++) if (IsFree(i / bs)) f.push_back(i);
        int m = f.size(); if (m == 0) return;
        Dense Af = Zero(m), Cf = Zero(m); for (int i = 0; i < m; i++) for (int j = 0; j < m; j++) { Af[i][j] = D.A[f[i]][f[j]]; Cf[i][j] = 0.5 * (C[f[i]][f[j]] + C[f[j]][f[i]]); }
        if (!spd) return;
        Dense U; VD e = SymEig(Af, &U); for (double x : e) VFCK(x > 0, "harness", nm + ": test matrix is not positive definite");
        Dense H = Zero(m); for (int k = 0; k < m; k++) for (int i = 0; i < m; i++) for (int j = 0; j < m; j++) H[i][j] += U[i][k] * U[j][k] * std::sqrt(e[k]);
        VD s = SymEig(Mul(H, Mul(Cf, H))); double lo_ = 1e300, hi = -1e300; for (double x : s) { lo_ = std::min(lo_, x); hi = std::max(hi, x); }
        VFCK(lo_ > 1e-8, "positive", str(nm, ": smallest eigenvalue of the preconditioned operator is ", lo_));
        if (kind == 0 || inv) VFCK(hi < 1 + 1e-7, "spectrum", str(nm, ": largest eigenvalue of the preconditioned operator is ", hi));
        vf::note(lo_ < 0.05 ? "lambda_min < 0.05" : lo_ < 0.3 ? "lambda_min < 0.3" : "lambda_min >= 0.3");
      }
  }
  // the coarse matrix may have its singular diagonal blocks completed, nothing else
  void Regularized (const Dense & A, const Dense & G, int bs, const string & at)
  {
    int n = G.size(); double sc = 0; for (auto & r : G) sc = std::max(sc, MaxAbs(r)); bool any = false;
    VFCK((int)A.size() == n, "galerkin", at + ": size");
    for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) if (i / bs != j / bs) VFCK(std::fabs(A[i][j] - G[i][j]) <= 1e-10 * sc, "galerkin", str(at, ": coarse matrix ", S(A), " is not P'AP ", S(G), " outside of the diagonal blocks"));
    for (int k = 0; k < n / bs; k++)
      {
        Dense Gb = Zero(bs), E = Zero(bs); for (int a = 0; a < bs; a++) for (int b = 0; b < bs; b++) { Gb[a][b] = G[k*bs+a][k*bs+b]; E[a][b] = A[k*bs+a][k*bs+b] - Gb[a][b]; }
        double e = 0; for (auto & r : E) e = std::max(e, MaxAbs(r)); if (e <= 1e-10 * sc) continue;
        any = true; Dense V; VD ev = SymEig(Gb, &V); double s = MaxAbs(ev);
        VFCK(Close(E, Trans(E), 1e-8), "regularized", str(at, ": the change of the diagonal block ", k, " by ", S(E), " is not symmetric"));
        for (double x : SymEig(E)) { VFCK(x > -1e-8 * e, "regularized", str(at, ": the change of the diagonal block ", k, " by ", S(E), " is not positive")); }
        // directions in which the block was regular are left alone
        for (int q = 0; q < bs; q++) if (ev[q] > 1e-6 * s) { double m = 0; for (int a = 0; a < bs; a++) { double y = 0; for (int b = 0; b < bs; b++) y += E[a][b] * V[b][q]; m = std::max(m, std::fabs(y)); } VFCK(m <= 1e-6 * e, "regularized", str(at, ": the diagonal block ", k, " of the coarse matrix was changed by ", S(E), " in a direction where P'AP is regular: ", S(Gb))); }
      }
    if (any) vf::note("regularized blocks");
  }
  Dense BS (const std::vector<Lev> & L, const Dense & Ci, int l) const
  {
    int n = L[l].n; if (l + 1 == (int)L.size()) return Ci;
    Dense X = Zero(n), Cc = BS(L, Ci, l + 1), K = Mul(L[l].P, Mul(Cc, Trans(L[l].P))), Vc = Cyc(L, Ci, l, 0);
    for (const Dense * S : { &Vc, &K, &Vc }) { Dense R = Mul(L[l].A, X); for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) R[i][j] = (i == j) - R[i][j]; Dense U = Mul(*S, R); for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) X[i][j] += U[i][j]; }
    return X;
  }
  std::function<void(PcTest &, std::vector<Lev> &)> kern;
};
} // namespace vh
