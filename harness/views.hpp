#pragma once
// C04: a finished hierarchy seen from outside: numbers of levels and unknowns, basis functions of the levels, the coarse correction
// alone, the hierarchy as a smoother from any level on and as an iterative solver
namespace vh
{
// sub-hierarchy as a smoother: operator columns and one step from a non-zero guess
struct Step { Out M; VD x, res; std::vector<char> sx, sr; };
// output of the library, swallowed while anybody wants it swallowed (only one process prints)
struct Muted
{
  static std::ostringstream & Text () { static std::ostringstream o; return o; }
  static int & Count () { static int n = 0; return n; }
  static std::streambuf *& Old () { static std::streambuf * b = nullptr; return b; }
  bool on;
  Muted (bool _on) : on(_on) { if (on && Count()++ == 0) { Text().str(""); Old() = std::cout.rdbuf(Text().rdbuf()); } }
  ~Muted () { if (on && --Count() == 0) std::cout.rdbuf(Old()); }
};
inline void CheckPrinted (const string & nm, const string & prefix, FlatArray<double> errs, int steps)
{
  std::istringstream in(Muted::Text().str()); Muted::Text().str(""); string l; int n = 0;
  while (std::getline(in, l))
    {
      int it; double e, r; if (l.rfind(prefix + "iter = ", 0) || sscanf(l.c_str() + prefix.size(), "iter = %d, err = %lf, rel err = %lf", &it, &e, &r) < 2) continue;
      VFCK(it == n && n <= steps, "told", str(nm, ": line ", n, " of ", steps + 1, " printed is ", l, " after ", errs)); auto off = [](double a, double b) { return std::fabs(a - b) > 1e-4 * std::fabs(b) + 1e-300; };
      VFCK(!off(e, errs[n]) && (errs[0] == 0 || !off(r, errs[n] / errs[0])), "told", str(nm, ": printed is ", l, ", the error is ", errs[n], " after ", errs[0])); n++;
    }
  VFCK(n == steps + 1, "told", str(nm, ": ", n, " lines printed, ", steps, " iterations done")); vf::note("printed histories");
}
struct Views
{
  typedef std::tuple<size_t, int> NB;
  std::map<string, std::vector<std::pair<int, VD>>> said;              // what the processes were told
  std::map<string, Out> ops; std::map<string, std::pair<VD, VD>> steps;   // operators and affine results by name, in the order of the level
  std::map<std::pair<int,int>, Num> nums;                              // (level, process) -> global numbers held
  std::map<int, int> nlev;                                             // process -> number of smoothers + 1
};
inline VD Ramp (int n, int a) { VD v(n); for (int i = 0; i < n; i++) v[i] = ((i + a) * (3 + a) % 7) - 2.25; return v; }
inline void Fill (BaseVector & v, const Num & m, const UniversalDofs & ud, const VD & g, bool cum)
{
  auto f = v.FVDouble(); f = 0.0; auto pd = ud.GetParallelDofs();
  for (size_t i = 0; i < m.g.size(); i++) if (cum || !pd || pd->IsMasterDof(i)) for (int k = 0; k < m.bs; k++) f(i * m.bs + k) = g[m.g[i] * m.bs + k];
  v.SetParallelStatus(cum ? CUMULATED : DISTRIBUTED);
}
inline void Read (VD & out, BaseVector & v, const Num & m)
{
  v.Cumulate(); if (out.empty()) out.assign(m.n * m.bs, 1e77); auto f = v.FVDouble();
  for (size_t i = 0; i < m.g.size(); i++) for (int k = 0; k < m.bs; k++) { double & o = out[m.g[i] * m.bs + k]; if (o != 1e77) VFCK(std::fabs(o - f(i*m.bs+k)) <= 1e-9 * std::max(1.0, std::fabs(o)), "inconsistent", str("values of one unknown differ between the processes: ", o, " and ", f(i*m.bs+k))); o = f(i*m.bs+k); }
}
inline void RunViews (Views & V, PcTest & t, int r, BaseAMGPC & pc)
{
  auto amg = pc.GetAMGMatrix(); auto map = amg->GetMap(); int np = t.D.p.np();
  auto say = [&](const string & k, const VD & v) { V.said[k].push_back({ r, v }); };
  V.nlev[r] = 1 + amg->GetSmoothers().Size();
  int nl = amg->GetNLevels(0); say("levels", { (double)nl });
  for (int q = 1; q < np; q++) say(str("levels of ", q), { (double)amg->GetNLevels(q) });
  auto Holds = [&](int l) { return l < (int)map->GetNLevels() && map->CreateVector(l) != nullptr; };
  std::vector<Num> nm(nl); for (int l = 0; l < nl; l++) if (Holds(l)) { nm[l] = Enumerate(map->GetUDofs(l)); V.nums[{ l, r }] = nm[l]; }
  auto comm = map->GetUDofs().GetCommunicator(); auto all = [&](int x) { return comm.Size() > 1 ? comm.AllReduce(x, NG_MPI_MAX) : x; };
  for (int l = 0; l < nl; l++)
    {
      for (int q = 0; q < np; q++) { auto [nd, bs] = amg->GetNDof(l, q); say(str("ndof ", l, " ", q), { (double)nd, (double)bs }); vf::transitions(); }
      // basis functions by global number and by process
      int n = all(nm[l].n), bs = all(nm[l].n ? nm[l].bs : 1); AutoVector v = pc.CreateColVector(); Num & fn = nm[0];
      for (int j = 0; j < n; j++) for (int k = 0; k < bs; k++) { auto & o = V.ops[str("bf ", l)]; o.Size(str(t.nm, " basis functions of level ", l), fn.n * fn.bs, n * bs); v.FVDouble() = 55; amg->GetBF(v, l, j, k, 0); o.Column(j * bs + k, v, fn); vf::transitions(); }
      if (np > 1) for (int q = 1; q < np; q++)
        {
          int ln = all(r == q ? (int)nm[l].g.size() : 0);
          for (int i = 0; i < ln; i++) { int k = i % bs; int g = all(r == q ? nm[l].g[i] : 0); v.FVDouble() = 55; amg->GetBF(v, l, i, k, q); auto & o = V.ops[str("bfp ", l, " ", q, " ", g, " ", k)]; o.Size(str(t.nm, " basis function ", i, " of process ", q, " on level ", l), fn.n * fn.bs, 1); o.Column(0, v, fn); vf::transitions(); }
        }
    }
  // requests for what does not exist are refused everywhere
  {
    AutoVector v = pc.CreateColVector();
    auto bad = [&](int l, size_t d, int c, int q) { v.FVDouble() = 33; amg->GetBF(v, l, d, c, q); VD x; for (size_t i = 0; i < v.FVDouble().Size(); i++) x.push_back(std::fabs(v.FVDouble()(i))); VFCK(x.empty() || MaxAbs(x) == 0, "refused", str(t.nm, ": basis function ", d, ".", c, " of process ", q, " on level ", l, " does not exist, on process ", r, ": ", S(x))); };
    for (int l = 0; l < nl; l++)
      {
        int n = all(nm[l].n), bs = all(nm[l].n ? nm[l].bs : 1); bad(l, n, 0, 0); bad(l, n + 3, bs - 1, 0); bad(l, 0, bs, 0); bad(l, 0, -1, 0); bad(l, 0, 0, np); bad(l, 0, 0, -1);
        for (int q = 1; q < np; q++) { int ln = all(r == q ? (int)nm[l].g.size() : 0); bad(l, ln, 0, q); }
      }
    bad(nl, 0, 0, 0);
    auto [nd, bs] = amg->GetNDof(0, np); say("ndof of nobody", { (double)nd }); }
  bool inv = !Has(t.os, "clev", "none");
  if (inv)
    {
      auto x = map->CreateVector(0), b = map->CreateVector(0); shared_ptr<BaseVector> sx(std::move(x)), sb(std::move(b)); Num & fn = nm[0]; auto & o = V.ops["cinv"]; o.Size(t.nm + " coarse correction", fn.n * fn.bs, fn.n * fn.bs);
      for (int j = 0; j < fn.n * fn.bs; j++) { Unit(*sb, fn, map->GetUDofs(0), j, j & 1); sx->FVDouble() = 66; amg->CINV(sx, sb); o.Column(j, *sx, fn); vf::transitions(); }
    }
  // smoothers from a level on
  for (int l = 0; l + 1 < nl; l++) if (Holds(l)) for (int single = 0; single < 2; single++) for (int back = 0; back < 2; back++)
    {
      auto sm = make_shared<AMGSmoother>(amg, l, single); auto & ud = map->GetUDofs(l); Num & m = nm[l]; int n = m.n * m.bs; string id = str(single ? "single " : "full ", back ? "back " : "fwd ", l);
      auto x = map->CreateVector(l), b = map->CreateVector(l), res = map->CreateVector(l); auto & o = V.ops[id]; o.Size(str(t.nm, " AMG smoother ", id), n, n);
      auto go = [&](bool ru, bool ur, bool xz) { if (back) sm->SmoothBack(*x, *b, *res, ru, ur, xz); else sm->Smooth(*x, *b, *res, ru, ur, xz); };
      for (int j = 0; j < n; j++)
        {
          Unit(*b, m, ud, j, false); x->FVDouble() = 0; x->SetParallelStatus(CUMULATED); bool ru = j & 1;
          if (ru) { *res = *b; res->SetParallelStatus(DISTRIBUTED); } else { res->FVDouble() = 88; res->SetParallelStatus(DISTRIBUTED); }
          go(ru, j & 2, j & 4); o.Column(j, *x, m); vf::transitions();
        }
      VD xg = Ramp(n, 1), bg = Ramp(n, 2);
      for (int v = 0; v < 2; v++)
        {
          Fill(*x, m, ud, xg, true); Fill(*b, m, ud, bg, v); b->Distribute(); res->FVDouble() = 99; res->SetParallelStatus(DISTRIBUTED);
          if (v) { amg->GetMatrix(l)->Mult(*x, *res); res->Distribute(); res->FVDouble() *= -1; res->FVDouble() += b->FVDouble(); res->SetParallelStatus(DISTRIBUTED); }
          go(v, true, false); auto & s = V.steps[str(id, " v", v)]; Read(s.first, *x, m); Read(s.second, *res, m);
        }
    }
  // iterative solver
  if (nl > 1) for (int steps = 1; steps <= 3; steps++) for (double rtol : { 0.0, 1e-14, 0.3, 10.0 })
    {
      bool print = steps == 2; Muted mute(print); if (print && map->GetUDofs(0).GetCommunicator().Rank() == 0) Muted::Text().str(""); AMGAsLinearSolver ls(amg, steps, rtol, print, rtol > 0.1 ? "pre" : ""); ls.SetSaveErrors(true); Num & m = nm[0]; int n = m.n * m.bs; auto & ud = map->GetUDofs(0);
      auto x = map->CreateVector(0), b = map->CreateVector(0), res = map->CreateVector(0); VD bg = Ramp(n, 3), xg = Ramp(n, 1); string id = str("solver ", steps, " ", rtol);
      Fill(*b, m, ud, bg, false); x->FVDouble() = 44; x->SetParallelStatus(CUMULATED);
      auto rep = [&](const string & k) { if (print && ud.GetCommunicator().Rank() == 0) CheckPrinted(t.nm + " " + k, rtol > 0.1 ? "pre, " : "", ls.GetErrors(), ls.GetConverged() ? ls.GetNeededSteps() : steps); VD e; for (double y : ls.GetErrors()) e.push_back(y); e.push_back(ls.GetConverged()); e.push_back(ls.GetNeededSteps()); say(k, e); };
      ls.Mult(*b, *x); rep(id + " mult"); auto & s = V.steps[id + " mult"]; Read(s.first, *x, m);
      Fill(*x, m, ud, xg, true); Fill(*b, m, ud, bg, false); ls.Solve(*x, *b, *res, false, false, false); rep(id + " solve"); auto & q = V.steps[id + " solve"]; Read(q.first, *x, m); Read(q.second, *res, m);
      Fill(*x, m, ud, xg, true); Fill(*b, m, ud, bg, true); ls.MultAdd(-0.5, *b, *x); auto & a = V.steps[id + " add"]; Read(a.first, *x, m); vf::transitions(3);
    }
}
inline Dense Cycle0 (const std::vector<Lev> & L, const Dense & Ci, size_t l)
{
  int n = L[l].n; if (l + 1 == L.size()) return Ci.empty() ? Zero(n) : Ci;
  Dense X = Zero(n), Cc = Cycle0(L, Ci, l + 1), K = Mul(L[l].P, Mul(Cc, Trans(L[l].P)));
  for (const Dense * S : { &L[l].F, (const Dense *)&K, &L[l].B }) { Dense R = Mul(L[l].A, X); for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) R[i][j] = (i == j) - R[i][j]; Dense U = Mul(*S, R); for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) X[i][j] += U[i][j]; }
  return X;
}
inline Dense Then (const Dense & A, const Dense & S, const Dense & T)   // first S, then T
{ int n = A.size(); Dense X = S, R = Mul(A, X); for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) R[i][j] = (i == j) - R[i][j]; Dense U = Mul(T, R); for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) X[i][j] += U[i][j]; return X; }
inline void CheckViews (Views & V, PcTest & t, const std::vector<Lev> & L, const Dense & Ci, const std::vector<Num> &)
{
  int nl = L.size(), np = t.D.p.np(); const string & nm = t.nm;
  auto same = [&](const string & k, const VD & want) { auto it = V.said.find(k); VFCK(it != V.said.end() && (int)it->second.size() == np, "harness", nm + ": " + k); for (auto & x : it->second) VFCK(x.second == want, "told", str(nm, ": process ", x.first, " is told ", S(x.second), " for ", k, ", should be ", S(want))); };
  same("levels", { (double)nl }); for (int q = 1; q < np; q++) same(str("levels of ", q), { (double)V.nlev[q] });
  same("ndof of nobody", { 0 });
  auto close = [&](const Dense & a, const Dense & b, const string & what) { VFCK(Close(a, b, 1e-8), "view", str(nm, ": ", what, " is ", S(a), ", should be ", S(b))); };
  Dense Q = Unity(L[0].n);
  for (int l = 0; l < nl; l++)
    {
      if (l) Q = L[l-1].P.empty() || L[l-1].P[0].empty() ? Dense() : Mul(Q, L[l-1].P);
      int gn = 0, bs = 1; for (int q = 0; q < np; q++) { auto it = V.nums.find({ l, q }); if (it != V.nums.end()) { gn = it->second.n; bs = it->second.bs; } }
      { int holders = 0, last = 0; for (int q = 0; q < np; q++) if (V.nums.count({ l, q })) { holders++; last = q; } if (last >= holders) vf::note("level on processes with gaps in between"); }
      same(str("ndof ", l, " 0"), { (double)gn, (double)bs });
      for (int q = 1; q < np; q++) { auto it = V.nums.find({ l, q }); string k = str("ndof ", l, " ", q); if (it == V.nums.end()) for (auto & x : V.said[k]) x.second[1] = 0; /* no unknowns, no block size */ same(k, it == V.nums.end() ? VD{ 0, 0 } : VD{ (double)it->second.g.size(), (double)bs }); }
      auto it = V.ops.find(str("bf ", l)); if (it == V.ops.end() || Q.empty()) continue;
      it->second.Full(); close(it->second.D, Q, str("the basis of level ", l)); vf::note("bases of levels");
      for (auto & o : V.ops) if (o.first.rfind(str("bfp ", l, " "), 0) == 0)
        { int ll, q, g, k; sscanf(o.first.c_str(), "bfp %d %d %d %d", &ll, &q, &g, &k); for (int i = 0; i < L[0].n; i++) VFCK(std::fabs(o.second.D[i][0] - Q[i][g*bs+k]) < 1e-10, "view", str(o.second.nm, " component ", k, " is ", S(o.second.D), ", should be column ", g * bs + k, " of ", S(Q))); }
    }
  if (V.ops.count("cinv") && !Q.empty()) { V.ops["cinv"].Full(); close(V.ops["cinv"].D, Mul(Q, Mul(Ci, Trans(Q))), "the coarse correction"); }
  bool none = Has(t.os, "clev", "none"); Dense C = none ? Dense() : Ci;
  for (int l = 0; l + 1 < nl; l++) for (int single = 0; single < 2; single++) for (int back = 0; back < 2; back++)
    {
      string id = str(single ? "single " : "full ", back ? "back " : "fwd ", l); auto it = V.ops.find(id); if (it == V.ops.end()) continue; it->second.Full();
      Dense M = Cycle0(L, C, l); if (single) { Dense K = Mul(L[l].P, Mul(Cycle0(L, C, l + 1), Trans(L[l].P))); M = back ? Then(L[l].A, L[l].B, K) : Then(L[l].A, K, L[l].F); }
      close(it->second.D, M, "AMG smoother " + id); vf::note("smoothers from a level on");
      int n = L[l].n; VD x = Ramp(n, 1), b = Ramp(n, 2), rr = MulV(L[l].A, x); for (int i = 0; i < n; i++) rr[i] = b[i] - rr[i]; VD u = MulV(M, rr); for (int i = 0; i < n; i++) u[i] += x[i]; VD re = MulV(L[l].A, u); for (int i = 0; i < n; i++) re[i] = b[i] - re[i];
      for (int v = 0; v < 2; v++) { auto & s = V.steps[str(id, " v", v)]; VFCK(Close(s.first, u, 1e-8), "step", str(nm, ": one step of AMG smoother ", id, " leads to ", S(s.first), ", should be ", S(u))); VFCK(Close(s.second, re, 1e-7), "residual", str(nm, ": AMG smoother ", id, " leaves residual ", S(s.second), ", should be ", S(re))); }
    }
  if (nl < 2) return;
  Dense M = Cycle0(L, C, 0); int n = L[0].n;
  for (int steps = 1; steps <= 3; steps++) for (double rtol : { 0.0, 1e-14, 0.3, 10.0 }) for (const char * way : { "mult", "solve" })
    {
      string id = str("solver ", steps, " ", rtol, " ", way); VD b = Ramp(n, 3), x = way[0] == 'm' ? VD(n, 0.0) : Ramp(n, 1); auto & got = V.said[id]; VFCK((int)got.size() == np, "harness", nm + id);
      VD err; auto res = [&]() { VD r = MulV(L[0].A, x); for (int i = 0; i < n; i++) r[i] = b[i] - r[i]; return r; }; auto nrm = [](const VD & v) { double s = 0; for (double y : v) s += y * y; return std::sqrt(s); };
      VD r = res(); err.push_back(nrm(r)); int need = -1; bool close2 = false;
      for (int k = 0; k < steps && need < 0; k++) { VD u = MulV(M, r); for (int i = 0; i < n; i++) x[i] += u[i]; r = res(); err.push_back(nrm(r)); if (std::fabs(err.back() - rtol * err[0]) < 1e-8 * err[0]) close2 = true; if (rtol > 0 && err.back() < rtol * err[0]) need = k + 1; }
      if (close2) { vf::note("tolerance met within rounding"); continue; }
      auto & s = V.steps[id]; VFCK(Close(s.first, x, 1e-8), "solution", str(nm, ": ", id, " leads to ", S(s.first), ", should be ", S(x))); if (way[0] == 's') VFCK(Close(s.second, r, 1e-7), "residual", str(nm, ": ", id, " leaves residual ", S(s.second), ", should be ", S(r)));
      if (way[0] == 'm') { VD y = Ramp(n, 1); for (int i = 0; i < n; i++) y[i] -= 0.5 * x[i]; auto & a = V.steps[str("solver ", steps, " ", rtol, " add")]; VFCK(Close(a.first, y, 1e-8), "solution", str(nm, ": ", id, " MultAdd leads to ", S(a.first), ", should be ", S(y))); }
      for (auto & g : got)
        {
          VD e = g.second; int ns = e.back(); e.pop_back(); bool conv = e.back(); e.pop_back();
          VFCK(conv == (need > 0) && ns == need, "report", str(nm, ": ", id, " on process ", g.first, " reports converged ", conv, " after ", ns, " steps, should be ", need, ", errors ", S(err)));
          VFCK(e.size() >= err.size(), "report", nm + ": " + id + ": number of errors"); for (size_t k = 0; k < err.size(); k++) VFCK(std::fabs(e[k] - err[k]) < 1e-8 * std::max(1.0, err[0]), "report", str(nm, ": ", id, " on process ", g.first, " reports errors ", S(e), ", should be ", S(err)));
        }
      vf::note("iterative solves");
    }
}
inline void AddViews (PcTest & t)
{
  auto V = make_shared<Views>(); t.view = [V](PcTest & t, int r, BaseAMGPC & pc) { RunViews(*V, t, r, pc); };
  t.viewCheck = [V](PcTest & t, const std::vector<Lev> & L, const Dense & Ci, const std::vector<Num> & n) { CheckViews(*V, t, L, Ci, n); };
  t.viewReset = [V]() { *V = Views(); };
}
} // namespace vh
