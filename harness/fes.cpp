// C01 C03 A03 E01 E02: preconditioners registered with a bilinear form on a finite element space over a (distributed) mesh
#define FILE_AMGH1_CPP
#define FILE_AMGH1_CPP_DIM1
#define FILE_AMG_ELAST_CPP
#include <base.hpp>
#include <h1.hpp>
#include <elasticity.hpp>
#include "pcprob.hpp"
#include "fesprob.hpp"
namespace amg
{
#define EXT(F) extern template class F; extern template class VertexAMGPC<F>;
EXT(H1AMGFactory<1>) EXT(H1AMGFactory<2>) EXT(H1AMGFactory<3>) EXT(ElasticityAMGFactory<2>) EXT(ElasticityAMGFactory<3>)
extern template class ElmatVAMG<H1AMGFactory<1>, double, double>;
extern template class ElmatVAMG<ElasticityAMGFactory<2>, double, double>;
extern template class ElmatVAMG<ElasticityAMGFactory<3>, double, double>;
}
#include "elmodes.hpp"
using namespace vh;

// kind of the modes: 1 scalar, 12/13 vector valued, 2/3 elasticity; the prolongations reproduce them wherever the matrix annihilates them
static void Kernel (PcTest & t, std::vector<Lev> & L, const FeData & F, int vec, int fullbs)
{
  int d = vec % 10;
  if (L.size() == 2 && !L[0].P.empty() && L[0].P[0].size() == L[0].P.size() && Close(Mul(L[0].P, Trans(L[0].P)), Unity(L[0].n), 0)) return;
  for (size_t l = 0; l + 1 < L.size(); l++)
    {
      auto & P = L[l].P; auto & A = L[l].A; if (P.empty() || A.empty() || P[0].empty()) continue;
      int bs = L[l].bs, cbs = L[l+1].bs, n = L[l].n / bs, cn = P[0].size() / cbs; VFCK(cbs == fullbs, "size", str(t.nm, " level ", l + 1, ": blocks of size ", cbs));
      auto posOf = [&](size_t k, int i) -> P3 { if (vec > 10 || vec == 1) return P3{ 0, 0, 0 }; auto it = L[k].pos.find(i); VFCK(it != L[k].pos.end(), "position", str(t.nm, " level ", k, ": no position of the coarse unknown ", i)); return it->second; };
      std::vector<VD> R;
      if (l > 0) R = Modes(vec, bs, [&](int i) { return posOf(l, i); }, n);
      else
        for (auto & m : Modes(vec, fullbs, [&](int i) { return F.pos[i]; }, n)) { VD v(n * bs, 0.0); for (int i = 0; i < n; i++) if (F.flag[i]) for (int a = 0; a < bs; a++) v[i*bs+a] = m[i*fullbs + (F.comp[i] >= 0 ? F.comp[i] : a)]; R.push_back(v); }
      auto C = Modes(vec, cbs, [&](int i) { return posOf(l + 1, i); }, cn); (void)d;
      auto fr = [&](int i) { return l > 0 || t.IsFree(i); };
      for (int i = 0; i < n; i++)
        {
          if (!fr(i)) { for (int a = 0; a < bs; a++) for (double x : P[i*bs+a]) VFCK(x == 0, "constrained", str(t.nm, " level ", l, ": prolongation row of the constrained unknown ", i, " is ", S(P[i*bs+a]))); continue; }
          double sc = 0; for (int a = 0; a < bs; a++) sc = std::max(sc, MaxAbs(A[i*bs+a])); if (sc == 0) continue;
          bool kills = true; for (auto & m : R) for (int a = 0; a < bs; a++) { double s = 0; for (int j = 0; j < L[l].n; j++) if (fr(j / bs)) s += A[i*bs+a][j] * m[j]; kills &= std::fabs(s) < 1e-10 * sc; }
          if (!kills) continue;
          vf::note(str("rows of the kernel, level ", l));
          for (size_t k = 0; k < R.size(); k++) for (int a = 0; a < bs; a++)
            { double s = 0; for (size_t j = 0; j < P[i*bs+a].size(); j++) s += P[i*bs+a][j] * C[k][j]; VFCK(std::fabs(s - R[k][i*bs+a]) < 1e-9, "kernel", str(t.nm, " level ", l, ": the prolongation maps mode ", k, " to ", s, " in component ", a, " of unknown ", i, ", should be ", R[k][i*bs+a], ": ", S(P[i*bs+a]))); }
        }
    }
}
// families of spaces and preconditioners: dimension of the mesh, kind of the modes, space
struct Fam { string id; int D, vec, dim; string space = "h1ho"; int comps = 0; };   // comps: of compound spaces
static const std::vector<Fam> fams = { { "h1", 2, 1, 1 }, { "h1", 3, 1, 1 }, { "h1v2", 2, 12, 2 }, { "h1v3", 3, 13, 3 }, { "vech1", 2, 12, 1, "VectorH1" }, { "vech1", 3, 13, 1, "VectorH1" }, { "comp2", 2, 12, 1, "compsc", 2 }, { "comp3", 2, 13, 1, "compsc", 3 },
  { "el", 2, 2, 2 }, { "el", 3, 3, 3 }, { "elv", 2, 2, 1, "VectorH1" }, { "elv", 3, 3, 1, "VectorH1" }, { "elrot", 2, 2, 3 }, { "elrotc", 2, 2, 1, "comp", 3 }, { "elrotc", 3, 3, 1, "comp", 6 }, { "elrots", 3, 3, 1, "compsc", 6 } };
template<class PC> static PcTest Mk (const Fam & f, const string & nm, const FePb & P, const FeData & F, const std::vector<Opt> & os, int what, std::vector<sim::Options> opts)
{ return FeTest<PC>(nm, P, F, os, what, opts); }
static PcTest Test (const Fam & f, const string & nm, const FePb & P, const FeData & F, const std::vector<Opt> & os, int what, std::vector<sim::Options> opts)
{
  PcTest t = f.vec == 1 ? Mk<ElmatVAMG<H1AMGFactory<1>, double, double>>(f, nm, P, F, os, what, opts) : f.vec == 12 ? Mk<HPC<2>>(f, nm, P, F, os, what, opts) : f.vec == 13 ? Mk<HPC<3>>(f, nm, P, F, os, what, opts)
    : f.vec == 2 ? Mk<EPC<2>>(f, nm, P, F, os, what, opts) : Mk<EPC<3>>(f, nm, P, F, os, what, opts);
  int full = f.vec == 2 ? 3 : f.vec == 3 ? 6 : f.vec % 10;
  if (what & P_A03) t.kern = [F, f, full](PcTest & t, std::vector<Lev> & L) { Kernel(t, L, F, f.vec, full); };
  if (f.vec == 2) t.getpos = GetPos<2>; if (f.vec == 3) t.getpos = GetPos<3>;
  for (auto & o : os) if (o.id == "smooth_after_emb=1") { t.getpos = nullptr; t.kern = nullptr; }   // an additional level before the mesh
  for (auto & o : os) { if (o.id == "subset=free" && P.order > 1) t.kern = nullptr; if (o.id == "smooth_lo_only=1" && P.order > 1) t.spd = false; }   // all unknowns are vertices; the high order part is left to the user
  t.reg = f.vec < 10 && f.vec > 1 && P.comps() == f.D;
  return t;
}
static void Emit (vf::Emit & emit, int what, const Fam & f, FMesh m, int order, const VI & diri, double mass, bool nodal, bool elim, const std::vector<Opt> & os, const std::function<std::vector<sim::Options>(int)> & opts)
{
  FePb P; P.m = m; P.order = order; P.dim = f.dim; P.space = f.space; P.ncomp = f.comps; P.diri = diri; P.mass = mass; P.nodalp2 = nodal; P.elim = elim; if (f.vec == 2 || f.vec == 3) P.op = "elast";
  string own; if (m.W() > 1) { own = "/own"; for (int o : m.own) own += char('0' + o); }
  string id = str("fes/", f.id, "/", m.id, own, "/o", order, nodal ? "n" : "", elim ? "e" : "", "/d", S(diri), mass ? "m" : "", "/", OptId(os));
  emit(id, [=] { auto F = Pilot(P); Test(f, id, P, F, os, what, opts(P.m.np())).Run(); });
}

static std::function<std::vector<sim::Options>(int)> Sched (int what) { return what & P_E02 ? (vf::thorough ? Four : Two) : One; }
static void Own (FMesh & m, int W) { size_t n = m.el.size(); for (size_t e = 0; e < n; e++) { if (W == 2) m.own[e] = m.dim == 2 ? e % 6 > 2 : e >= n / 2; else m.own[e] = e * W / n; } }
static FMesh Cut (FMesh m, int W) { if (W > 1) Own(m, W); return m; }
// all families, orders, one mesh on one, two and three processes
static void Families (vf::Emit & emit, int what, bool deep)
{
  Sets ss = { { N("max_coarse_size", 1) }, { N("max_coarse_size", 1), T("crs_alg", "mis"), T("sm_type", "bgs"), T("mg_cycle", "W") } }; if (deep) for (auto & x : Few) ss.push_back(x);
  for (auto & f : fams) for (int o = 1; o <= (deep ? 3 : 2); o++) for (auto & os : ss) for (int W = 1; W <= 3; W++) { if (f.D == 3 && W == 3 && !deep) continue; Emit(emit, what, f, Cut(f.D == 2 ? TrigMesh(3, 2) : TetMesh(2, 1, 1), W), o, { 4 }, 0, false, false, os, Sched(what)); }
}
// all distributions of the elements of small meshes (up to renaming the processes)
static void Ownership (vf::Emit & emit, int what, bool deep)
{
  auto all = [&](const FMesh & m0, int W, const std::function<void(const FMesh &)> & use) {
    int n = m0.el.size(); VI o(n, 0);
    for (;;)
      {
        int top = -1; bool can = true; for (int x : o) { if (x > top + 1) can = false; top = std::max(top, x); }   // processes appear in the order of their number: renaming
        if (can && top == W - 1) { FMesh m = m0; m.own = o; use(m); }
        int k = n - 1; while (k >= 0 && ++o[k] == W) o[k--] = 0; if (k < 0) return;
      } };
  FMesh one = TetMesh(1, 1, 1);
  for (auto & f : fams)
    {
      if (f.D == 2)
        {
          for (int W = 2; W <= 3; W++) all(TrigMesh(2, 1), W, [&](const FMesh & m) { Emit(emit, what, f, m, 1, { 4 }, 0, false, false, { N("max_coarse_size", 1) }, Sched(what)); Emit(emit, what, f, m, 2, { 4 }, 0, false, false, { N("max_coarse_size", 1), T("sm_type", "bgs") }, Sched(what)); });
          all(TrigMesh(2, 2), 2, [&](const FMesh & m) { Emit(emit, what, f, m, 1, { 1 }, 0, false, false, { N("max_coarse_size", 1) }, Sched(what)); if (deep) for (auto & o : Few) Emit(emit, what, f, m, 2, { 1 }, 0, false, false, o, Sched(what)); });
          if (deep) all(TrigMesh(2, 2), 3, [&](const FMesh & m) { Emit(emit, what, f, m, 1, { 1 }, 0, false, false, { N("max_coarse_size", 1) }, Sched(what)); });
        }
      else for (int W = 2; W <= (f.vec == 3 && !deep ? 2 : 3); W++) all(one, W, [&](const FMesh & m) { Emit(emit, what, f, m, 1, { 4 }, 0, false, false, { N("max_coarse_size", 1) }, Sched(what)); if (deep) Emit(emit, what, f, m, 2, { 4 }, 0, false, false, { N("max_coarse_size", 1), T("crs_alg", "mis"), T("sm_type", "bgs") }, Sched(what)); });
    }
}
// all sets of boundaries with essential conditions
static void Dirichlet (vf::Emit & emit, int what, bool deep)
{
  for (auto & f : fams) for (int W = 1; W <= 2; W++)
    {
      int nb = f.D == 2 ? 4 : 6; FMesh m = Cut(f.D == 2 ? TrigMesh(2, 2) : TetMesh(2, 1, 1), W);
      for (int s = 0; s < 1 << nb; s++) { if (f.D == 3 && !deep && s != 0 && s != 63 && s != 1 && s != 34 && s != 31) continue; VI d; for (int b = 0; b < nb; b++) if (s >> b & 1) d.push_back(b + 1); Emit(emit, what, f, m, 1 + (f.D == 2 && s % 3 == 1), d, d.empty() ? 0.5 : 0, false, false, { N("max_coarse_size", 1) }, Sched(what)); }
    }
}
// options that only mean something with a finite element space
static void Options (vf::Emit & emit, int what, bool deep)
{
  std::vector<Opt> c1 = { N("max_coarse_size", 1) }; auto with = [&](std::vector<Opt> o) { o.insert(o.begin(), c1[0]); return o; };
  for (auto & f : fams) for (int W = 1; W <= (deep ? 3 : 2); W++)
    {
      FMesh m = Cut(f.D == 2 ? TrigMesh(3, 2) : TetMesh(2, 1, 1), W); int bs = f.vec == 2 ? 3 : f.vec == 3 ? 6 : f.vec % 10; (void)bs;
      auto e = [&](int o, bool nodal, bool elim, const std::vector<Opt> & os, const VI & di = { 4 }) { Emit(emit, what, f, m, o, di, 0, nodal, elim, with(os), Sched(what)); };
      for (int o = 1; o <= 2; o++)
        {
          if (f.id == "h1") e(o, false, false, { T("energy", "elmat") });
          if (f.id == "h1" && o == 2) { e(3, false, true, { T("energy", "elmat") }); e(2, false, false, { T("energy", "elmat"), N("aux_elmat_version", 1), T("crs_alg", "mis") }); }
          e(o, false, false, { T("energy", "triv") }); e(o, false, false, { T("sm_type", "bgs"), B("sm_use_fes_blocks", true) });
          e(o, false, false, { B("smooth_after_emb", true) }); e(o, false, false, { B("smooth_after_emb", true), T("sm_type", "bgs") });
          e(o, false, false, { B("smooth_lo_only", true) });
          e(o, false, false, { T("on_dofs", "select"), T("subset", "free") });
        }
      e(2, false, false, { T("sm_type", "bgs") }); e(2, false, false, { T("mg_cycle", "BS") }); e(2, false, false, { T("clev", "none") }); if (f.D == 2 || deep || !(what & P_C01)) { e(3, false, true, {}); e(3, false, true, { T("sm_type", "bgs") }); e(3, false, false, {}); }
      if (f.D == 3) { e(2, true, false, { T("on_dofs", "select"), T("subset", "nodalp2") }); e(2, true, false, { B("lo", false) }); e(2, true, false, { T("on_dofs", "select"), T("subset", "nodalp2"), T("sm_type", "bgs") }); }
      if (f.id == "el") { e(2, true, false, { T("dof_ordering", "p2Emb"), B("lo", false), B("force_nolo", true) }); if (W == 1) e(2, true, false, { T("dof_ordering", "p2Emb"), B("lo", false), B("force_nolo", true), T("sm_type", "bgs") }); }
    }
}
#define PART(PROP) VF_PART(PROP, fesfam) { Families(emit, P_##PROP, vf::thorough); } VF_PART(PROP, fesown) { Ownership(emit, P_##PROP, vf::thorough); } VF_PART(PROP, fesdiri) { Dirichlet(emit, P_##PROP, vf::thorough); } VF_PART(PROP, fesopts) { Options(emit, P_##PROP, vf::thorough); }
PART(C01) PART(C03) PART(A03) PART(E01) PART(E02)
