// E01 E02 C01 C03 A03: the preconditioner for elasticity (2d, 3d) and for vector valued H1 problems
#define FILE_AMGH1_CPP
#define FILE_AMGH1_CPP_DIM1
#define FILE_AMG_ELAST_CPP
#include <base.hpp>
#include <h1.hpp>
#include <elasticity.hpp>
#include "pcprob.hpp"
namespace amg
{
#define EXT(F) extern template class F; extern template class VertexAMGPC<F>;
EXT(H1AMGFactory<2>) EXT(H1AMGFactory<3>) EXT(ElasticityAMGFactory<2>) EXT(ElasticityAMGFactory<3>)
extern template class ElmatVAMG<ElasticityAMGFactory<2>, double, double>;
extern template class ElmatVAMG<ElasticityAMGFactory<3>, double, double>;
}
#include "elmodes.hpp"
using namespace vh;

template<int DIM> static shared_ptr<BaseMatrix> FineMat (const Dist & D, int r)
{ typedef Mat<DIM,DIM,double> TM; if (D.p.np() > 1) return ParMat<TM>(D, r); return SpOf<TM>(D.A); }

static void Rigid (PcTest & t, std::vector<Lev> & L)
{
  int vec = t.D.g.vec, N0 = t.D.p.N();
  if (L.size() == 2 && !L[0].P.empty() && L[0].P[0].size() == L[0].P.size() && Close(Mul(L[0].P, Trans(L[0].P)), Unity(L[0].n), 0)) return;
  for (size_t l = 0; l + 1 < L.size(); l++)
    {
      auto & P = L[l].P; auto & A = L[l].A; if (P.empty() || A.empty() || P[0].empty()) continue;
      int bs = L[l].bs, cbs = L[l+1].bs, n = L[l].n / bs, cn = P[0].size() / cbs; (void)N0;
      auto fr = [&](int i) { return l > 0 || t.IsFree(i); };
      auto posOf = [&](size_t k) { return [&, k](int i) -> P3 { if (vec > 10) return P3{ 0, 0, 0 }; if (k == 0) return t.D.g.pos[i]; auto it = L[k].pos.find(i); VFCK(it != L[k].pos.end(), "position", str(t.nm, " level ", k, ": no position of the coarse unknown ", i)); return it->second; }; };
      auto R = Modes(vec, bs, posOf(l), n), C = Modes(vec, cbs, posOf(l + 1), cn);
      for (int i = 0; i < n; i++)
        {
          if (!fr(i)) { for (int a = 0; a < bs; a++) for (double x : P[i*bs+a]) VFCK(x == 0, "constrained", str(t.nm, " level ", l, ": prolongation row of the constrained unknown ", i, " is ", S(P[i*bs+a]))); continue; }
          double sc = 0; for (int a = 0; a < bs; a++) sc = std::max(sc, MaxAbs(A[i*bs+a]));
          bool kills = true; for (auto & m : R) for (int a = 0; a < bs; a++) { double s = 0; for (int j = 0; j < L[l].n; j++) if (fr(j / bs)) s += A[i*bs+a][j] * m[j]; kills &= std::fabs(s) < 1e-10 * sc; }
          if (!kills) continue;
          vf::note(str("rows of the rigid body modes, level ", l));
          for (size_t k = 0; k < R.size(); k++) for (int a = 0; a < bs; a++)
            { double s = 0; for (size_t j = 0; j < P[i*bs+a].size(); j++) s += P[i*bs+a][j] * C[k][j]; VFCK(std::fabs(s - R[k][i*bs+a]) < 1e-9, "kernel", str(t.nm, " level ", l, ": the prolongation maps mode ", k, " to ", s, " in component ", a, " of unknown ", i, ", should be ", R[k][i*bs+a], ": ", S(P[i*bs+a]))); }
        }
    }
}
static PcTest Test (const string & nm, const Dist & D, int fm, const std::vector<Opt> & os, int what, std::vector<sim::Options> opts)
{
  PcTest t; t.nm = nm; for (auto & o : os) t.nm += " " + o.id; t.D = D; t.fm = fm; t.os = os; t.what = what; t.opts = opts; int vec = D.g.vec;
  t.mat = vec % 10 == 2 ? FineMat<2> : FineMat<3>;
  auto rank = [D]() { return D.p.np() > 1 ? World().Rank() : 0; };
  auto elast = [rank, D](auto pc) { pc->InitializeOptions(); auto l = D.p.locals(rank()); int d = D.bs; Array<double> c(l.size() * d); for (size_t i = 0; i < l.size(); i++) for (int k = 0; k < d; k++) c[i*d+k] = D.g.pos[l[i]][k]; pc->SetVertexCoordinates(c); };
  t.make = [vec, elast](shared_ptr<BaseMatrix> A, const Flags & f) -> shared_ptr<BaseAMGPC> {
    if (vec == 2) { auto pc = make_shared<EPC<2>>(A, f, "pc"); elast(pc); return pc; }
    if (vec == 3) { auto pc = make_shared<EPC<3>>(A, f, "pc"); elast(pc); return pc; }
    if (vec == 12) return make_shared<HPC<2>>(A, f, "pc");
    return make_shared<HPC<3>>(A, f, "pc");
  };
  t.kern = Rigid; t.reg = vec < 10; for (auto & o : os) for (auto & x : o.b) if (x.first == "regularize_cmats") t.reg = x.second && vec < 10;
  if (vec == 2) t.getpos = GetPos<2>; if (vec == 3) t.getpos = GetPos<3>;
  for (auto & o : os) { if (o.id == "smooth_after_emb=1") { t.getpos = nullptr; t.kern = nullptr; } if (o.id == "sp_improve_its=1") t.kern = nullptr; }   // an additional level before the mesh; changes the prolongation away from the kernel
  return t;
}
static Sets Without (Sets v, const string & k) { Sets o; for (auto & x : v) { bool has = false; for (auto & y : x) has |= y.id.rfind(k, 0) == 0; if (!has) o.push_back(x); } return o; }
static Sets EFew = { {}, { T("crs_alg", "mis"), T("sm_type", "bgs"), N("max_coarse_size", 1) }, { T("prol_type", "aux_smoothed"), T("mg_cycle", "W"), N("max_coarse_size", 1), B("enable_redist", false) }, { T("prol_type", "piecewise"), N("max_coarse_size", 1), B("enable_multistep", true), B("crs_robust", true) } };
static const VI kinds = { 2, 3, 12, 13 };

#define SEQ(PROP) VF_PART(PROP, elseq) { for (int k : kinds) { EmitSmallSeq(emit, Test, P_##PROP, 1, 3, EFew, { 1 }, { 0, 1 }, k); EmitSmallSeq(emit, Test, P_##PROP, 3, 3, More, { 1 }, { 1 }, k); EmitSmallSeq(emit, Test, P_##PROP, 4, 4, EFew, { 1 }, { 1 }, k); if (vf::thorough) { EmitSmallSeq(emit, Test, P_##PROP, 4, 4, More, { 2 }, { 0, 1 }, k); EmitSmallSeq(emit, Test, P_##PROP, 1, 3, Without(Singles(), k == 3 ? "sm_type=jacobi" : "-"), { 1 }, { 1 }, k); } } }
#define PAR(PROP) VF_PART(PROP, elpar) { for (int k : kinds) { EmitSmallPar(emit, Test, P_##PROP, 2, 3, EFew, { 1 }, { 1 }, true, true, One, k); EmitSmallPar(emit, Test, P_##PROP, 2, 3, More, { 2 }, { 0 }, false, true, One, k); EmitSmallPar(emit, Test, P_##PROP, 3, 3, EFew, { 1 }, { 0 }, false, false, One, k); if (vf::thorough) { EmitSmallPar(emit, Test, P_##PROP, 2, 4, EFew, { 1 }, { 1 }, false, true, One, k); EmitSmallPar(emit, Test, P_##PROP, 2, 3, More, { 2 }, { 0, 1 }, true, true, One, k); } } }
#define BIG(PROP) VF_PART(PROP, elbig) { for (int k : kinds) { EmitBig(emit, Test, P_##PROP, 0, EFew, One, k); EmitBig(emit, Test, P_##PROP, 0, More, One, k); EmitBig(emit, Test, P_##PROP, 0, Without(Singles(), k == 3 ? "sm_type=jacobi" : "-"), One, k, !vf::thorough); if (vf::thorough) { EmitBig(emit, Test, P_##PROP, 1, EFew, One, k); EmitBig(emit, Test, P_##PROP, 1, Without(Singles(), k == 3 ? "sm_type=jacobi" : "-"), One, k); } } }
SEQ(C01) PAR(C01) BIG(C01)
SEQ(C03) PAR(C03) BIG(C03)
SEQ(A03) PAR(A03) BIG(A03)
SEQ(E01) PAR(E01) BIG(E01)
SEQ(E02) PAR(E02) BIG(E02)

#define REGROUP(PROP) VF_PART(PROP, elregroup) { for (int k : kinds) { EmitRegroup(emit, Test, P_##PROP, 0, One, k); if (vf::thorough) EmitRegroup(emit, Test, P_##PROP, 1, One, k); } }
REGROUP(C01) REGROUP(C03) REGROUP(A03) REGROUP(E01) REGROUP(E02)
