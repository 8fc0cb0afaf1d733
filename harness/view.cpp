// C04: what a finished preconditioner tells about its hierarchy, and the hierarchy used as smoother and as solver
#define FILE_AMGH1_CPP
#define FILE_AMGH1_CPP_DIM1
#define FILE_AMG_ELAST_CPP
#include <base.hpp>
#include <h1.hpp>
#include <elasticity.hpp>
#include <LinearSolver.hpp>
#include "pcprob.hpp"
namespace amg
{
extern template class H1AMGFactory<1>;
extern template class VertexAMGPC<H1AMGFactory<1>>;
extern template class ElmatVAMG<H1AMGFactory<1>, double, double>;
#define EXT(F) extern template class F; extern template class VertexAMGPC<F>;
EXT(H1AMGFactory<2>) EXT(H1AMGFactory<3>) EXT(ElasticityAMGFactory<2>) EXT(ElasticityAMGFactory<3>)
extern template class ElmatVAMG<ElasticityAMGFactory<2>, double, double>;
extern template class ElmatVAMG<ElasticityAMGFactory<3>, double, double>;
}
#include "elmodes.hpp"
#include "views.hpp"
using namespace vh;

template<class TM> static shared_ptr<BaseMatrix> FineMat (const Dist & D, int r)
{ if (D.p.np() > 1) return ParMat<TM>(D, r); return SpOf<TM>(D.A); }

static PcTest Test (const string & nm, const Dist & D, int fm, const std::vector<Opt> & os, int what, std::vector<sim::Options> opts)
{
  PcTest t; t.nm = nm; for (auto & o : os) t.nm += " " + o.id; t.D = D; t.fm = fm; t.os = os; t.what = what; t.opts = opts; int vec = D.g.vec;
  t.mat = !vec ? FineMat<double> : vec % 10 == 2 ? FineMat<Mat<2,2,double>> : FineMat<Mat<3,3,double>>;
  auto rank = [D]() { return D.p.np() > 1 ? World().Rank() : 0; };
  auto elast = [rank, D](auto pc) { pc->InitializeOptions(); auto l = D.p.locals(rank()); int d = D.bs; Array<double> c(l.size() * d); for (size_t i = 0; i < l.size(); i++) for (int k = 0; k < d; k++) c[i*d+k] = D.g.pos[l[i]][k]; pc->SetVertexCoordinates(c); };
  t.make = [vec, elast](shared_ptr<BaseMatrix> A, const Flags & f) -> shared_ptr<BaseAMGPC> {
    if (vec == 0) return make_shared<ElmatVAMG<H1AMGFactory<1>, double, double>>(A, f, "pc");
    if (vec == 2) { auto pc = make_shared<EPC<2>>(A, f, "pc"); elast(pc); return pc; }
    if (vec == 3) { auto pc = make_shared<EPC<3>>(A, f, "pc"); elast(pc); return pc; }
    if (vec == 12) return make_shared<HPC<2>>(A, f, "pc");
    return make_shared<HPC<3>>(A, f, "pc");
  };
  AddViews(t); return t;
}
static Sets VFew = { { N("max_coarse_size", 1) }, { T("crs_alg", "mis"), T("sm_type", "bgs"), N("max_coarse_size", 2), N("rd_seq_nv", 0), N("rd_min_nv_gl", 0) }, { T("prol_type", "aux_smoothed"), N("max_coarse_size", 1), B("enable_redist", false) }, { T("clev", "none"), N("sm_steps", 2), N("max_coarse_size", 1) }, { T("crs_alg", "plate_test"), N("max_coarse_size", 1), N("max_levels", 2) } };
static Sets VDeep = { { N("max_coarse_size", 1), N("rd_seq_nv", 0), N("rd_min_nv_gl", 0), N("rd_pfac", 0.5), N("rd_loc_thresh", 0), N("rd_min_nv_thresh", 100) }, { T("crs_alg", "mis"), T("prol_type", "piecewise"), N("max_coarse_size", 1), N("rd_seq_nv", 0), N("rd_min_nv_gl", 0), N("rd_pfac", 0.5), N("rd_loc_thresh", 0), N("first_rdaf", 0.9), N("rdaf", 0.9) }, { N("max_coarse_size", 1), N("rd_pfac", 0.9), N("rd_seq_nv", 0) }, { T("prol_type", "piecewise"), N("max_coarse_size", 1), N("rd_seq_nv", 3), N("rd_min_nv_gl", 0) }, { T("crs_alg", "mis"), B("mis_dist2", false), T("prol_type", "piecewise"), N("max_coarse_size", 1), N("rdaf", 0.9), N("first_rdaf", 0.9), N("rd_seq_nv", 0), N("rd_min_nv_gl", 0) }, { B("enable_multistep", true), N("max_coarse_size", 1), B("regularize_cmats", true) }, { B("smooth_after_emb", true), T("sm_type", "gs"), N("max_coarse_size", 1) } };
VF_PART(C04, seq) { EmitSmallSeq(emit, Test, P_C04, 1, 3, VFew, { 1 }, { 0, 1 }); EmitSmallSeq(emit, Test, P_C04, 4, 4, { VFew[0] }, { 1 }, { 0 }); if (vf::thorough) EmitSmallSeq(emit, Test, P_C04, 4, 4, VFew, { 1 }, { 0, 1 }); }
VF_PART(C04, par)
{
  for (int n = 1; n <= 3; n++) for (int W = 1; W <= 3; W++) EmitSmallPar(emit, Test, P_C04, W, n, VFew, { 1 }, { 0 }, W < 3 || n < 3, false, One);
  if (vf::thorough) { EmitSmallPar(emit, Test, P_C04, 2, 3, VFew, { 1 }, { 0, 1 }, true, true, Two); EmitSmallPar(emit, Test, P_C04, 2, 4, VFew, { 1 }, { 0 }, false, true, One); EmitSmallPar(emit, Test, P_C04, 3, 4, { VFew[0] }, { 1 }, { 0 }, false, false, One); }
}
VF_PART(C04, big) { EmitBig(emit, Test, P_C04, 0, VFew, One); EmitBig(emit, Test, P_C04, 0, VDeep, One); if (vf::thorough) { EmitBig(emit, Test, P_C04, 1, VFew, One); EmitBig(emit, Test, P_C04, 1, VDeep, Two); EmitBig(emit, Test, P_C04, 0, Singles(), One); } }
VF_PART(C04, block)
{
  for (int k : { 2, 3, 12, 13 }) { EmitSmallSeq(emit, Test, P_C04, 3, 3, VFew, { 1 }, { 1 }, k); EmitSmallPar(emit, Test, P_C04, 2, 3, VFew, { 1 }, { 0 }, false, false, One, k); EmitBig(emit, Test, P_C04, 0, VFew, One, k, !vf::thorough); EmitBig(emit, Test, P_C04, 0, VDeep, One, k, true); }
}
VF_PART(C04, regroup) { EmitRegroup(emit, Test, P_C04, 0, One); for (int k : { 2, 3, 13 }) EmitRegroup(emit, Test, P_C04, 0, One, k); if (vf::thorough) EmitRegroup(emit, Test, P_C04, 1, Two); }
