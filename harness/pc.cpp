// E01 E02 C01 C03 A03: the preconditioner for scalar H1-type problems, set up from an assembled matrix and applied
#define FILE_AMGH1_CPP
#define FILE_AMGH1_CPP_DIM1
#include <base.hpp>
#include <h1.hpp>
#include "pcprob.hpp"
namespace amg
{
extern template class H1AMGFactory<1>;
extern template class VertexAMGPC<H1AMGFactory<1>>;
extern template class ElmatVAMG<H1AMGFactory<1>, double, double>;
}
using namespace vh;
typedef ElmatVAMG<H1AMGFactory<1>, double, double> PC;

static shared_ptr<BaseMatrix> FineMat (const Dist & D, int r)
{ if (D.p.np() > 1) return ParMat<double>(D, r); return SpOf<double>(D.A); }

static PcTest Test (const string & nm, const Dist & D, int fm, const std::vector<Opt> & os, int what, std::vector<sim::Options> opts)
{
  PcTest t; t.nm = nm; for (auto & o : os) t.nm += " " + o.id; t.D = D; t.fm = fm; t.os = os; t.what = what; t.opts = opts; t.mat = FineMat;
  t.make = [](shared_ptr<BaseMatrix> A, const Flags & f) -> shared_ptr<BaseAMGPC> { return make_shared<PC>(A, f, "pc"); };
  return t;
}
VF_PART(E01, seq) { EmitSmallSeq(emit, Test, P_E01, 1, 3, Few, { 1, 2 }, { 0, 1, 2 }); EmitSmallSeq(emit, Test, P_E01, 4, 4, Few, { 1 }, { 0, 1 }); EmitSmallSeq(emit, Test, P_E01, 3, 3, More, { 1 }, { 0, 1 }); if (vf::thorough) { EmitSmallSeq(emit, Test, P_E01, 4, 4, More, { 1, 2 }, { 0, 1 }); EmitSmallSeq(emit, Test, P_E01, 5, 5, Few, { 1 }, { 1 }); } }
VF_PART(E01, par)
{
  for (int n = 1; n <= 3; n++) for (int W = 1; W <= 3; W++) EmitSmallPar(emit, Test, P_E01, W, n, Few, { 1 }, { 0, 1 }, true, true, One);
  EmitSmallPar(emit, Test, P_E01, 2, 3, More, { 1 }, { 1 }, true, true, One); EmitSmallPar(emit, Test, P_E01, 2, 4, Few, { 1 }, { 0 }, false, true, One);
  if (vf::thorough) { EmitSmallPar(emit, Test, P_E01, 3, 4, Few, { 1 }, { 1 }, false, true, One); EmitSmallPar(emit, Test, P_E01, 3, 3, More, { 1 }, { 1 }, true, true, One); EmitSmallPar(emit, Test, P_E01, 4, 3, Few, { 1 }, { 0 }, false, true, One); }
}
VF_PART(E01, big) { EmitBig(emit, Test, P_E01, 0, Few, One); EmitBig(emit, Test, P_E01, 0, More, One); EmitBig(emit, Test, P_E01, 1, Few, One); if (vf::thorough) { EmitBig(emit, Test, P_E01, 0, Singles(), One); EmitBig(emit, Test, P_E01, 2, More, Two); } }

// rows of the prolongation: constrained rows are zero; where the matrix annihilates the constants, the constants are reproduced
static void Ones (PcTest & t, std::vector<Lev> & L)
{
  if (L.size() == 2 && !L[0].P.empty() && L[0].P[0].size() == L[0].P.size() && Close(Mul(L[0].P, Trans(L[0].P)), Unity(L[0].n), 0)) return;   // nothing to coarsen: the finest level is its own coarse level
  bool improve = false; for (auto & o : t.os) for (auto & x : o.n) improve |= x.first == "sp_improve_its";   // updates rows from rows that need not reproduce the constants
  for (size_t l = 0; l + 1 < L.size(); l++)
    {
      auto & P = L[l].P; auto & A = L[l].A; if (P.empty() || A.empty() || P[0].empty()) continue;
      auto fr = [&](int i) { return l > 0 || t.IsFree(i); };
      for (int i = 0; i < L[l].n; i++)
        {
          double rs = 0, ps = 0; for (int j = 0; j < L[l].n; j++) if (fr(j)) rs += A[i][j];
          bool zero = true; for (double x : P[i]) { ps += x; zero &= x == 0; }
          if (!fr(i)) { VFCK(zero, "constrained", str(t.nm, " level ", l, ": prolongation row of the constrained unknown ", i, " is ", S(P[i]))); continue; }
          if (!improve && std::fabs(rs) < 1e-11 * A[i][i]) { VFCK(std::fabs(ps - 1) < 1e-10, "kernel", str(t.nm, " level ", l, ": prolongation row ", i, " of the constants is ", ps, ": ", S(P[i]), " matrix row ", S(A[i]))); vf::note("row of the constants"); }
        }
    }
}
static Sets Without (Sets v, const string & k) { Sets o; for (auto & x : v) { bool has = false; for (auto & y : x) has |= y.id.rfind(k, 0) == 0; if (!has) o.push_back(x); } return o; }
static PcTest KTest (const string & nm, const Dist & D, int fm, const std::vector<Opt> & os, int what, std::vector<sim::Options> opts) { auto t = Test(nm, D, fm, os, what, opts); t.kern = Ones; return t; }
VF_PART(A03, seq) { EmitSmallSeq(emit, KTest, P_A03, 1, 4, Few, { 1 }, { 1 }); EmitSmallSeq(emit, KTest, P_A03, 3, 4, More, { 2 }, { 1 }); }
VF_PART(A03, par) { EmitSmallPar(emit, KTest, P_A03, 2, 3, Few, { 1, 2 }, { 1 }, true, true, One); EmitSmallPar(emit, KTest, P_A03, 2, 3, More, { 1 }, { 1 }, true, true, One); EmitSmallPar(emit, KTest, P_A03, 3, 3, Few, { 1 }, { 1 }, true, true, One); }
VF_PART(A03, big) { for (int s = 0; s < 2; s++) { EmitBig(emit, KTest, P_A03, s, Few, One); EmitBig(emit, KTest, P_A03, s, More, One); } EmitBig(emit, KTest, P_A03, 0, Without(Singles(), "smooth_after_emb"), One); if (vf::thorough) { EmitBig(emit, KTest, P_A03, 1, Without(Singles(), "smooth_after_emb"), One); EmitBig(emit, KTest, P_A03, 2, More, One); EmitBig(emit, KTest, P_A03, 3, Few, One); } }
VF_PART(A03, product) { EmitProduct(emit, KTest, P_A03, Problems(0), Product({ algs, prols, sizes, rds }), One); EmitProduct(emit, KTest, P_A03, Problems(1), Product({ algs, prols, sizes, rds }), One); }

VF_PART(C03, seq) { EmitSmallSeq(emit, Test, P_C03, 2, 4, Few, { 1 }, { 0 }); EmitSmallSeq(emit, Test, P_C03, 3, 3, More, { 1 }, { 0 }); }
VF_PART(C03, par) { EmitSmallPar(emit, Test, P_C03, 2, 3, Few, { 1 }, { 0 }, true, true, One); EmitSmallPar(emit, Test, P_C03, 2, 3, More, { 1 }, { 0 }, true, true, One); EmitSmallPar(emit, Test, P_C03, 3, 3, Few, { 1 }, { 0 }, true, false, One); }
VF_PART(C03, pcbig) { for (int s = 0; s < 2; s++) { EmitBig(emit, Test, P_C03, s, Few, One); EmitBig(emit, Test, P_C03, s, More, One); } EmitBig(emit, Test, P_C03, 0, Singles(), One); if (vf::thorough) { EmitBig(emit, Test, P_C03, 1, Singles(), One); EmitBig(emit, Test, P_C03, 2, More, One); } }
VF_PART(C03, product) { EmitProduct(emit, Test, P_C03, Problems(0), Product({ algs, prols, sizes, rds }), One); EmitProduct(emit, Test, P_C03, Problems(1), Product({ algs, prols, sizes, rds }), One); }

VF_PART(C01, seq) { EmitSmallSeq(emit, Test, P_C01, 1, 3, Few, { 1, 2 }, { 0, 1, 2 }); EmitSmallSeq(emit, Test, P_C01, 4, 4, Few, { 1 }, { 0, 1 }); EmitSmallSeq(emit, Test, P_C01, 3, 3, More, { 1, 3 }, { 0, 1 }); if (vf::thorough) { EmitSmallSeq(emit, Test, P_C01, 4, 4, More, { 1, 2 }, { 0, 1 }); EmitSmallSeq(emit, Test, P_C01, 5, 5, Few, { 1 }, { 1 }); } }
VF_PART(C01, par)
{
  for (int n = 1; n <= 3; n++) for (int W = 1; W <= 3; W++) EmitSmallPar(emit, Test, P_C01, W, n, Few, { 1 }, { 0, 1 }, true, true, One);
  EmitSmallPar(emit, Test, P_C01, 2, 3, More, { 1 }, { 1 }, true, true, One);
  if (vf::thorough) { EmitSmallPar(emit, Test, P_C01, 2, 4, Few, { 1 }, { 0 }, false, true, One); EmitSmallPar(emit, Test, P_C01, 3, 3, More, { 1 }, { 1 }, true, true, One); EmitSmallPar(emit, Test, P_C01, 3, 4, Few, { 1 }, { 1 }, false, false, One); }
}
VF_PART(C01, big) { EmitBig(emit, Test, P_C01, 0, Few, One); EmitBig(emit, Test, P_C01, 0, More, One); EmitBig(emit, Test, P_C01, 1, Few, One); if (vf::thorough) { EmitBig(emit, Test, P_C01, 1, More, One); EmitBig(emit, Test, P_C01, 2, Few, One); } }
VF_PART(C01, singles) { EmitBig(emit, Test, P_C01, 0, Singles(), One); }
VF_PART(C01, product) { for (int k = 0; k < 2; k++) EmitProduct(emit, Test, P_C01, Problems(k), vf::thorough ? Product({ cycles, algs, prols, sms, steps, clevs, sizes, rds }) : Product({ cycles, algs, prols, sms, steps, clevs }), One); }

// options that only report
static Sets Reports ()
{
  Sets v;
  for (auto & c : Sets { { T("log_level", "debug") }, { T("log_level_pc", "debug") }, { T("log_level_pc", "extra") }, { B("do_test", true) }, { B("test_levels", true) }, { B("test_smoothers", true) } })
    { auto o = c; o.insert(o.begin(), N("max_coarse_size", 1)); v.push_back(o); }
  return v;
}
static std::vector<sim::Options> All (int np) { auto v = vf::modes(np, true); for (auto & o : v) o.waitany = true; return v; }
VF_PART(E02, seq) { EmitSmallSeq(emit, Test, P_E02, 1, 3, Few, { 0, 1, 2 }, { 0, 1, 2 }); EmitSmallSeq(emit, Test, P_E02, 4, 4, Few, { 1 }, { 0, 1 }); EmitSmallSeq(emit, Test, P_E02, 1, 4, More, { 1 }, { 1 }); if (vf::thorough) { EmitSmallSeq(emit, Test, P_E02, 4, 4, More, { 0, 1, 2, 3 }, { 0, 1, 2 }); EmitSmallSeq(emit, Test, P_E02, 5, 5, Few, { 1 }, { 0, 1 }); } }
VF_PART(E02, par)
{
  for (int n = 1; n <= 3; n++) for (int W = 1; W <= 3; W++) EmitSmallPar(emit, Test, P_E02, W, n, Few, { 1 }, { 0 }, true, true, Two);
  EmitSmallPar(emit, Test, P_E02, 2, 3, More, { 1 }, { 1 }, true, false, Two); EmitSmallPar(emit, Test, P_E02, 3, 2, More, { 1 }, { 0 }, true, true, Two); EmitSmallPar(emit, Test, P_E02, 3, 4, Few, { 1 }, { 0 }, false, false, Two);
  if (vf::thorough) { EmitSmallPar(emit, Test, P_E02, 2, 4, More, { 1 }, { 0 }, false, true, Four); EmitSmallPar(emit, Test, P_E02, 3, 3, More, { 1 }, { 1 }, true, true, Two); EmitSmallPar(emit, Test, P_E02, 4, 3, Few, { 1 }, { 0 }, false, true, Four); }
}
VF_PART(E02, timing)
{
  for (int n = 1; n <= 3; n++) EmitSmallPar(emit, Test, P_E02, 2, n, Few, { 1 }, { 0 }, true, n < 3, All);
  EmitSmallPar(emit, Test, P_E02, 3, 1, Few, { 1 }, { 0 }, true, true, All);
  if (vf::thorough) { for (int n = 1; n <= 2; n++) EmitSmallPar(emit, Test, P_E02, 3, n, Few, { 1 }, { 0 }, true, false, All); EmitSmallPar(emit, Test, P_E02, 2, 3, Few, { 1 }, { 0 }, false, false, All); EmitSmallPar(emit, Test, P_E02, 2, 2, More, { 1 }, { 0 }, true, false, All); }
}
VF_PART(E02, big) { EmitBig(emit, Test, P_E02, 0, More, Two); EmitBig(emit, Test, P_E02, 1, Few, Two); EmitBig(emit, Test, P_E02, 2, Few, One); if (vf::thorough) { EmitBig(emit, Test, P_E02, 1, More, Four); EmitBig(emit, Test, P_E02, 3, More, Two); EmitBig(emit, Test, P_E02, 5, Few, One); } }
VF_PART(E02, singles) { EmitBig(emit, Test, P_E02, 0, Singles(), vf::thorough ? Four : One); EmitBig(emit, Test, P_E02, 0, Reports(), One); }
VF_PART(E02, product) { for (int k = 0; k < 2; k++) EmitProduct(emit, Test, P_E02, Problems(k), vf::thorough ? Product({ cycles, algs, prols, sms, steps, clevs, sizes, rds }) : Product({ cycles, algs, prols, sms, clevs, sizes, rds }), Two); }

#define REGROUP(PROP, MK) VF_PART(PROP, regroup) { EmitRegroup(emit, MK, P_##PROP, 0, One); if (vf::thorough) { EmitRegroup(emit, MK, P_##PROP, 1, Two); EmitRegroup(emit, MK, P_##PROP, 3, One); } }
REGROUP(C01, Test) REGROUP(C03, Test) REGROUP(A03, KTest) REGROUP(E01, Test) REGROUP(E02, Test)
