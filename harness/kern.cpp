// U02: sparse and dense kernels against their dense definitions (sequential)
#include "linalg.hpp"
#include <utils_arrays_tables.hpp>
#include <utils_denseLA.hpp>
#include <special_matrix.hpp>
#include <dyn_block.hpp>
using namespace vh;

namespace amg
{
extern shared_ptr<BaseMatrix> restrictMatrixToBlocks (shared_ptr<BaseMatrix> A, FlatTable<int> rowBlocks, FlatTable<int> colBlocks, double const & compressTol);
extern std::tuple<shared_ptr<BaseMatrix>, shared_ptr<BaseMatrix>> RestrictMatrixKeepFactor (BaseMatrix const & A, BaseMatrix const & P, BaseMatrix const & PT);
}

namespace
{
template<class TM> void Fill (TM & m, int seed, int sign) // exactly representable values without zeros; sign 0: mixed, 1: positive, -1: negative
{
  for (int a = 0; a < ngbla::Height<TM>(); a++) for (int b = 0; b < ngbla::Width<TM>(); b++)
    { int k = (seed * 7 + a * 3 + b * 5) % 11 + 1; double s = sign ? sign : ((seed + a + 2 * b) % 3 == 1 ? -1 : 1); Ent(m, a, b) = s * k; }
}
// matrix with the given pattern (bit i*w+j)
template<int H, int W> shared_ptr<SparseMat<H, W>> Pat (int h, int w, uint64_t bits, int seed = 0, int sign = 0)
{
  typedef StripTM<H, W> TM; Entries<TM> e;
  for (int i = 0; i < h; i++) for (int j = 0; j < w; j++) if (bits >> (i * w + j) & 1) { TM m; Fill(m, seed + i * 5 + j * 3, sign); e[{i, j}] = m; }
  return MakeSp<TM>(h, w, e);
}
// the contract of every returned sparse matrix: sizes, sorted duplicate free rows, indices in range; returns its dense value
Dense Look (const shared_ptr<BaseMatrix> & m, int h, int w, int bh, int bw, const char * what)
{
  vf::check(m != nullptr, "result", str(what, ": no matrix returned"));
  Dense D; bool found = false;
  Iterate<6>([&](auto HM) { Iterate<6>([&](auto WM) {
    constexpr int H = HM.value + 1, W = WM.value + 1;
    if constexpr (isSparseMatrixCompiled<H, W>())
      if (auto p = dynamic_cast<SparseMat<H, W> const *>(m.get()))
        {
          found = true;
          vf::check(H == bh && W == bw, "block", str(what, ": block size ", H, "x", W, " instead of ", bh, "x", bw));
          vf::check((int)p->Height() == h && (int)p->Width() == w, "size", str(what, ": size ", p->Height(), "x", p->Width(), " instead of ", h, "x", w));
          for (int i = 0; i < h; i++) { auto ri = p->GetRowIndices(i); for (size_t k = 0; k < ri.Size(); k++) {
            vf::check(ri[k] >= 0 && ri[k] < w, "index", str(what, ": row ", i, " has column ", ri[k], " of ", w));
            vf::check(k == 0 || ri[k-1] < ri[k], "sorted", str(what, ": row ", i, " is not sorted or has duplicates")); } }
          D = ToDense(*p);
        } }); });
  vf::check(found, "type", str(what, ": not a (compiled) sparse matrix: ", typeid(*m).name()));
  return D;
}
void Same (const Dense & a, const Dense & b, const char * what, double tol = 1e-12)
{
  vf::traces(1);
  vf::check(a.size() == b.size(), "size", str(what, ": heights ", a.size(), " ", b.size()));
  double sc = 1; for (auto & r : b) sc = std::max(sc, MaxAbs(r));
  for (size_t i = 0; i < a.size(); i++) for (size_t j = 0; j < b[i].size(); j++) vf::check(a[i].size() == b[i].size() && Close(a[i][j], b[i][j], tol, sc), "value", str(what, ": entry (", i, ",", j, ") is ", a[i][j], " instead of ", b[i][j]));
}
Dense Comb (double a, const Dense & A, double b, const Dense & B) { Dense C = A; for (size_t i = 0; i < C.size(); i++) for (size_t j = 0; j < C[i].size(); j++) C[i][j] = a * A[i][j] + b * B[i][j]; return C; }
typedef shared_ptr<BaseMatrix> BM;

// product of two matrices: new, in place update after the values changed, restriction
template<int A, int B, int C> void Product (int h, int k, int w, uint64_t pa, uint64_t pb, int sign)
{
  auto a = Pat<A, B>(h, k, pa, 1, sign); auto b = Pat<B, C>(k, w, pb, 4, 0);
  auto c = MatMultABGeneric(BM(a), BM(b));
  Dense ref = Mul(ToDense(*a), ToDense(*b)); if (k == 0) ref = Zero(h * A, w * C);
  Same(Look(c, h, w, A, C, "product"), ref, "product"); vf::evals(1);
  auto a2 = Pat<A, B>(h, k, pa, 8, -sign), a0 = a; auto b2 = Pat<B, C>(k, w, pb, 2, 0);
  auto & cs = dynamic_cast<SparseMat<A, C> &>(*c);
  MatMultABUpdateVals(*a2, *b2, cs);
  ref = Mul(ToDense(*a2), ToDense(*b2)); if (k == 0) ref = Zero(h * A, w * C);
  Same(Look(c, h, w, A, C, "updated product"), ref, "updated product");
}
template<int A, int B> void Transposed (int h, int w, uint64_t pa)
{
  auto a = Pat<A, B>(h, w, pa, 3, 0);
  Dense ref = h ? Trans(ToDense(*a)) : Zero(w * B, 0);
  Same(Look(TransposeAGeneric(a), w, h, B, A, "transpose"), ref, "transpose"); vf::evals(1);
}
}

VF_PART(U02, products)
{
  for (int h = 0; h <= 3; h++) for (int k = 0; k <= 3; k++) for (int w = 0; w <= 3; w++)
    for (uint64_t pa = 0; pa < (1ull << (h * k)); pa++) for (int s = 0; s < 2; s++) if (!s || (pa & 7) == 7 || vf::thorough)
      emit(str("m", h, k, w, "A", pa, "s", s), [=]() { for (uint64_t pb = 0; pb < (1ull << (k * w)); pb++) { vf::progress(str("B", pb)); Product<1, 1, 1>(h, k, w, pa, pb, s); } vf::outcome(vf::hash(h * 100 + k * 10 + w, pa)); });
  for (int h = 0; h <= 4; h++) for (int w = 0; w <= 4; w++) if (h * w <= 12 || vf::thorough)
    emit(str("t", h, w), [=]() { for (uint64_t p = 0; p < (1ull << (h * w)); p++) { vf::progress(str("A", p)); Transposed<1, 1>(h, w, p); } });
  Iterate<6>([&](auto AM) { Iterate<6>([&](auto BM_) {
    constexpr int A = AM.value + 1, B = BM_.value + 1;
    if constexpr (IsTransMatCompiled<A, B>())
      emit(str("tb", A, B), [=]() { for (int h = 0; h <= 3; h++) for (int w = 0; w <= 3; w++) for (uint64_t p = 0; p < (1ull << (h * w)); p++) Transposed<A, B>(h, w, p); });
    Iterate<6>([&](auto CM) {
      constexpr int C = CM.value + 1;
      if constexpr (IsSparseMMCompiled<A, B, C>())
        emit(str("b", A, B, C), [=]() { for (int h = 1; h <= 2; h++) for (int k = 1; k <= 2; k++) for (int w = 1; w <= 2; w++) for (uint64_t pa = 0; pa < (1ull << (h * k)); pa++) for (uint64_t pb = 0; pb < (1ull << (k * w)); pb++) { vf::progress(str(h, k, w, " ", pa, " ", pb)); Product<A, B, C>(h, k, w, pa, pb, 0); } });
      // chains that are not compiled must be refused, never computed wrongly
      else if constexpr (isSparseMatrixCompiled<A, B>() && isSparseMatrixCompiled<B, C>())
        emit(str("nb", A, B, C), [=]() { bool thrown = false; try { auto c = MatMultABGeneric(BM(Pat<A, B>(1, 1, 1)), BM(Pat<B, C>(1, 1, 1))); (void)c; } catch (const Exception &) { thrown = true; } vf::check(thrown, "refuse", "a product that is not compiled is not refused"); vf::traces(1); });
    }); }); });
  // block sizes that do not match are refused
  emit("mismatch", [=]() { bool thrown = false; try { MatMultABGeneric(BM(Pat<2, 2>(1, 1, 1)), BM(Pat<3, 3>(1, 1, 1))); } catch (const Exception &) { thrown = true; } vf::check(thrown, "refuse", "2x2 times 3x3 blocks is not refused"); vf::traces(1); });
}

// rows with colliding hash values, and products of more than 16 rows (different algorithm)
VF_PART(U02, wide)
{
  const VI cols = { 0, 1, 2047, 2048, 2049, 4096, 6144, 6145 };
  for (int pa = 1; pa < 4; pa++) emit(str("hash", pa), [=]() {
    for (int q0 = 0; q0 < 256; q0++) for (int q1 = 0; q1 < 256; q1 += (vf::thorough ? 1 : 5))
      {
        vf::progress(str(q0, " ", q1));
        Entries<double> ea, eb; for (int k = 0; k < 2; k++) { if (pa >> k & 1) { ea[{0, k}] = k + 2; ea[{1, 1 - k}] = 5; } for (int j = 0; j < 8; j++) if ((k ? q1 : q0) >> j & 1) eb[{k, cols[j]}] = 1 + j + 10 * k; }
        auto a = MakeSp<double>(2, 2, ea), b = MakeSp<double>(2, 6146, eb);
        auto c = MatMultABGeneric(BM(a), BM(b)); vf::evals(1); vf::traces(1);
        auto & m = dynamic_cast<SparseMatrix<double> &>(*c);
        for (int i = 0; i < 2; i++)
          {
            std::map<int, double> ref; for (auto & x : ea) if (x.first.first == i) for (auto & y : eb) if (y.first.first == x.first.second) ref[y.first.second] += x.second * y.second;
            auto ri = m.GetRowIndices(i); auto rv = m.GetRowValues(i);
            vf::check(ri.Size() == ref.size(), "pattern", str("row ", i, " has ", ri.Size(), " entries instead of ", ref.size()));
            size_t k = 0; for (auto & x : ref) { vf::check(ri[k] == x.first && rv[k] == x.second, "value", str("row ", i, " entry ", k, " is (", ri[k], ",", rv[k], ") instead of (", x.first, ",", x.second, ")")); k++; }
          }
      } });
  // the same for blocks (separate code for every size), new and in place
  Iterate<6>([&](auto AM) { Iterate<6>([&](auto BM_) { Iterate<6>([&](auto CM) {
    constexpr int A = AM.value + 1, B = BM_.value + 1, C = CM.value + 1;
    if constexpr (IsSparseMMCompiled<A, B, C>())
      for (int pa = 1; pa < 4; pa++) emit(str("hashb", A, B, C, "P", pa), [=]() {
        const VI bc = { 0, 1, 2047, 2048, 4096 };
        for (int q0 = 0; q0 < 32; q0++) for (int q1 = 0; q1 < 32; q1 += (vf::thorough ? 1 : 3))
          {
            vf::progress(str(q0, " ", q1));
            auto fill = [&](int t, std::map<int, Dense> * ref, auto & a, auto & b) {
              auto va = [&](int i, int k, int x, int y) { return t + i + 2 * k + 3 * x - y; }; auto vb = [&](int k, int j, int x, int y) { return 1 + t * k - j + 2 * x + 5 * y; };
              for (int i = 0; i < 2; i++) { auto ri = a.GetRowIndices(i); for (size_t n = 0; n < ri.Size(); n++) for (int x = 0; x < A; x++) for (int y = 0; y < B; y++) Ent(a.GetRowValues(i)[n], x, y) = va(i, ri[n], x, y); }
              for (int k = 0; k < 2; k++) { auto ri = b.GetRowIndices(k); for (size_t n = 0; n < ri.Size(); n++) for (int x = 0; x < B; x++) for (int y = 0; y < C; y++) Ent(b.GetRowValues(k)[n], x, y) = vb(k, ri[n] % 5, x, y); }
              for (int i = 0; i < 2; i++) { ref[i].clear(); for (int k : a.GetRowIndices(i)) for (int j : b.GetRowIndices(k)) { Dense & D = ref[i][j]; if (D.empty()) D.assign(A, VD(C, 0.0)); for (int x = 0; x < A; x++) for (int z = 0; z < C; z++) for (int y = 0; y < B; y++) D[x][z] += va(i, k, x, y) * vb(k, j % 5, y, z); } } };
            std::vector<VI> ra(2), rb(2); for (int k = 0; k < 2; k++) { for (int i = 0; i < 2; i++) if (pa >> (i ? 1 - k : k) & 1) ra[i].push_back(k); for (int j = 0; j < 5; j++) if ((k ? q1 : q0) >> j & 1) rb[k].push_back(bc[j]); }
            auto make = [](const std::vector<VI> & r, int w, auto T) { Array<int> per(r.size()); for (size_t i = 0; i < r.size(); i++) per[i] = r[i].size(); auto m = make_shared<typename decltype(T)::type>(per, w); for (size_t i = 0; i < r.size(); i++) for (size_t k = 0; k < r[i].size(); k++) m->GetRowIndices(i)[k] = r[i][k]; return m; };
            auto a = make(ra, 2, std::common_type<SparseMat<A, B>>()); auto b = make(rb, 4097, std::common_type<SparseMat<B, C>>()); std::map<int, Dense> ref[2];
            auto see = [&](const auto & m, const char * what) {
              for (int i = 0; i < 2; i++)
                {
                  auto ri = m.GetRowIndices(i); vf::check(ri.Size() == ref[i].size(), "pattern", str(what, ": row ", i, " has ", ri.Size(), " entries instead of ", ref[i].size()));
                  size_t n = 0; for (auto & x : ref[i]) { vf::check(ri[n] == x.first, "pattern", str(what, ": row ", i, " has column ", ri[n], " instead of ", x.first)); for (int y = 0; y < A; y++) for (int z = 0; z < C; z++) vf::check(CEnt(m.GetRowValues(i)[n], y, z) == x.second[y][z], "value", str(what, ": row ", i, " column ", x.first, " component ", y, " ", z)); n++; }
                } };
            fill(3, ref, *a, *b); auto c = MatMultABGeneric(BM(a), BM(b)); auto & cs = dynamic_cast<SparseMat<A, C> &>(*c); see(cs, "product"); vf::evals(2); vf::traces(2);
            fill(7, ref, *a, *b); MatMultABUpdateVals(*a, *b, cs); see(cs, "updated product");
          } }); }); }); });
  // n rows of B, row k has pattern P if k is in the set, Q otherwise; one row of A with all n entries, one with the first m
  const VI mc = { 0, 1, 2, 1023, 1024, 1025, 2048 }; const int NC = mc.size();
  for (int n : VI{15, 16, 17, 18, 20}) for (int p = 0; p < (1 << NC); p += (vf::thorough || n == 17 ? 1 : 7))
    emit(str("merge", n, "P", p), [=]() {
      for (int q = 0; q < (1 << NC); q++) for (int how = 0; how < 3; how++)
        {
          vf::progress(str(q, " ", how));
          Entries<double> ea, eb;
          for (int k = 0; k < n; k++) { ea[{0, k}] = k + 1; if (k % 3 != 1) ea[{1, k}] = 1; int pat = how == 0 ? (k % 2 ? p : q) : how == 1 ? (k < 3 ? p : q) : (k == n - 1 ? p : (k == 0 ? q : (q >> (k % 3)))); for (int j = 0; j < NC; j++) if (pat >> j & 1) eb[{k, mc[j]}] = 1 + j; }
          auto c = MatMultABGeneric(BM(MakeSp<double>(2, n, ea)), BM(MakeSp<double>(n, 2049, eb))); vf::evals(1); vf::traces(1);
          auto & m = dynamic_cast<SparseMatrix<double> &>(*c);
          for (int i = 0; i < 2; i++)
            {
              std::map<int, double> ref; for (auto & y : eb) { auto x = ea.find({i, y.first.first}); if (x != ea.end()) ref[y.first.second] += x->second * y.second; }
              auto ri = m.GetRowIndices(i); auto rv = m.GetRowValues(i);
              vf::check(ri.Size() == ref.size(), "pattern", str("row ", i, " has ", ri.Size(), " entries instead of ", ref.size()));
              size_t k = 0; for (auto & x : ref) { vf::check(ri[k] == x.first && Close(rv[k], x.second, 1e-13, 1e3), "value", str("row ", i, " entry ", k, " is (", ri[k], ",", rv[k], ") instead of (", x.first, ",", x.second, ")")); k++; }
            }
        } });
}

// dropping small entries; restriction to blocks
namespace
{
template<int H, int W> void Compress (int h, int w, int code, double tol)
{
  // every entry: absent, 0, +small, -small, +big, -big
  typedef StripTM<H, W> TM; Entries<TM> e; Dense ref = Zero(h * H, w * W); int c = code;
  for (int i = 0; i < h; i++) for (int j = 0; j < w; j++, c /= 6)
    {
      int t = c % 6; if (!t) continue;
      TM m; for (int a = 0; a < H; a++) for (int b = 0; b < W; b++) { double v = t == 1 ? 0 : (t < 4 ? tol / 8 : 5 * tol * H * W + 3) * (t % 2 ? -1 : 1) * (H * W > 1 && (a + b) % 2 && t > 3 ? -1 : 1); Ent(m, a, b) = v; if (t > 3) ref[i*H+a][j*W+b] = v; }
      e[{i, j}] = m;
    }
  auto A = MakeSp<TM>(h, w, e); Dense keep = ToDense(*A);
  auto C = CompressAGeneric(A, tol); vf::evals(1);
  Same(Look(C, h, w, H, W, "compressed"), ref, "compressed", 0);
  size_t nz = 0; c = code; for (int i = 0; i < h * w; i++, c /= 6) nz += c % 6 > 3;
  vf::check(dynamic_cast<BaseSparseMatrix &>(*C).NZE() == nz, "dropped", str("compressed matrix has ", dynamic_cast<BaseSparseMatrix &>(*C).NZE(), " entries instead of ", nz));
  Same(ToDense(*A), keep, "argument of the compression", 0);
}
template<int H, int W> void Blocks (int h, int w, uint64_t pat, const VI & blk, const VI & cmask, int nb)
{
  auto A = Pat<H, W>(h, w, pat, 1, 0); Dense D = ToDense(*A), ref = D;
  Array<int> cr(nb), cc(nb); cr = 0; cc = 0;
  for (int i = 0; i < h; i++) if (blk[i] >= 0) cr[blk[i]]++;
  for (int b = 0; b < nb; b++) cc[b] = __builtin_popcount(cmask[b]);
  Table<int> rb(cr), cb(cc); cr = 0;
  for (int i = 0; i < h; i++) if (blk[i] >= 0) rb[blk[i]][cr[blk[i]]++] = i;
  for (int b = 0; b < nb; b++) { int k = 0; for (int j = 0; j < w; j++) if (cmask[b] >> j & 1) cb[b][k++] = j; }
  for (int i = 0; i < h; i++) if (blk[i] >= 0) for (int j = 0; j < w; j++) if (!(cmask[blk[i]] >> j & 1)) for (int a = 0; a < H; a++) for (int c = 0; c < W; c++) ref[i*H+a][j*W+c] = 0;
  auto R = restrictMatrixToBlocks(A, rb, cb, 1e-20); vf::evals(1);
  Same(Look(R, h, w, H, W, "restriction to blocks"), ref, "restriction to blocks", 0);
}
}
VF_PART(U02, compress)
{
  for (double tol : { 1e-20, 1e-3, 1.0 }) for (int h = 0; h <= 2; h++) for (int w = 0; w <= 3; w++) if (h * w <= 4 || vf::thorough)
    { emit(str("c", tol, "m", h, w), [=]() { int n = 1; for (int i = 0; i < h * w; i++) n *= 6; for (int c = 0; c < n; c++) { vf::progress(str(c)); Compress<1, 1>(h, w, c, tol); } });
      Iterate<6>([&](auto HM) { Iterate<6>([&](auto WM) { constexpr int H = HM.value + 1, W = WM.value + 1; if constexpr (isSparseMatrixCompiled<H, W>() && H * W > 1) if (h * w <= 2)
        emit(str("c", tol, "m", h, w, "b", H, W), [=]() { int n = 1; for (int i = 0; i < h * w; i++) n *= 6; for (int c = 0; c < n; c++) Compress<H, W>(h, w, c, tol); }); }); }); }
  for (int nb = 0; nb <= 2; nb++) for (int c0 = 0; c0 < (nb > 0 ? 8 : 1); c0++) for (int c1 = 0; c1 < (nb > 1 ? 8 : 1); c1++)
    emit(str("r", nb, "c", c0, ".", c1), [=]() {
      VI blk(3, -1);
      for (;;)
        {
          for (uint64_t p = 0; p < 512; p++) { vf::progress(str(blk[0], blk[1], blk[2], " ", p)); Blocks<1, 1>(3, 3, p, blk, VI{c0, c1}, nb); if (p % 5 == 2) { Blocks<2, 2>(3, 3, p, blk, VI{c0, c1}, nb); Blocks<1, 3>(3, 3, p, blk, VI{c0, c1}, nb); } }
          int k = 2; while (k >= 0 && blk[k] + 1 == nb) blk[k--] = -1; if (k < 0) break; blk[k]++;
        } });
}

// symbolic expressions: all trees of the operations up to depth 2 over all small patterns
namespace
{
struct Ex { string s; BM m; Dense d; int h, w; bool id = false; };   // sizes in blocks
template<int BS> Ex Leaf (int h, int w, uint64_t p, int seed, const char * n) { Ex e; e.m = Pat<BS, BS>(h, w, p, seed, 0); e.d = ToDense(dynamic_cast<SparseMat<BS, BS> &>(*e.m)); e.s = str(n, h, w, ".", p); e.h = h; e.w = w; return e; }
Ex ExT (const Ex & a) { Ex e; e.m = make_shared<ngla::Transpose>(a.m); e.d = Trans(a.d); e.h = a.w; e.w = a.h; e.s = "T(" + a.s + ")"; return e; }
Ex ExP (const Ex & a, const Ex & b) { Ex e; e.m = make_shared<ProductMatrix>(a.m, b.m); e.d = a.id ? b.d : b.id ? a.d : Mul(a.d, b.d); e.h = a.id ? b.h : a.h; e.w = b.id ? a.w : b.w; e.s = "P(" + a.s + "," + b.s + ")"; return e; }
Ex ExS (const Ex & a, const Ex & b, double x, double y) { Ex e; e.m = make_shared<SumMatrix>(a.m, b.m, x, y); Dense A = a.id ? Unity(b.d.size()) : a.d, B = b.id ? Unity(a.d.size()) : b.d; e.d = Comb(x, A, y, B); e.h = a.id ? b.h : a.h; e.w = a.id ? b.w : a.w; e.s = str("S(", a.s, ",", b.s, ",", x, ",", y, ")"); return e; }
Ex ExE (const Ex & a, int H, int off) { Ex e; int bs = a.d.size() / std::max(1, a.h); e.m = make_shared<EmbeddedMatrix>(H, IntRange(off, off + a.h), a.m); e.d = Zero(H * bs, a.w * bs); for (size_t i = 0; i < a.d.size(); i++) e.d[off*bs+i] = a.d[i]; e.h = H; e.w = a.w; e.s = str("E(", a.s, ",", H, ",", off, ")"); return e; }
Ex ExV (const Ex & a, double x) { Ex e = a; e.m = make_shared<VScaleMatrix<double>>(a.m, x); for (auto & r : e.d) for (auto & v : r) v *= x; e.s = str("V(", a.s, ",", x, ")"); return e; }
Ex ExI () { Ex e; e.m = make_shared<IdentityMatrix>(); e.id = true; e.s = "I"; e.h = e.w = 0; return e; }
// 2x2 block matrix, blocks may be missing
Ex ExB (const std::vector<std::vector<const Ex *>> & b, int bs)
{
  Ex e; int R = b.size(), C = b[0].size(); VI h(R, -1), w(C, -1);
  Array<Array<BM>> bl(R);
  for (int i = 0; i < R; i++) { bl[i].SetSize(C); for (int j = 0; j < C; j++) { bl[i][j] = b[i][j] ? b[i][j]->m : nullptr; if (b[i][j]) { h[i] = b[i][j]->h; w[j] = b[i][j]->w; } } }
  e.h = e.w = 0; for (int x : h) e.h += x; for (int x : w) e.w += x;
  e.d = Zero(e.h * bs, e.w * bs); int ro = 0; e.s = "B(";
  for (int i = 0; i < R; i++) { int co = 0; for (int j = 0; j < C; j++) { if (b[i][j]) { auto & d = b[i][j]->d; for (size_t x = 0; x < d.size(); x++) for (size_t y = 0; y < d[x].size(); y++) e.d[ro+x][co+y] = d[x][y]; e.s += b[i][j]->s; } e.s += ";"; co += w[j] * bs; } ro += h[i] * bs; }
  e.s += ")"; e.m = make_shared<BlockMatrix>(bl); return e;
}
// refuse: an exception is a legal answer
template<int BS> void Convert (const Ex & e, bool refuse = false)
{
  vf::progress(e.s); vf::evals(1); BM m;
  try { m = BaseMatrixToSparse(e.m); } catch (const Exception & x) { if (refuse) { vf::note("refused"); vf::traces(1); return; } vf::fail("exception", e.s + ": " + x.What()); }
  vf::outcome(vf::hash(e.s));
  Same(Look(m, e.h, e.w, BS, BS, e.s.c_str()), e.d, e.s.c_str());
}
// the expression is built by mk(); NGSolve may refuse to build it
template<int BS, class MK> void TryConvert (MK mk) { Ex e; try { e = mk(); } catch (const Exception &) { vf::note("not constructible in NGSolve"); return; } Convert<BS>(e); }
template<int BS> void Trees (uint64_t pa, uint64_t pb)
{
  Ex A = Leaf<BS>(2, 2, pa, 1, "A"), B = Leaf<BS>(2, 2, pb, 5, "B"), C = Leaf<BS>(2, 2, 13, 9, "C"), I = ExI();
  std::vector<Ex> one;   // depth 1
  one.push_back(A); one.push_back(ExT(A)); one.push_back(ExP(A, B)); one.push_back(ExP(B, A)); one.push_back(ExP(A, A));
  for (double y : { 1.0, -1.0, 0.5 }) { one.push_back(ExS(A, B, 1, y)); }
  one.push_back(ExS(B, A, 2, 1)); one.push_back(ExS(A, A, 1, -1)); one.push_back(ExP(A, I)); one.push_back(ExP(I, A));
  one.push_back(ExS(A, I, 1, 1)); one.push_back(ExS(I, A, 1, 1)); one.push_back(ExS(I, A, 1, -1)); one.push_back(ExS(A, I, -2, 3));
  for (auto & e : one) Convert<BS>(e);
  for (auto & e : one)
    {
      Convert<BS>(ExT(e)); Convert<BS>(ExP(e, C)); Convert<BS>(ExP(C, e)); Convert<BS>(ExS(e, C, 1, 1)); Convert<BS>(ExS(C, e, 1, -1)); TryConvert<BS>([&]() { return ExS(e, I, 1, -1); }); TryConvert<BS>([&]() { return ExS(I, e, 2, 1); }); TryConvert<BS>([&]() { return ExP(I, e); }); Convert<BS>(ExP(e, e));
      Convert<BS>(ExV(e, -3), true); Convert<BS>(ExS(ExV(e, -3), C, 1, 1), true); Convert<BS>(ExS(C, ExV(e, 0.25), 1, -1), true); Convert<BS>(ExP(ExV(e, 2), C), true);
      if (BS == 1) for (int H = 2; H <= 4; H++) for (int off = 0; off + 2 <= H; off++) { Convert<BS>(ExE(e, H, off)); Convert<BS>(ExT(ExE(e, H, off))); Convert<BS>(ExP(ExE(e, H, off), C)); }
    }
}
template<int BS> void BlockTrees (uint64_t p0, uint64_t p1)
{
  // block rows of height 2, 1; block columns of width 2, 1
  Ex A = Leaf<BS>(2, 2, p0 & 15, 1, "A"), B = Leaf<BS>(2, 1, p0 >> 4, 5, "B"), C = Leaf<BS>(1, 2, p1 & 3, 9, "C"), D = Leaf<BS>(1, 1, p1 >> 2, 2, "D");
  for (int have = 1; have < 16; have++)
    {
      bool ok = (have & 3) && (have & 12) && (have & 5) && (have & 10);
      if (!ok) continue;                     // sizes would be unknown
      std::vector<std::vector<const Ex *>> b = { { have & 1 ? &A : nullptr, have & 2 ? &B : nullptr }, { have & 4 ? &C : nullptr, have & 8 ? &D : nullptr } };
      Ex M = ExB(b, BS); Convert<BS>(M); Convert<BS>(ExT(M)); TryConvert<BS>([&]() { return ExP(M, M); }); TryConvert<BS>([&]() { return ExS(M, M, 1, -0.5); }); TryConvert<BS>([&]() { return ExS(M, ExI(), 1, 1); });
    }
  std::vector<std::vector<const Ex *>> row(1), col(2), row2(1); Ex E = ExT(C);
  row[0] = { &A, &B }; col[0] = { &A }; col[1] = { &C }; row2[0] = { &E, &A, &B };
  TryConvert<BS>([&]() { return ExB(row, BS); }); TryConvert<BS>([&]() { return ExB(row2, BS); }); TryConvert<BS>([&]() { return ExB(col, BS); });   // NGSolve does not build block matrices with fewer block rows than columns
  TryConvert<BS>([&]() { Ex r = ExB(row, BS); return ExP(r, ExT(r)); }); TryConvert<BS>([&]() { Ex c = ExB(col, BS); return ExP(ExT(c), c); });
}
}
VF_PART(U02, expressions)
{
  for (uint64_t a = 0; a < 16; a++) { emit(str("A", a), [=]() { for (uint64_t b = 0; b < 16; b++) Trees<1>(a, b); }); emit(str("A", a, "b2"), [=]() { for (uint64_t b = 0; b < 16; b += (vf::thorough ? 1 : 3)) Trees<2>(a, b); }); emit(str("A", a, "b3"), [=]() { for (uint64_t b = 0; b < 16; b += (vf::thorough ? 1 : 5)) Trees<3>(a, b); }); }
  for (uint64_t a = 0; a < 64; a++) emit(str("B", a), [=]() { for (uint64_t b = 0; b < 8; b++) { BlockTrees<1>(a, b); if (b % 3 == 0) BlockTrees<2>(a, b); } });
}

// Galerkin products, permutations
namespace
{
template<int H, int W> void Gal (int n, int m, uint64_t pa, uint64_t pp)
{
  auto A = Pat<H, H>(n, n, pa, 2, 0); auto P = Pat<H, W>(n, m, pp, 3, 0); auto PT = TransposeAGeneric(P);
  Dense D = Mul(Trans(ToDense(*P)), Mul(ToDense(*A), ToDense(*P))); if (n == 0) D = Zero(m * W);
  auto & PTs = dynamic_cast<SparseMat<W, H> &>(*PT);
  auto R = RestrictMatrix<H, W>(PTs, *A, *P); Same(Look(R, m, m, W, W, "restricted"), D, "restricted"); vf::evals(1);
  auto [AP, PTAP] = RestrictMatrixKeepFactor(*A, *P, *PT); Same(Look(AP, n, m, H, W, "factor"), Mul(ToDense(*A), ToDense(*P)), "factor"); Same(Look(PTAP, m, m, W, W, "restricted (2)"), D, "restricted (2)");
}
template<int BS> void Perms () { for (int n = 0; n <= 5; n++) { VI s(n); for (int i = 0; i < n; i++) s[i] = i; do { Array<int> p(n); for (int i = 0; i < n; i++) p[i] = s[i]; auto E = BuildPermutationMatrix<BS>(p); Dense D = Zero(n * BS, n * BS); for (int i = 0; i < n; i++) for (int l = 0; l < BS; l++) D[i*BS+l][s[i]*BS+l] = 1; Same(Look(E, n, n, BS, BS, "permutation"), D, "permutation"); vf::evals(1); } while (std::next_permutation(s.begin(), s.end())); } }
}
VF_PART(U02, galerkin)
{
  for (int n = 1; n <= 3; n++) for (int m = 0; m <= 2; m++) for (uint64_t pp = 0; pp < (1ull << (n * m)); pp++)
    { emit(str("n", n, m, "P", pp), [=]() { for (uint64_t pa = 0; pa < (1ull << (n * n)); pa++) Gal<1, 1>(n, m, pa, pp); if (n < 3) for (uint64_t pa = 0; pa < (1ull << (n * n)); pa++) { Gal<2, 2>(n, m, pa, pp); Gal<2, 3>(n, m, pa, pp); Gal<3, 3>(n, m, pa, pp); Gal<3, 6>(n, m, pa, pp); Gal<1, 2>(n, m, pa, pp); Gal<1, 3>(n, m, pa, pp); Gal<6, 6>(n, m, pa, pp); } }); }
  emit("perm", [=]() { Perms<1>(); Perms<2>(); Perms<3>(); Perms<6>(); });
}

// conversion to dynamic blocks
namespace
{
void Dyn (int h, uint64_t pat, int sign)
{
  auto A = Pat<1, 1>(h, h, pat, 1, sign); Dense D = ToDense(*A); vf::evals(1);
  DynBlockSparseMatrix<double> M(*A);
  VVector<double> x(h), y(h);
  for (int j = 0; j < h; j++)
    {
      x = 0.0; x.FV<double>()(j) = 1; y = 7.0; M.Mult(x, y);
      for (int i = 0; i < h; i++) vf::check(y.FV<double>()(i) == D[i][j], "dynamic", str("Mult column ", j, " row ", i, ": ", y.FV<double>()(i), " instead of ", D[i][j]));
      y = 1.0; M.MultAdd(2.0, x, y);
      for (int i = 0; i < h; i++) vf::check(y.FV<double>()(i) == 1 + 2 * D[i][j], "dynamic", str("MultAdd column ", j, " row ", i, ": ", y.FV<double>()(i), " instead of ", 1 + 2 * D[i][j]));
    }
  vf::check(M.GetNZE() == A->NZE(), "dynamic", "number of entries"); vf::traces(1); vf::outcome(vf::hash(h, pat));
}
// symmetric pattern of h rows; the diagonal may be missing
uint64_t SymPat (int h, int off, int diag) { uint64_t p = 0; int k = 0; for (int i = 0; i < h; i++) { if (diag >> i & 1) p |= 1ull << (i * h + i); for (int j = i + 1; j < h; j++, k++) if (off >> k & 1) p |= (1ull << (i * h + j)) | (1ull << (j * h + i)); } return p; }
template<int BS> void DynBlk (int h, uint64_t pat)
{
  auto A = Pat<BS, BS>(h, h, pat, 1, 0); Dense D = ToDense(*A); vf::evals(1);
  auto M = ConvertToDynSPM(*A); int n = h * BS; vf::check((int)M->Height() == n && (int)M->Width() == n, "dynamic", str("size ", M->Height(), "x", M->Width()));
  VVector<double> x(n), y(n);
  for (int j = 0; j < n; j++) { x = 0.0; x.FV<double>()(j) = 1; y = 0.0; M->Mult(x, y); for (int i = 0; i < n; i++) vf::check(y.FV<double>()(i) == D[i][j], "dynamic", str("Mult column ", j, " row ", i, ": ", y.FV<double>()(i), " instead of ", D[i][j])); }
  vf::traces(1);
}
}
VF_PART(U02, dynamic)
{
  for (int h = 1; h <= 5; h++) for (int d = 0; d < (1 << h); d++) if (h < 5 || vf::thorough || d == 31 || d == 0 || __builtin_popcount(d) == 4)
    emit(str("s", h, "d", d), [=]() { for (int o = 0; o < (1 << (h * (h - 1) / 2)); o++) { vf::progress(str(o)); Dyn(h, SymPat(h, o, d), 0); } });
  for (int h = 1; h <= 3; h++) emit(str("b", h), [=]() { for (int d = 0; d < (1 << h); d++) for (int o = 0; o < (1 << (h * (h - 1) / 2)); o++) { vf::progress(str(d, " ", o)); DynBlk<1>(h, SymPat(h, o, d)); } });
}

// sorted arrays
VF_PART(U02, arrays)
{
  for (int a = 0; a < 64; a++) emit(str("a", a), [=]() {
    LocalHeap lh(1 << 20, "arr", false);
    for (int b = 0; b < 64; b++)
      {
        HeapReset hr(lh); vf::evals(1); vf::traces(1);
        Array<int> A, B; for (int i = 0; i < 6; i++) { if (a >> i & 1) A.Append(i); if (b >> i & 1) B.Append(i); }
        auto bits = [](const auto & x) { int m = 0, last = -1; for (int v : x) { vf::check(v > last, "sorted", "result not sorted"); last = v; m |= 1 << v; } return m; };
        auto pos = [](int set, int v) { return __builtin_popcount(set & ((1 << v) - 1)); };
        vf::check(bits(merge_arrays_lh<int>(A, B, lh)) == (a | b), "array", "merge_arrays_lh"); Array<int> out; merge_arrays(FlatArray<int>(A), FlatArray<int>(B), out); vf::check(bits(out) == (a | b), "array", "merge_arrays");
        Array<int> B2(B.Size()); B2 = B; merge_a_into_b(FlatArray<int>(A), B2, lh); vf::check(bits(B2) == (a | b), "array", "merge_a_into_b");
        Array<int> I; intersect_sorted_arrays(A, B, I); vf::check(bits(I) == (a & b), "array", "intersect_sorted_arrays"); vf::check(is_intersect_empty(A, B) == ((a & b) == 0), "array", "is_intersect_empty");
        vf::check(bits(setMinus<int>(A, B, lh)) == (a & ~b), "array", "setMinus");
        int ra = 0, rb = 0, rc = 0; iterate_ABC(A, B, [&](auto i) { ra |= 1 << A[i]; }, [&](auto i) { rb |= 1 << B[i]; }, [&](auto i, auto j) { vf::check(A[i] == B[j], "array", "iterate_ABC"); rc |= 1 << A[i]; }); vf::check(ra == (a & ~b) && rb == (b & ~a) && rc == (a & b), "array", "iterate_ABC");
        ra = rb = rc = 0; iterate_ABC(A, B, [&](ABC_KIND w, int i, int j) { (w == INTERSECTION ? rc : w == A_NOT_B ? ra : rb) |= 1 << (w == B_NOT_A ? B[j] : A[i]); }); vf::check(ra == (a & ~b) && rb == (b & ~a) && rc == (a & b), "array", "iterate_ABC (kind)");
        ra = rc = 0; iterate_AC(A, B, [&](ABC_KIND w, int i, int j) { (w == INTERSECTION ? rc : ra) |= 1 << A[i]; vf::check(w != INTERSECTION || A[i] == B[j], "array", "iterate_AC"); }); vf::check(ra == (a & ~b) && rc == (a & b), "array", "iterate_AC");
        rc = 0; iterate_intersection(A, B, [&](auto i, auto j) { vf::check(A[i] == B[j], "array", "iterate_intersection"); rc |= 1 << A[i]; }); vf::check(rc == (a & b), "array", "iterate_intersection");
        ra = 0; iterate_anotb(A, B, [&](auto i) { ra |= 1 << A[i]; }); vf::check(ra == (a & ~b), "array", "iterate_anotb");
        if ((a & b) == a) for (int BS = 1; BS <= 2; BS++)
          { auto [x, y] = partitionAB(A, B, lh, BS); vf::check((int)x.Size() == BS * (int)A.Size() && x.Size() + y.Size() == BS * B.Size(), "array", "partitionAB sizes"); int k = 0, l = 0; for (size_t i = 0; i < B.Size(); i++) for (int c = 0; c < BS; c++) { if (a >> B[i] & 1) vf::check(x[k++] == BS * (int)i + c, "array", "partitionAB"); else vf::check(y[l++] == BS * (int)i + c, "array", "partitionAB (rest)"); }
            if (BS == 1) { auto q = posSortedInSorted<int>(A, B, lh); for (size_t i = 0; i < A.Size(); i++) vf::check(q[i] == pos(b, A[i]), "array", "posSortedInSorted"); } }
        // tables of three rows
        for (int c : { 0, 21, 42, 63 })
          { Array<int> cnt(3); cnt[0] = A.Size(); cnt[1] = B.Size(); cnt[2] = __builtin_popcount(c); Table<int> t(cnt); t[0] = A; t[1] = B; int k = 0; for (int i = 0; i < 6; i++) if (c >> i & 1) t[2][k++] = i; Array<int> m; merge_arrays(t, m, [](int i, int j) { return i < j; }); vf::check(bits(m) == (a | b | c), "array", "merge_arrays (table)"); }
      }
    Array<int> A; for (int i = 0; i < 6; i++) if (a >> i & 1) A.Append(2 * i); 
    for (int e = -1; e <= 12; e++)
      {
        bool in = e >= 0 && e % 2 == 0 && e < 12 && (a >> (e / 2) & 1); size_t le = 0; for (int v : A) le += v <= e;
        auto q = find_in_sorted_array(e, FlatArray<int>(A)); vf::check(in ? (q < A.Size() && A[q] == e) : q == size_t(-1), "array", str("find_in_sorted_array ", e)); vf::check(merge_pos_in_sorted_array(e, FlatArray<int>(A)) == le, "array", str("merge_pos_in_sorted_array ", e));
        Array<int> C(A.Size()); C = A; bool ins = insert_into_sorted_array_nodups(e, C); vf::check(ins == !in && C.Size() == A.Size() + !in, "array", "insert_into_sorted_array_nodups"); for (size_t i = 1; i < C.Size(); i++) vf::check(C[i-1] < C[i], "array", "insert_into_sorted_array_nodups order");
        Array<int> C2(A.Size()); C2 = A; insert_into_sorted_array(e, C2); vf::check(C2.Size() == A.Size() + 1, "array", "insert_into_sorted_array"); for (size_t i = 1; i < C2.Size(); i++) vf::check(C2[i-1] <= C2[i], "array", "insert_into_sorted_array order");
        Array<int> C3(A.Size()); C3 = A; auto [nw, ps] = sorted_insert_unique(e, C3); vf::check(nw == !in && C3.Size() == A.Size() + !in && (!nw || C3[ps] == e), "array", "sorted_insert_unique");
      } });
  // long arrays (bisection)
  emit("long", [=]() { for (int n = 0; n <= 40; n++) { Array<int> A(n); for (int i = 0; i < n; i++) A[i] = 3 * i; for (int e = -2; e <= 3 * n + 2; e++) { size_t le = 0; for (int v : A) le += v <= e; auto q = find_in_sorted_array(e, FlatArray<int>(A)); bool in = e >= 0 && e % 3 == 0 && e < 3 * n; vf::check(in ? q == size_t(e / 3) : q == size_t(-1), "array", str("find ", n, " ", e)); vf::check(merge_pos_in_sorted_array(e, FlatArray<int>(A)) == le, "array", str("merge_pos ", n, " ", e)); vf::evals(1); vf::traces(1); } } });
  emit("small", [=]() {
    // all arrays up to length 3 over three values: an order, positions, removal; all tables of equally long rows
    std::vector<VI> all { {} }; for (int n = 1; n <= 3; n++) { int tot = n == 1 ? 3 : n == 2 ? 9 : 27; for (int c = 0; c < tot; c++) { VI v; int x = c; for (int k = 0; k < n; k++) { v.push_back(x % 3); x /= 3; } all.push_back(v); } }
    auto arr = [](const VI & v) { Array<int> a(v.size()); for (size_t i = 0; i < v.size(); i++) a[i] = v[i]; return a; };
    for (auto & u : all) for (auto & v : all) { auto a = arr(u), b = arr(v); bool less = u.size() != v.size() ? u.size() < v.size() : u < v; vf::check(lex_smaller<int>(a, b) == less, "array", "lex_smaller"); vf::traces(1); }
    for (auto & u : all) { Array<int> a = arr(u); int mx = -1; for (size_t i = 0; i < u.size(); i++) if (mx < 0 || u[i] > u[mx]) mx = i; vf::check(ind_of_max<int>(a) == mx, "array", "ind_of_max");
      for (size_t p = 0; p < u.size(); p++) { VI w = u; w.erase(w.begin() + p); auto b = arr(u); int s = removeEntry<int>(p, b); vf::check(s == (int)w.size() && b.Size() == w.size(), "array", "removeEntry size"); for (size_t i = 0; i < w.size(); i++) vf::check(b[i] == w[i], "array", "removeEntry"); }
      if (std::is_sorted(u.begin(), u.end())) for (int e = -1; e <= 3; e++) { auto b = arr(u); int p = sorted_pos(e, b); vf::check(b.Size() == u.size() + 1 && b[p] == e, "array", "sorted_pos"); VI w = u; w.push_back(e); std::sort(w.begin(), w.end()); for (size_t i = 0; i < w.size(); i++) vf::check(b[i] == w[i], "array", "sorted_pos order"); } }
    for (int rows = 0; rows <= 3; rows++) for (int cols = 0; cols <= 2; cols++) { int tot = 1; for (int k = 0; k < rows * cols; k++) tot *= 3;
      for (int c = 0; c < tot; c++) { std::vector<int> da(rows * cols + 1); Array<FlatArray<int>> t(rows); for (int i = 0; i < rows; i++) t[i].Assign(FlatArray<int>(cols, da.data() + i * cols)); int x = c; for (int i = 0; i < rows; i++) for (int j = 0; j < cols; j++) { t[i][j] = x % 3 - 1; x /= 3; }
        auto mi = min_table(t), ma = max_table(t), su = sum_table(t), re = reduce_table(t, [](auto a, auto b) { return 2 * a + b; }); size_t want = rows ? cols : 0; vf::traces(1);
        vf::check(mi.Size() == want && ma.Size() == want && su.Size() == want && re.Size() == want, "array", "size of a reduced table");
        for (size_t j = 0; j < want; j++) { int a = t[0][j], b = a, d = a, e = a; for (int i = 1; i < rows; i++) { a = std::min(a, t[i][j]); b = std::max(b, t[i][j]); d += t[i][j]; e = 2 * e + t[i][j]; } vf::check(mi[j] == a && ma[j] == b && su[j] == d && re[j] == e, "array", "reduction of a table"); } } }
    vf::evals(1); });
  emit("permutations", [=]() { for (int n = 0; n <= 6; n++) { VI s(n); for (int i = 0; i < n; i++) s[i] = i; do {
    Array<int> p(n), q(n), v(n), u(n), buf(n), inv(n); for (int i = 0; i < n; i++) { p[i] = q[i] = s[i]; v[i] = u[i] = 100 + i; }
    ApplyAndKeepPermutation<int>(u, q); ApplyPermutation<int>(v, p, buf); InvertPermutation<int>(FlatArray<int>(q), inv);
    for (int i = 0; i < n; i++) { vf::check(v[i] == 100 + s[i], "array", "ApplyPermutation (buffer)"); vf::check(u[i] == 100 + s[i], "array", "ApplyAndKeepPermutation"); vf::check(q[i] == s[i], "array", "ApplyAndKeepPermutation does not keep"); vf::check(inv[s[i]] == i, "array", "InvertPermutation"); }
    Array<int> w(n); for (int i = 0; i < n; i++) w[i] = 100 + i; ApplyPermutation<int>(FlatArray<int>(w), q); for (int i = 0; i < n; i++) vf::check(w[i] == 100 + s[i], "array", "ApplyPermutation"); vf::evals(1); vf::traces(1);
    } while (std::next_permutation(s.begin(), s.end())); } });
}

// dense kernels: (pseudo-)inverses, definiteness tests, regularization
namespace
{
Dense SymMat (int n, const VD & up, double sc = 1) { Dense A = Zero(n); int k = 0; for (int i = 0; i < n; i++) for (int j = i; j < n; j++) A[i][j] = A[j][i] = sc * up[k++]; return A; }
template<class T> FlatMatrix<T> FM (const Dense & A, LocalHeap & lh) { int n = A.size(); FlatMatrix<T> M(n, n, lh); for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) M(i, j) = A[i][j]; return M; }
template<class TA> Dense FromFM (const TA & M, int n) { Dense A = Zero(n); for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) A[i][j] = M(i, j); return A; }
template<int N, class T> FlatMatrix<Mat<N, N, T>> BM_ (const Dense & A, LocalHeap & lh) { int n = A.size() / N; FlatMatrix<Mat<N, N, T>> M(n, n, lh); for (int i = 0; i < n * N; i++) for (int j = 0; j < n * N; j++) M(i / N, j / N)(i % N, j % N) = A[i][j]; return M; }
template<int N, class T> Dense FromBM (const FlatMatrix<Mat<N, N, T>> & M) { int n = M.Height(); Dense A = Zero(n * N); for (int i = 0; i < n * N; i++) for (int j = 0; j < n * N; j++) A[i][j] = M(i / N, j / N)(i % N, j % N); return A; }
void Inv (const Dense & X, const Dense & R, const Dense & A, const char * what, double tol)
{
  vf::traces(1);
  vf::check(Close(X, R, tol), "pinv", str(what, " of ", S(A), " is ", S(X), " instead of ", S(R)));
}
// A symmetric, positive semidefinite (singular or not)
template<class T> void PinvBlocks (const Dense & A, const Dense & R, LocalHeap & lh, double tol)
{
  int n = A.size();
  Iterate<4>([&](auto NM) { constexpr int N = NM.value + 1; if constexpr (N > 1) if (n % N == 0)
    {
      if constexpr (is_same_v<T, double>) { HeapReset hr(lh); auto M = BM_<N, T>(A, lh); CalcPseudoInverseTryNormal(M, lh); Inv(FromBM<N, T>(M), R, A, "CalcPseudoInverseTryNormal (blocks)", tol); }
      { HeapReset hr(lh); auto M = BM_<N, T>(A, lh); CalcPseudoInverseNew<N, T>(M, lh); Inv(FromBM<N, T>(M), R, A, "CalcPseudoInverseNew (blocks)", tol); }
      if constexpr (is_same_v<T, double>) { HeapReset hr(lh); auto M = BM_<N, double>(A, lh); CalcPseudoInverseWithTol<N>(M, lh, 1e-12, 1e-12); Inv(FromBM<N, double>(M), R, A, "CalcPseudoInverseWithTol (blocks)", tol); }
    } });
}
template<class T> void PinvSmall (const Dense & A, const Dense & R, LocalHeap & lh, double tol)
{
  int n = A.size();
  Iterate<6>([&](auto NM) { constexpr int N = NM.value + 1; if (n == N)
    {
      auto mk = [&]() { Mat<N, N, T> M; for (int i = 0; i < N; i++) for (int j = 0; j < N; j++) M(i, j) = A[i][j]; return M; };
      if constexpr (N > 1 && is_same_v<T, double>) { { HeapReset hr(lh); auto M = mk(); CalcPseudoInverseTryNormal(M, lh); Inv(FromFM(M, n), R, A, "CalcPseudoInverseTryNormal (Mat)", tol); } }
      { HeapReset hr(lh); auto M = mk(); CalcPseudoInverseNew(M, lh); Inv(FromFM(M, n), R, A, "CalcPseudoInverseNew (Mat)", tol); }
      if constexpr (is_same_v<T, double>)
        {
          { HeapReset hr(lh); auto M = mk(); CalcPseudoInverse(M, lh); Inv(FromFM(M, n), R, A, "CalcPseudoInverse (Mat)", tol); }
          { auto M = mk(); CalcPseudoInverse<N>(M); Inv(FromFM(M, n), R, A, "CalcPseudoInverse<N>", tol); }
        }
    } });
  if (n == 1)
    {
      { T x = A[0][0]; CalcPseudoInverseTryNormal(x, lh); Inv({ { double(x) } }, R, A, "CalcPseudoInverseTryNormal (scalar)", tol); }
      { T x = A[0][0]; CalcPseudoInverseNew(x, lh); Inv({ { double(x) } }, R, A, "CalcPseudoInverseNew (scalar)", tol); }
      { T x = A[0][0]; CalcPseudoInverseNew(x); Inv({ { double(x) } }, R, A, "CalcPseudoInverseNew (scalar 2)", tol); }
    }
}
void Pinv (const Dense & A, bool flt, LocalHeap & lh)
{
  HeapReset hr(lh); vf::evals(1); int n = A.size(); Dense R = SymPinv(A, 1e-9); double mx = 0; for (auto & r : A) mx = std::max(mx, MaxAbs(r));
  if (mx == 0) R = Zero(n);
  const double tol = 1e-7;
  { HeapReset hr(lh); auto M = FM<double>(A, lh); CalcPseudoInverseNew(M, lh); Inv(FromFM(M, n), R, A, "CalcPseudoInverseNew", tol); }
  { HeapReset hr(lh); auto M = FM<double>(A, lh); CalcPseudoInverseTryNormal(M, lh); Inv(FromFM(M, n), R, A, "CalcPseudoInverseTryNormal", tol); }
  { HeapReset hr(lh); auto M = FM<double>(A, lh); CalcPseudoInverseFM(M, lh); Inv(FromFM(M, n), R, A, "CalcPseudoInverseFM", tol); }
  { HeapReset hr(lh); auto M = FM<double>(A, lh); VD e = SymEig(A); int rk = 0; for (double v : e) rk += v > 1e-9 * mx; int got = CalcPseudoInverseWithTol(M, lh, 1e-12, 1e-12); Inv(FromFM(M, n), R, A, "CalcPseudoInverseWithTol", tol); vf::check(got == rk, "rank", str("CalcPseudoInverseWithTol of ", S(A), " returns rank ", got, " instead of ", rk)); }
  PinvSmall<double>(A, R, lh, tol); if (n <= 12) PinvBlocks<double>(A, R, lh, tol);
  if (flt)
    {
      { HeapReset hr(lh); auto M = FM<float>(A, lh); CalcPseudoInverseNew(M, lh); Inv(FromFM(M, n), R, A, "CalcPseudoInverseNew (float)", 1e-3); }
      { HeapReset hr(lh); auto M = FM<float>(A, lh); CalcPseudoInverseTryNormal(M, lh); Inv(FromFM(M, n), R, A, "CalcPseudoInverseTryNormal (float)", 1e-3); }
      PinvSmall<float>(A, R, lh, 1e-3); if (n <= 12) PinvBlocks<float>(A, R, lh, 1e-3);
    }
}
double MinEig (const Dense & A) { double m = 1e300; for (double v : SymEig(A)) m = std::min(m, v); return m; }
double MaxE (const Dense & A) { double m = 0; for (auto & r : A) m = std::max(m, MaxAbs(r)); return m; }
template<class T> void Definite (const Dense & A, const char * t, LocalHeap & lh)
{
  // entries are small integers: an eigenvalue is zero or well away from it
  double mn = MinEig(A), sc = MaxE(A); vf::evals(1); vf::traces(2);
  { HeapReset hr(lh); auto M = FM<T>(A, lh); bool r = CheckForSSPD(M, lh), e = mn >= -1e-9 * sc; vf::check(r == e, "definite", str("CheckForSSPD", t, "(", S(A), ") is ", r, ", smallest eigenvalue ", mn)); }
  bool exact = std::fabs(mn) <= 1e-9 * sc;        // singular: Cholesky may or may not see it
  if (!exact || sc == 0) { HeapReset hr(lh); auto M = FM<T>(A, lh); bool r = CheckForSPD(M, lh), e = mn > 1e-9 * sc; vf::check(r == e, "definite", str("CheckForSPD", t, "(", S(A), ") is ", r, ", smallest eigenvalue ", mn)); }
}
template<int N> void Reg (const Dense & A)
{
  Mat<N, N> M; for (int i = 0; i < N; i++) for (int j = 0; j < N; j++) M(i, j) = A[i][j];
  Dense V; VD e = SymEig(A, &V); double mx = MaxE(A), mn = 1e300; for (double v : e) if (v > 1e-9 * mx) mn = std::min(mn, v);
  Dense R = A; if (mx == 0) R = Unity(N); else for (int k = 0; k < N; k++) if (e[k] <= 1e-9 * mx) for (int i = 0; i < N; i++) for (int j = 0; j < N; j++) R[i][j] += mn * V[i][k] * V[j][k];
  RegTM<0, N, N>(M); vf::evals(1); vf::traces(1);
  vf::check(Close(FromFM(M, N), R, 1e-8), "regularize", str("RegTM of ", S(A), " is ", S(FromFM(M, N)), " instead of ", S(R)));
}
// smallest lambda with R >= lambda 2 A (A+B)^+ B on the range of the right hand side
template<int N> void Harm (const Dense & A, const Dense & B, const Dense & R)
{
  Dense L = Mul(A, Mul(SymPinv(Comb(1, A, 1, B), 1e-9), B)); for (auto & r : L) for (auto & v : r) v *= 2; for (int i = 0; i < N; i++) for (int j = 0; j < i; j++) L[i][j] = L[j][i] = (L[i][j] + L[j][i]) / 2;
  if (MaxE(Comb(1, A, 1, B)) == 0) L = Zero(N);
  Dense V; VD e = SymEig(L, &V); double mx = MaxE(L); VI nz; for (int k = 0; k < N; k++) if (e[k] > 1e-9 * mx && mx > 1e-13) nz.push_back(k);
  Dense Q = Zero(nz.size()); for (size_t a = 0; a < nz.size(); a++) for (size_t b = 0; b < nz.size(); b++) { double s = 0; for (int i = 0; i < N; i++) for (int j = 0; j < N; j++) s += V[i][nz[a]] * R[i][j] * V[j][nz[b]]; Q[a][b] = s / std::sqrt(e[nz[a]] * e[nz[b]]); }
  double want = nz.empty() ? 0 : MinEig(Q);
  Mat<N, N> a, b, r; for (int i = 0; i < N; i++) for (int j = 0; j < N; j++) { a(i, j) = A[i][j]; b(i, j) = B[i][j]; r(i, j) = R[i][j]; }
  double got = MIN_EV_HARM2(a, b, r); vf::evals(1); vf::traces(1);
  vf::check(std::isfinite(got) && std::fabs(got - want) <= 1e-7 * (1 + MaxE(Q)), "generalized eigenvalue", str("MIN_EV_HARM2(", S(A), ", ", S(B), ", ", S(R), ") is ", got, " instead of ", want));
}
// all upper triangles over an alphabet, first entry of the diagonal fixed
template<class F> void AllSym (int n, const VD & dg, const VD & od, F f)
{
  int m = n * (n + 1) / 2; std::vector<int> isd; for (int i = 0; i < n; i++) for (int j = i; j < n; j++) isd.push_back(i == j);
  VI c(m, 0); VD up(m);
  while (true)
    {
      for (int k = 0; k < m; k++) up[k] = isd[k] ? dg[c[k]] : od[c[k]];
      f(up);
      int k = 0; while (k < m && ++c[k] == int(isd[k] ? dg.size() : od.size())) c[k++] = 0; if (k == m) break;
    }
}
bool Psd (const Dense & A) { return MinEig(A) >= -1e-9 * MaxE(A); }
}
VF_PART(U02, dense)
{
  // pseudo inverses: all positive semidefinite matrices over small alphabets
  for (int n = 1; n <= (vf::thorough ? 4 : 3); n++) for (int d0 = 0; d0 <= 4; d0++)
    emit(str("n", n, "d", d0), [=]() { LocalHeap lh(10000000, "dense", false); VD dg { 0, 1, 2, 4 }, od = n <= 3 ? VD { -2, -1, 0, 1, 2 } : VD { -1, 0, 1 }; int cnt = 0;
      AllSym(n, dg, od, [&](VD up) { if (up[0] != dg[0]) return; up[0] = d0; Dense A = SymMat(n, up); if (!Psd(A)) return; cnt++; vf::progress(S(A)); bool nonsing = MinEig(A) > 1e-6; for (double sc : { 1.0, 1e-6, 1e6 }) { if (sc != 1 && n > 3) continue; Pinv(SymMat(n, up, sc), nonsing || n == 1, lh); } vf::outcome(vf::hash(str(n, S(A)))); });  });
  // Gram matrices of low rank, n = 4, 6
  for (int n : { 4, 6 }) for (int g = 0; g < 27; g++)
    emit(str("gram", n, "_", g), [=]() { LocalHeap lh(10000000, "dense", false); int tot = 1; for (int k = 0; k < n; k++) tot *= 3; VD v { double(g % 3 - 1), double(g / 3 % 3 - 1), double(g / 9 - 1), 1, 0, -1 }; 
      for (int c = 0; c < tot; c++) { VD w(n); int x = c; for (int k = 0; k < n; k++) { w[k] = x % 3 - 1; x /= 3; } Dense A = Zero(n); for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) A[i][j] = v[i] * v[j] + w[i] * w[j]; vf::progress(S(A)); Pinv(A, false, lh); for (int i = 0; i < n; i++) A[i][i] += 1; Pinv(A, true, lh); vf::outcome(vf::hash(str(n, S(A)))); }  });
  // large matrices (direct inverse by Cholesky from 50 on): path and cycle Laplacians, grounded at a subset of the ends, rows switched off
  for (int n : { 47, 48, 49, 50, 51, 52, 60, 64 }) for (int cyc = 0; cyc < 2; cyc++)
    emit(str("large", n, cyc ? "c" : "p"), [=]() { LocalHeap lh(100000000, "dense", false);
      for (int gr = 0; gr < 4; gr++) for (int off = 0; off < 4; off++)
        {
          Dense A = Zero(n); std::vector<char> on(n, 1); if (off & 1) on[0] = 0; if (off & 2) on[n/2] = on[n/2+1] = 0;
          for (int i = 0; i < n; i++) { int j = (i + 1) % n; if (j == 0 && !cyc) continue; if (!on[i] || !on[j]) continue; double w = 1 + i % 3; A[i][i] += w; A[j][j] += w; A[i][j] -= w; A[j][i] -= w; }
          if (gr & 1) for (int i = 0; i < n; i++) if (on[i]) { A[i][i] += 1; }
          if (gr & 2) if (on[n-1]) A[n-1][n-1] += 3;
          vf::progress(str(gr, off)); Pinv(A, false, lh); vf::outcome(vf::hash(str(n, cyc, gr, off)));
          if (gr & 1) Definite<double>(A, "", lh);
          
        } });
  // definiteness
  for (int n = 1; n <= (vf::thorough ? 4 : 3); n++) for (int d0 = -1; d0 <= 4; d0++)
    emit(str("spd", n, "d", d0), [=]() { LocalHeap lh(10000000, "dense", false); VD dg { -1, 0, 1, 2 }, od = n <= 3 ? VD { -2, -1, 0, 1, 2 } : VD { -1, 0, 1 }; AllSym(n, dg, od, [&](VD up) { if (up[0] != dg[0]) return; up[0] = d0; vf::progress(S(up)); for (double sc : { 1.0, 1e-6, 1e6 }) { Dense A = SymMat(n, up, sc); Definite<double>(A, "", lh); Definite<float>(A, "<float>", lh); } vf::outcome(vf::hash(str(n, S(up))));  }); });
  // inverse of a matrix of 6 x 6 blocks
  for (int n = 1; n <= 3; n++) for (int g = 0; g < 9; g++)
    emit(str("block6_", n, "_", g), [=]() { LocalHeap lh(10000000, "dense", false);
      int N = 6 * n, np = n * (n - 1) / 2; int tot = 1; for (int k = 0; k < np; k++) tot *= 3;
      for (int c = 0; c < tot; c++) for (int ds = 0; ds < (1 << n); ds++) for (int sy = 0; sy < 2; sy++)
        {
          // well conditioned: strictly diagonally dominant, with couplings between the blocks switched by c
          Dense A = Zero(N); int x = c; VI on(n * n, 1); for (int a = 0; a < n; a++) for (int b = a + 1; b < n; b++) { int q = x % 3; x /= 3; on[a*n+b] = q != 0; on[b*n+a] = sy ? q != 0 : q == 2; }
          for (int i = 0; i < N; i++) for (int j = 0; j < N; j++) if (i != j && on[i/6*n+j/6]) { int u = sy ? min(i, j) : i, v = sy ? max(i, j) : j; A[i][j] = ((u * (3 + g % 3) + v * (5 + g / 3)) % 5 - 2) * 0.5; }
          for (int i = 0; i < N; i++) { double r = 0; for (int j = 0; j < N; j++) r += fabs(A[i][j]); A[i][i] = (r + 1) * (ds >> (i / 6) & 1 ? 50 : 1); }
          vf::progress(str(c, ds, sy)); vf::traces(1); vf::evals(1);
          HeapReset hr(lh); auto M = BM_<6, double>(A, lh); CalcInverse(M); Dense P = Mul(FromBM<6, double>(M), A), I = Zero(N); for (int i = 0; i < N; i++) I[i][i] = 1;
          vf::check(Close(P, I, 1e-9), "value", "inverse of a matrix of 6 x 6 blocks");
        }
      vf::outcome(vf::hash(str(n, g))); });
  // regularization, generalized eigenvalue of a pair, congruences
  for (int d0 = 0; d0 <= 4; d0++)
    emit(str("pair", d0), [=]() {
      VD dg { 0, 1, 2 }, od { -1, 0, 1 };
      AllSym(3, VD { 0, 1, 2, 4 }, VD { -1, 0, 1 }, [&](VD up) { if (up[0] != 0) return; up[0] = d0; Dense A = SymMat(3, up); if (!Psd(A)) return; vf::progress(S(A)); Reg<3>(A); Dense A6 = Zero(6); for (int i = 0; i < 6; i++) for (int j = 0; j < 6; j++) A6[i][j] = A[i/2][j/2]; Reg<6>(A6); });
      AllSym(2, dg, od, [&](VD up) { if (up[0] != 0) return; up[0] = d0; Dense A = SymMat(2, up); if (!Psd(A)) return; Reg<2>(A);
        AllSym(2, dg, od, [&](VD ub) { Dense B = SymMat(2, ub); if (!Psd(B)) return; AllSym(2, dg, od, [&](VD ur) { Dense R = SymMat(2, ur); vf::progress(S(A) + S(B) + S(R)); Harm<2>(A, B, R); 
          Mat<2, 2> a, b, r; for (int i = 0; i < 2; i++) for (int j = 0; j < 2; j++) { a(i, j) = A[i][j] + i; b(i, j) = B[i][j] - 2 * j; r(i, j) = R[i][j] + i * 3; } Dense Da = FromFM(a, 2), Db = FromFM(b, 2), Dr = FromFM(r, 2);
          vf::check(Close(FromFM(TripleProd(a, b, r), 2), Mul(Da, Mul(Db, Dr))), "value", "TripleProd"); vf::check(Close(FromFM(AT_B_A(a, b), 2), Mul(Trans(Da), Mul(Db, Da))), "value", "AT_B_A"); Mat<2, 2> o = r; AddTripleProd(-2, o, a, b, r); vf::check(Close(FromFM(o, 2), Comb(1, Dr, -2, Mul(Da, Mul(Db, Dr)))), "value", "AddTripleProd"); }); }); });
    });
}
