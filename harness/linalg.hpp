#pragma once
// global dense reference + assembly of distributed matrices and vectors
#include "par.hpp"
#include <utils_sparseLA.hpp>
#include <parallelvector.hpp>
#include <parallel_matrices.hpp>

namespace vh
{
typedef std::vector<VD> Dense;
inline Dense Zero (int n, int m = -1) { return Dense(n, VD(m < 0 ? n : m, 0.0)); }
inline Dense Unity (int n) { Dense I = Zero(n); for (int i = 0; i < n; i++) I[i][i] = 1; return I; }
inline VD MulV (const Dense & A, const VD & x) { VD y(A.size(), 0.0); for (size_t i = 0; i < A.size(); i++) for (size_t j = 0; j < x.size(); j++) y[i] += A[i][j] * x[j]; return y; }
inline VD MulTV (const Dense & A, const VD & x) { VD y(A.empty() ? 0 : A[0].size(), 0.0); for (size_t i = 0; i < A.size(); i++) for (size_t j = 0; j < y.size(); j++) y[j] += A[i][j] * x[i]; return y; }
inline Dense Mul (const Dense & A, const Dense & B) { int m = B.empty() ? 0 : B[0].size(); Dense C = Zero(A.size(), m); for (size_t i = 0; i < A.size(); i++) for (size_t k = 0; k < B.size(); k++) for (int j = 0; j < m; j++) C[i][j] += A[i][k] * B[k][j]; return C; }
inline Dense Trans (const Dense & A) { Dense C = Zero(A.empty() ? 0 : A[0].size(), A.size()); for (size_t i = 0; i < A.size(); i++) for (size_t j = 0; j < A[i].size(); j++) C[j][i] = A[i][j]; return C; }
inline double Dot (const VD & a, const VD & b) { double s = 0; for (size_t i = 0; i < a.size(); i++) s += a[i] * b[i]; return s; }
inline double MaxAbs (const VD & a) { double s = 0; for (double x : a) s = std::max(s, std::isfinite(x) ? std::fabs(x) : 1e300); return s; }
inline bool Close (double a, double b, double tol, double scale) { return std::isfinite(a) && std::fabs(a - b) <= tol * (scale + 1e-300); }
inline bool Close (const VD & a, const VD & b, double tol = 1e-10)
{
  if (a.size() != b.size()) return false;
  double s = std::max(1.0, std::max(MaxAbs(a), MaxAbs(b)));
  for (size_t i = 0; i < a.size(); i++) if (!Close(a[i], b[i], tol, s)) return false;
  return true;
}
// symmetric positive (semi)definite inverse by Gauss-Jordan with pivoting; returns false if singular
inline bool Invert (Dense A, Dense & X, double tol = 1e-12)
{
  int n = A.size(); X = Zero(n); for (int i = 0; i < n; i++) X[i][i] = 1;
  double sc = 0; for (auto & r : A) sc = std::max(sc, MaxAbs(r));
  for (int k = 0; k < n; k++)
    {
      int p = k; for (int i = k; i < n; i++) if (std::fabs(A[i][k]) > std::fabs(A[p][k])) p = i;
      if (std::fabs(A[p][k]) <= tol * sc) return false;
      std::swap(A[p], A[k]); std::swap(X[p], X[k]);
      double d = 1 / A[k][k]; for (int j = 0; j < n; j++) { A[k][j] *= d; X[k][j] *= d; }
      for (int i = 0; i < n; i++) if (i != k) { double f = A[i][k]; if (f) for (int j = 0; j < n; j++) { A[i][j] -= f * A[k][j]; X[i][j] -= f * X[k][j]; } }
    }
  return true;
}
// eigenvalues of a symmetric matrix (Jacobi rotations), vectors in columns of V
inline VD SymEig (Dense A, Dense * Vout = nullptr)
{
  int n = A.size(); Dense V = Zero(n); for (int i = 0; i < n; i++) V[i][i] = 1;
  for (int sweep = 0; sweep < 100; sweep++)
    {
      double off = 0, dg = 0; for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) (i == j ? dg : off) += A[i][j] * A[i][j];
      if (off <= 1e-30 * (dg + 1e-300)) break;
      for (int p = 0; p < n; p++) for (int q = p + 1; q < n; q++)
        {
          if (A[p][q] == 0) continue;
          double th = (A[q][q] - A[p][p]) / (2 * A[p][q]), t = (th >= 0 ? 1 : -1) / (std::fabs(th) + std::sqrt(th * th + 1)), c = 1 / std::sqrt(t * t + 1), s = t * c;
          for (int k = 0; k < n; k++) { double x = A[k][p], y = A[k][q]; A[k][p] = c * x - s * y; A[k][q] = s * x + c * y; }
          for (int k = 0; k < n; k++) { double x = A[p][k], y = A[q][k]; A[p][k] = c * x - s * y; A[q][k] = s * x + c * y; }
          for (int k = 0; k < n; k++) { double x = V[k][p], y = V[k][q]; V[k][p] = c * x - s * y; V[k][q] = s * x + c * y; }
        }
    }
  VD e(n); for (int i = 0; i < n; i++) e[i] = A[i][i];
  if (Vout) *Vout = V;
  return e;
}
// pseudo inverse of a symmetric matrix
inline Dense SymPinv (const Dense & A, double tol = 1e-10)
{
  Dense V; VD e = SymEig(A, &V); int n = A.size(); double m = 0; for (double x : e) m = std::max(m, std::fabs(x));
  Dense X = Zero(n);
  for (int k = 0; k < n; k++) if (std::fabs(e[k]) > tol * m) for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) X[i][j] += V[i][k] * V[j][k] / e[k];
  return X;
}

template<class TM> constexpr int BSof () { return ngbla::Height<TM>(); }
template<class TM> inline double & Ent (TM & m, int i, int j) { return m(i, j); }
template<> inline double & Ent<double> (double & m, int, int) { return m; }
template<class TM> inline double CEnt (const TM & m, int i, int j) { return m(i, j); }
template<> inline double CEnt<double> (const double & m, int, int) { return m; }

// sparse matrix from entries (row -> col -> dense block), rows sorted
template<class TM> using Entries = std::map<std::pair<int,int>, TM>;
template<class TM> shared_ptr<SparseMatrix<TM>> MakeSp (int h, int w, const Entries<TM> & e)
{
  Array<int> cnt(h); cnt = 0; for (auto & x : e) cnt[x.first.first]++;
  auto m = make_shared<SparseMatrix<TM>>(cnt, w); cnt = 0;
  for (auto & x : e) { int i = x.first.first; m->GetRowIndices(i)[cnt[i]] = x.first.second; m->GetRowValues(i)[cnt[i]++] = x.second; }
  return m;
}
template<class TM> Dense ToDense (const SparseMatrixTM<TM> & m, int bh, int bw)
{
  Dense D = Zero(m.Height() * bh, m.Width() * bw);
  for (size_t i = 0; i < (size_t)m.Height(); i++)
    { auto ri = m.GetRowIndices(i); auto rv = m.GetRowValues(i); for (size_t k = 0; k < ri.Size(); k++) for (int a = 0; a < bh; a++) for (int b = 0; b < bw; b++) D[i*bh+a][ri[k]*bw+b] += CEnt(rv[k], a, b); }
  return D;
}
template<class TM> Dense ToDense (const SparseMatrix<TM> & m) { return ToDense<TM>((const SparseMatrixTM<TM> &)m, ngbla::Height<TM>(), ngbla::Width<TM>()); }
inline Dense ToDenseOp (const BaseMatrix & m)
{
  auto c = m.CreateColVector(), r = m.CreateRowVector();   // y = m * x : x in row vector, y in col vector
  int h = c.FVDouble().Size(), w = r.FVDouble().Size();
  Dense D = Zero(h, w);
  for (int j = 0; j < w; j++) { r.FVDouble() = 0; r.FVDouble()(j) = 1; c.FVDouble() = 0; m.Mult(r, c); for (int i = 0; i < h; i++) D[i][j] = c.FVDouble()(i); }
  return D;
}

// global blocked unknown vector <-> local storage of rank r
inline VD Restrict (const Part & p, int r, const VD & g, int bs = 1) { VD v; for (int d : p.locals(r)) for (int l = 0; l < bs; l++) v.push_back(g[d*bs+l]); return v; }
inline void SetLoc (BaseVector & v, const VD & x) { auto f = v.FVDouble(); for (size_t i = 0; i < x.size(); i++) f(i) = x[i]; }
inline VD GetLoc (const BaseVector & v) { auto f = v.FVDouble(); VD x(f.Size()); for (size_t i = 0; i < x.size(); i++) x[i] = f(i); return x; }

// parts of a global value on the sharing processes: deterministic, sum to the global value, all exactly representable
inline double Share (const Part & p, int g, int r, double val, int salt = 0)
{
  auto pr = p.procs(g); if (pr.size() == 1) return val;
  double rest = val; for (size_t k = 1; k < pr.size(); k++) { double c = 0.5 * ((g * 3 + pr[k] * 5 + salt * 7) % 9 - 4); if (pr[k] == r) return c; rest -= c; }
  return rest;
}
// put the global vector into v with the given status; DISTRIBUTED: partial values
inline void SetGlobal (BaseVector & v, const Part & p, int r, const VD & g, PARALLEL_STATUS st, int bs = 1, int salt = 0)
{
  auto loc = p.locals(r); auto f = v.FVDouble();
  for (size_t i = 0; i < loc.size(); i++) for (int l = 0; l < bs; l++) f(i*bs+l) = (st == CUMULATED) ? g[loc[i]*bs+l] : Share(p, loc[i], r, g[loc[i]*bs+l], salt + l);
  v.SetParallelStatus(st);
}
// accumulate local values of all processes to the global vector (called after a run)
struct Gather
{
  const Part * p; int bs; std::vector<VD> loc; std::vector<PARALLEL_STATUS> st;
  Gather (const Part & _p, int _bs = 1) : p(&_p), bs(_bs), loc(_p.np()), st(_p.np(), DISTRIBUTED) { }
  void Put (int r, const BaseVector & v) { loc[r] = GetLoc(v); st[r] = v.GetParallelStatus(); }
  // global vector; checks that statuses agree and cumulated values are the same everywhere
  VD Get (const string & what) const
  {
    int np = p->np(), N = p->N();
    VD g(N * bs, 0.0); PARALLEL_STATUS s0 = NOT_PARALLEL; bool have = false;
    for (int r = 0; r < np; r++) { if (p->locals(r).empty()) continue; if (!have) { s0 = st[r]; have = true; } vf::check(st[r] == s0, "status", what + ": processes disagree about the parallel status"); }
    std::vector<bool> set(N * bs, false);
    for (int r = 0; r < np; r++)
      {
        auto l = p->locals(r); vf::check(loc[r].size() == l.size() * bs, "size", what + ": local vector size");
        for (size_t i = 0; i < l.size(); i++) for (int k = 0; k < bs; k++)
          {
            int d = l[i]*bs+k; double x = loc[r][i*bs+k];
            if (s0 == DISTRIBUTED) g[d] += x;
            else { if (set[d]) vf::check(g[d] == x || std::fabs(g[d] - x) <= 1e-12 * std::max(1.0, std::fabs(x)), "inconsistent", str(what, ": full value of unknown ", d, " differs between processes: ", g[d], " and ", x, " on rank ", r)); g[d] = x; set[d] = true; }
          }
      }
    return g;
  }
};

inline bool Close (const Dense & A, const Dense & B, double tol = 1e-10)
{
  double s = 1e-300; for (auto & r : B) s = std::max(s, MaxAbs(r));
  for (size_t i = 0; i < A.size(); i++) for (size_t j = 0; j < A[i].size(); j++) if (!Close(A[i][j], B[i][j], tol, s)) return false;
  return true;
}
inline string S (const Dense & A) { string s; for (auto & r : A) s += S(r); return s; }

} // namespace vh
