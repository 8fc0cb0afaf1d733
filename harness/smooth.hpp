#pragma once
// reference smoothers on dense matrices and the generic oracle for one smoother object
#include "linalg.hpp"
#include <base_smoother.hpp>

namespace vh
{
// one sub-space correction: x[d] += om * inv * (b - A x)[d]
struct Corr { VI d; Dense inv; };
inline void ApplyCorr (const Dense & A, const Corr & c, VD & x, const VD & b, double om = 1)
{
  VD r(c.d.size()); for (size_t i = 0; i < r.size(); i++) { r[i] = b[c.d[i]]; for (size_t j = 0; j < x.size(); j++) r[i] -= A[c.d[i]][j] * x[j]; }
  for (size_t i = 0; i < r.size(); i++) for (size_t j = 0; j < r.size(); j++) x[c.d[i]] += om * c.inv[i][j] * r[j];
}
// operator C with x' = x + C (b - A x) of a sequence of corrections
inline Dense SweepOp (const Dense & A, const std::vector<Corr> & seq, double om = 1)
{
  int N = A.size(); Dense C = Zero(N);
  for (int k = 0; k < N; k++) { VD b(N, 0.0), x(N, 0.0); b[k] = 1; for (auto & c : seq) ApplyCorr(A, c, x, b, om); for (int i = 0; i < N; i++) C[i][k] = x[i]; }
  return C;
}
inline Corr MakeCorr (const Dense & A, const VI & d, bool pinv, const VD * diag = nullptr)
{
  Corr c; c.d = d; Dense B = Zero(d.size()); for (size_t i = 0; i < d.size(); i++) for (size_t j = 0; j < d.size(); j++) B[i][j] = A[d[i]][d[j]];
  if (diag) for (size_t i = 0; i < d.size(); i++) B[i][i] = (*diag)[d[i]];
  if (pinv) c.inv = SymPinv(B); else vf::check(Invert(B, c.inv), "harness", "singular block in the reference");
  return c;
}
inline VD Step (const Dense & A, const Dense & C, const VD & x, const VD & b)
{ VD r = MulV(A, x); for (size_t i = 0; i < r.size(); i++) r[i] = b[i] - r[i]; VD u = MulV(C, r); for (size_t i = 0; i < r.size(); i++) u[i] += x[i]; return u; }
inline VD Resid (const Dense & A, const VD & x, const VD & b) { VD r = MulV(A, x); for (size_t i = 0; i < r.size(); i++) r[i] = b[i] - r[i]; return r; }

typedef std::pair<Dense,Dense> FB;   // operators of the forward and of the backward sweep
// all orders of the given corrections, backward reversed
inline std::vector<FB> AllOrders (const Dense & A, std::vector<Corr> seq, double om = 1)
{
  VI pm(seq.size()); for (size_t i = 0; i < pm.size(); i++) pm[i] = i;
  std::vector<FB> out;
  do { std::vector<Corr> s; for (int k : pm) s.push_back(seq[k]); Dense f = SweepOp(A, s, om); std::reverse(s.begin(), s.end()); out.push_back({ f, SweepOp(A, s, om) }); }
  while (std::next_permutation(pm.begin(), pm.end()));
  return out;
}
inline FB InOrder (const Dense & A, std::vector<Corr> s, double om = 1) { Dense f = SweepOp(A, s, om); std::reverse(s.begin(), s.end()); return { f, SweepOp(A, s, om) }; }

// ------------------------------------------------------------ test matrices
// symmetric matrix of a weighted graph; block contributions w [P^T P, P^T Q; Q^T P, Q^T Q]
struct Graph { int n; VD w; VD shift; string id; int vec = 0; std::vector<std::array<double,3>> pos; };  // w: per pair (i<j) in lexicographic order; vec: 2, 3: elastic bars in 2d, 3d; 12, 13: two or three coupled components
inline int PairNo (int n, int i, int j) { if (i > j) std::swap(i, j); int k = 0; for (int a = 0; a < n; a++) for (int b = a + 1; b < n; b++, k++) if (a == i && b == j) return k; return -1; }
// kind 0: full blocks, 1: last component unused (singular diagonals), 2: rank-one contributions along a fixed direction (singular diagonals)
inline Dense GraphMat (const Graph & g, int bs, int kind = 0)
{
  int n = g.n; Dense A = Zero(n * bs);
  auto add = [&](int i, int j, const Dense & P, const Dense & Q, double w) {
    for (int a = 0; a < bs; a++) for (int b = 0; b < bs; b++) for (int k = 0; k < bs; k++)
      { A[i*bs+a][i*bs+b] += w * P[k][a] * P[k][b]; A[i*bs+a][j*bs+b] += w * P[k][a] * Q[k][b]; A[j*bs+a][i*bs+b] += w * Q[k][a] * P[k][b]; A[j*bs+a][j*bs+b] += w * Q[k][a] * Q[k][b]; }
  };
  int e = 0;
  for (int i = 0; i < n; i++) for (int j = i + 1; j < n; j++, e++)
    {
      double w = g.w[e]; if (w == 0) continue;
      double sg = w < 0 ? 1 : -1; w = std::fabs(w);
      Dense P = Zero(bs), Q = Zero(bs);
      if (kind == 2) { for (int a = 0; a < bs; a++) { P[0][a] = 1 + 0.5 * a; Q[0][a] = sg * (1 + 0.5 * a); } }
      else for (int a = 0; a < bs; a++) for (int b = 0; b < bs; b++) { P[a][b] = a == b ? 1 : a < b ? 0.25 * (1 + (i + b) % 2) : 0; Q[a][b] = a == b ? sg : a > b ? 0.25 * (1 - (j + a) % 3) : 0; if (kind == 1 && bs > 1 && b == bs - 1) P[a][b] = Q[a][b] = 0; }
      add(i, j, P, Q, w);
    }
  for (int i = 0; i < n; i++) if (g.shift[i] != 0)
    for (int a = 0; a < bs; a++) for (int b = 0; b < bs; b++)
      {
        double v = a == b ? 1 + 0.25 * a : 0.125;
        if (kind == 1 && bs > 1 && (a == bs - 1 || b == bs - 1)) v = 0;
        if (kind == 2) v = (1 + 0.5 * a) * (1 + 0.5 * b);
        A[i*bs+a][i*bs+b] += g.shift[i] * v;
      }
  return A;
}
template<class TM> shared_ptr<SparseMatrix<TM>> SpOf (const Dense & A, bool allDiag = true)
{
  constexpr int BS = BSof<TM>(); int n = A.size() / BS; Entries<TM> e;
  for (int i = 0; i < n; i++) for (int j = 0; j < n; j++)
    { bool nz = allDiag && i == j; TM m; for (int a = 0; a < BS; a++) for (int b = 0; b < BS; b++) { Ent(m, a, b) = A[i*BS+a][j*BS+b]; nz = nz || A[i*BS+a][j*BS+b] != 0; } if (nz) e[{ i, j }] = m; }
  return MakeSp<TM>(n, n, e);
}
inline shared_ptr<BitArray> Mask (int n, int m) { auto b = make_shared<BitArray>(n); b->Clear(); for (int i = 0; i < n; i++) if (m >> i & 1) b->SetBit(i); return b; }
inline Table<int> MakeTable (const std::vector<VI> & t) { TableCreator<int> c(t.size()); for (; !c.Done(); c++) for (size_t i = 0; i < t.size(); i++) for (int x : t[i]) c.Add(i, x); return c.MoveTable(); }
inline VI Scal (const VI & d, int bs) { VI s; for (int x : d) for (int a = 0; a < bs; a++) s.push_back(x * bs + a); return s; }

// graphs on n vertices from the weight alphabet; shifts: 0 everywhere positive, 1 only at vertex 0 (singular components possible)
inline std::vector<Graph> Graphs (int n, VD alphabet, int shiftKind)
{
  int m = n * (n - 1) / 2; std::vector<Graph> out; VI idx(m, 0);
  for (;;)
    {
      Graph g; g.n = n; g.id = str("n", n, "g"); for (int e = 0; e < m; e++) { g.w.push_back(alphabet[idx[e]]); g.id += char('0' + idx[e]); } g.id += str("s", shiftKind);
      for (int i = 0; i < n; i++) g.shift.push_back(shiftKind == 0 ? 0.5 + 0.25 * i : i == 0 ? 1.0 : 0.0);
      out.push_back(g);
      int k = m - 1; while (k >= 0 && ++idx[k] == (int)alphabet.size()) idx[k--] = 0;
      if (k < 0) break;
    }
  return out;
}

// ------------------------------------------------------------ the oracle for a smoother that is not distributed
struct SmTest
{
  static inline int mode = 1;   // 1: one-step correctness, 2: adjointness and energy
  bool contraction = true;      // the method promises not to increase the energy
  Dense A; int N; BaseSmoother & sm; string nm; FB op;
  SmTest (string n, BaseSmoother & s, const Dense & a) : A(a), N(a.size()), sm(s), nm(n) { }
  struct R { VD x, res, b; };
  R Call (int what, int k, const VD & x, const VD & b, const VD & res, bool ru, bool ur, bool xz)
  {
    auto vx = sm.CreateColVector(), vb = sm.CreateColVector(), vr = sm.CreateColVector();
    vf::check((int)vx.FVDouble().Size() == N, "size", nm + ": vector size");
    SetLoc(vx, x); SetLoc(vb, b); SetLoc(vr, res);
    switch (what) {
      case 0: if (k < 0) sm.Smooth(vx, vb, vr, ru, ur, xz); else sm.SmoothK(k, vx, vb, vr, ru, ur, xz); break;
      case 1: if (k < 0) sm.SmoothBack(vx, vb, vr, ru, ur, xz); else sm.SmoothBackK(k, vx, vb, vr, ru, ur, xz); break;
      case 2: if (k < 0) sm.SmoothSymm(vx, vb, vr, ru, ur, xz); else sm.SmoothSymmK(k, vx, vb, vr, ru, ur, xz); break;
    }
    vf::transitions();
    return { GetLoc(vx), GetLoc(vr), GetLoc(vb) };
  }
  Dense Operator (int what)
  {
    Dense C = Zero(N); VD z(N, 0.0), gb(N, 7.5);
    for (int j = 0; j < N; j++) { VD b(N, 0.0); b[j] = 1; auto r = Call(what, -1, z, b, gb, false, false, false); for (int i = 0; i < N; i++) C[i][j] = r.x[i]; }
    return C;
  }
  void Match (const std::vector<FB> & cand)
  {
    if (mode == 2) { Adjoint(); if (contraction) Energy(); return; }
    Dense f = Operator(0), b = Operator(1);
    for (auto & c : cand) if (Close(f, c.first, 1e-9) && Close(b, c.second, 1e-9)) { op = c; return; }
    bool ff = false; for (auto & c : cand) ff = ff || Close(f, c.first, 1e-9);
    vf::fail("method", str(nm, ": not the advertised correction", ff ? " (backward is not the reverse of forward)" : "", ": forward ", S(f), " backward ", S(b), " expected e.g. ", S(cand[0].first), " / ", S(cand[0].second)));
  }
  VD Expect (int what, int k, VD x, const VD & b)
  {
    for (int s = 0; s < std::max(k, 1); s++)
      { if (what != 1) x = Step(A, op.first, x, b); if (what != 0) x = Step(A, op.second, x, b); }
    return x;
  }
  void Hints (bool multi, int seqLen)
  {
    if (mode == 2) return;
    VD gb(N), b(N), x0(N); for (int i = 0; i < N; i++) { gb[i] = 100 + i; b[i] = (i * 5 % 7) - 2.5; x0[i] = (i * 3 % 5) - 1.25; }
    VD z(N, 0.0);
    VI ks = { -1 }; if (multi) for (int k : { 1, 2, 3 }) ks.push_back(k);
    for (int k : ks) for (int what = 0; what < 3; what++) for (int ru = 0; ru < 2; ru++) for (int ur = 0; ur < 2; ur++) for (int xz = 0; xz < 2; xz++)
      {
        const VD & x = xz ? z : x0; VD res = ru ? Resid(A, x, b) : gb;
        auto r = Call(what, k, x, b, res, ru, ur, xz); VD want = Expect(what, k, x, b);
        static const char * w3[] = { "Smooth", "SmoothBack", "SmoothSymm" };
        string h = str(nm, ": ", w3[what], k < 0 ? string() : str("K(", k, ")"), " res_updated=", ru, " update_res=", ur, " x_zero=", xz);
        vf::check(Close(r.x, want, 1e-8), "iterate", str(h, ": got ", S(r.x), " expected ", S(want)));
        if (ur) { VD wr = Resid(A, r.x, b); vf::check(Close(r.res, wr, 1e-8), "residual", str(h, ": residual ", S(r.res), " but b-Ax is ", S(wr), " x ", S(r.x), " A ", S(A))); }
        vf::check(r.b == b, "rhs changed", h);
        // a solution stays fixed
        if (k < 0 && !xz) { VD bs = MulV(A, x0); VD rs = ru ? z : gb; auto q = Call(what, k, x0, bs, rs, ru, ur, false); vf::check(Close(q.x, x0, 1e-9), "fixed point", str(h, ": the solution ", S(x0), " was changed to ", S(q.x))); }
      }
    // sequences of steps on the same vectors
    if (seqLen)
      {
        int tot = 1; for (int i = 0; i < seqLen; i++) tot *= 4;
        for (int xz = 0; xz < 2; xz++) for (int c = 0; c < tot; c++)
          {
            auto vx = sm.CreateColVector(), vb = sm.CreateColVector(), vr = sm.CreateColVector(); VD x = xz ? z : x0; SetLoc(vx, x); SetLoc(vb, b); SetLoc(vr, gb);
            bool ru = false; int q = c; string h = nm + ": sequence";
            for (int s = 0; s < seqLen; s++, q /= 4)
              {
                bool bw = q & 1, ur = q & 2; if (bw) sm.SmoothBack(vx, vb, vr, ru, ur, s == 0 && xz); else sm.Smooth(vx, vb, vr, ru, ur, s == 0 && xz);
                ru = ur; x = Step(A, bw ? op.second : op.first, x, b); h += str(bw ? " B" : " F", ur); vf::transitions();
                vf::check(Close(GetLoc(vx), x, 1e-8), "iterate", str(h, ": got ", S(GetLoc(vx)), " expected ", S(x)));
                if (ur) vf::check(Close(GetLoc(vr), Resid(A, x, b), 1e-8), "residual", str(h, ": residual ", S(GetLoc(vr)), " but b-Ax is ", S(Resid(A, x, b))));
              }
            vf::check(GetLoc(vb) == b, "rhs changed", h);
          }
      }
  }
  // forward and backward are adjoint; energy of the error does not grow
  void Adjoint (bool exactTranspose = true)
  {
    op = { Operator(0), Operator(1) };
    if (exactTranspose) vf::check(Close(op.second, Trans(op.first), 1e-9), "adjoint", str(nm, ": backward ", S(op.second), " is not the transpose of forward ", S(op.first)));
  }
  void Energy () { for (int d = 0; d < 2; d++) EnergyOf(nm, A, d ? op.second : op.first); }
  static void EnergyOf (const string & nm, const Dense & A, const Dense & C)
  {
    int N = A.size(); Dense E = Mul(C, A); for (int i = 0; i < N; i++) for (int j = 0; j < N; j++) E[i][j] = (i == j) - E[i][j];
    Dense D = Mul(Trans(E), Mul(A, E)); double sc = 0; for (int i = 0; i < N; i++) { for (int j = 0; j < N; j++) D[i][j] = A[i][j] - D[i][j]; sc = std::max(sc, MaxAbs(A[i])); }
    for (int i = 0; i < N; i++) for (int j = 0; j < i; j++) D[i][j] = D[j][i] = 0.5 * (D[i][j] + D[j][i]);
    for (double e : SymEig(D)) vf::check(e >= -1e-9 * sc, "energy", str(nm, ": the energy of some error increases (eigenvalue ", e, " of A - E'AE)"));
  }
};
} // namespace vh
