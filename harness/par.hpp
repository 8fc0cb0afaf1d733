#pragma once
// helpers shared by the harnesses: partitions of global unknowns over simulated processes
#include <base.hpp>
#include <universal_dofs.hpp>
#include <mpiwrap_extension.hpp>
#include <eqchierarchy.hpp>
#include <utils_arrays_tables.hpp>
#include <vf.hpp>
#include <vector>
#include <array>
#include <string>
#include <map>
#include <set>
#include <algorithm>

namespace vh
{
using namespace amg;
typedef std::vector<int> VI;
typedef std::vector<double> VD;
using std::string;
using vf::str;

inline NgsAMG_Comm World () { return NgsAMG_Comm(NgMPI_Comm(NG_MPI_COMM_WORLD)); }

// global unknown g lives on the processes first+b, b in bits of mask[g]
struct Part
{
  int W = 1;          // working processes
  int first = 1;      // rank of first working process (1: rank 0 idle)
  VI mask;
  std::vector<VI> order;   // the unknowns of each process in its own order, if that is not ascending
  int N () const { return mask.size(); }
  int np () const { return W + first; }
  bool on (int g, int r) const { int b = r - first; return b >= 0 && b < W && (mask[g] >> b & 1); }
  VI locals (int r) const { if (!order.empty()) return order[r]; VI v; for (int g = 0; g < N(); g++) if (on(g, r)) v.push_back(g); return v; }
  VI procs (int g) const { VI v; for (int b = 0; b < W; b++) if (mask[g] >> b & 1) v.push_back(b + first); return v; }
  VI dps (int g, int r) const { VI v; for (int p : procs(g)) if (p != r) v.push_back(p); return v; }
  int master (int g) const { return procs(g)[0]; }
  string str () const { string s = "W" + std::to_string(W) + (first ? "" : "n") + "["; for (int m : mask) s += std::to_string(m) + "."; s.back() = ']'; return s; }
};

inline Table<int> DPTable (const Part & p, int r)
{
  auto loc = p.locals(r);
  TableCreator<int> c(loc.size());
  for (; !c.Done(); c++)
    for (size_t i = 0; i < loc.size(); i++)
      for (int q : p.dps(loc[i], r)) c.Add(i, q);
  return c.MoveTable();
}
inline shared_ptr<ParallelDofs> MakePD (const Part & p, int r, int bs = 1)
{ return make_shared<ParallelDofs>(NgMPI_Comm(NG_MPI_COMM_WORLD), DPTable(p, r), bs, false); }

// all partitions of N unknowns over W working processes (every mask)
template<class F> void AllParts (int W, int N, F f, int first = 1)
{
  int M = (1 << W) - 1;
  Part p; p.W = W; p.first = first; p.mask.assign(N, 1);
  for (;;)
    {
      f(p);
      int k = N - 1;
      while (k >= 0 && p.mask[k] == M) { p.mask[k] = 1; k--; }
      if (k < 0) return;
      p.mask[k]++;
    }
}
// only non-decreasing mask sequences
template<class F> void SortedParts (int W, int N, F f, int first = 1)
{ AllParts(W, N, [&](const Part & p) { for (int i = 1; i < p.N(); i++) if (p.mask[i] < p.mask[i-1]) return; f(p); }, first); }

// partitions that use every process and that cannot be renamed into an earlier one
inline bool Canonical (const Part & p)
{
  VI pm(p.W); for (int i = 0; i < p.W; i++) pm[i] = i;
  do
    {
      VI m; for (int x : p.mask) { int y = 0; for (int b = 0; b < p.W; b++) if (x >> b & 1) y |= 1 << pm[b]; m.push_back(y); }
      if (m < p.mask) return false;
    } while (std::next_permutation(pm.begin(), pm.end()));
  return true;
}

inline string S (const VI & v) { string s = "{"; for (size_t i = 0; i < v.size(); i++) s += (i ? "," : "") + std::to_string(v[i]); return s + "}"; }
inline string S (const VD & v) { std::stringstream s; s.precision(12); s << "{"; for (size_t i = 0; i < v.size(); i++) s << (i ? "," : "") << v[i]; s << "}"; return s.str(); }
template<class T> VI ToVI (const T & a) { VI v; for (auto x : a) v.push_back(int(x)); return v; }

// run body under all MPI semantics variants of n processes
inline void Par (int n, const std::function<void(int)> & body, const std::function<void()> & after = nullptr, const std::function<void()> & before = nullptr, bool full = true)
{
  for (auto & o : vf::modes(n, full))
    { vf::Explore ex; ex.opt = o; ex(body, after, before); }
}

// all ways of gathering W working processes into groups (idle rank 0 on its own), and everything on rank 0
template<class F> void ForGroups (int W, F f)
{
  VI a(W, 0);
  std::function<void(int,int)> rec = [&](int k, int m) {
    if (k == W) { std::vector<VI> g(m + 1); g[0] = { 0 }; for (int i = 0; i < W; i++) g[a[i] + 1].push_back(i + 1); f(g); return; }
    for (int x = 0; x <= m; x++) { a[k] = x; rec(k + 1, std::max(m, x + 1)); }
  };
  a[0] = 0; rec(1, 1);
  std::vector<VI> all(1); for (int i = 0; i <= W; i++) all[0].push_back(i); f(all);
}
inline string GS (const std::vector<VI> & g) { string s = "g"; for (auto & x : g) { for (int y : x) s += std::to_string(y); s += "."; } return s; }
} // namespace vh
