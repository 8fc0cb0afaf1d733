#pragma once
#include "smooth.hpp"
namespace vh
{
// ------------------------------------------------------------ a matrix distributed over processes
// edge e of the graph is held by the processes hold[e] (fractions of its weight)
struct Dist { Part p; int bs; Graph g; std::vector<VI> hold; Dense A; std::vector<Dense> loc; std::vector<std::set<std::pair<int,int>>> pat; };
inline double Frac (int k, int m) { return m == 1 ? 1 : k == 0 ? 0.25 : k == m - 1 ? 1.25 - 0.5 * (m - 1) : 0.5; }
inline Dist MakeDist (const Part & p, const Graph & g, const std::vector<VI> & hold, int bs, int kind = 0)
{
  Dist D; D.p = p; D.bs = bs; D.g = g; D.hold = hold; D.A = GraphMat(g, bs, kind); D.pat.resize(p.np());
  for (int r = 0; r < p.np(); r++)
    {
      Graph q = g; int e = 0;
      for (int i = 0; i < g.n; i++) for (int j = i + 1; j < g.n; j++, e++)
        { auto & h = hold[e]; auto it = std::find(h.begin(), h.end(), r); q.w[e] = it == h.end() ? 0 : g.w[e] * Frac(it - h.begin(), h.size()); if (it != h.end()) { D.pat[r].insert({ i, j }); D.pat[r].insert({ j, i }); } }
      for (int i = 0; i < g.n; i++) { auto pr = p.procs(i); auto it = std::find(pr.begin(), pr.end(), r); q.shift[i] = it == pr.end() ? 0 : g.shift[i] * Frac(it - pr.begin(), pr.size()); if (it != pr.end()) D.pat[r].insert({ i, i }); }
      D.loc.push_back(GraphMat(q, bs, kind));
    }
  return D;
}
template<class TM> shared_ptr<ParallelMatrix> ParMat (const Dist & D, int r)
{
  constexpr int BS = BSof<TM>(); auto l = D.p.locals(r); Entries<TM> e;
  for (size_t i = 0; i < l.size(); i++) for (size_t j = 0; j < l.size(); j++) if (D.pat[r].count({ l[i], l[j] }))
    { TM m; for (int a = 0; a < BS; a++) for (int b = 0; b < BS; b++) Ent(m, a, b) = D.loc[r][l[i]*BS+a][l[j]*BS+b]; e[{ int(i), int(j) }] = m; }
  auto sp = MakeSp<TM>(l.size(), l.size(), e); auto pd = MakePD(D.p, r, BS); return make_shared<ParallelMatrix>(sp, pd, pd);
}
} // namespace vh
