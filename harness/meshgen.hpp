#pragma once
// distributed algebraic meshes: global description, construction through the real code, and comparison with the reference
#include "par.hpp"
#include <base_mesh.hpp>
#include <alg_mesh.hpp>

namespace vh
{
struct GEdge { int u, v, know; };    // know: mask of processes that know the edge when the mesh is set up (subset of mask[u] & mask[v])
struct MeshDesc
{
  Part p; std::vector<GEdge> edges; bool rev = false;   // rev: processes hand in their edges in differing orders
  string str () const { string s = p.str() + (rev ? "r" : "") + "e"; for (auto & e : edges) s += std::to_string(e.u) + "-" + std::to_string(e.v) + (e.know == (p.mask[e.u] & p.mask[e.v]) ? "" : "k" + std::to_string(e.know)) + ","; return s; }
};
// vertices of process r in mesh numbering (global numbers), and the mesh
struct LocMesh { shared_ptr<BlockTM> m; shared_ptr<EQCHierarchy> eqc; VI g; VI ids; };   // g[v] = global vertex; ids[k] = mesh edge of k-th edge handed in

inline LocMesh MakeMesh (const MeshDesc & d, int r, shared_ptr<ParallelDofs> pd = nullptr)
{
  LocMesh L; const Part & p = d.p;
  if (!pd) pd = MakePD(p, r);
  L.eqc = make_shared<EQCHierarchy>(pd, true);
  L.m = make_shared<BlockTM>(L.eqc);
  auto loc = p.locals(r); VI sort(loc.size(), -1), inv(p.N(), -1);
  L.m->SetVs(loc.size(), [&](auto v) -> FlatArray<int> { return pd->GetDistantProcs(v); }, [&](auto i, auto j) { sort[i] = j; });
  L.g.assign(loc.size(), -1);
  for (size_t i = 0; i < loc.size(); i++)
    {
      vf::check(sort[i] >= 0 && sort[i] < (int)loc.size() && L.g[sort[i]] == -1, "vertex", str("rank ", r, ": vertex sorting is not a permutation"));
      L.g[sort[i]] = loc[i]; inv[loc[i]] = sort[i];
    }
  std::vector<IVec<2,int>> es;
  for (auto & e : d.edges) if (e.know >> (r - p.first) & 1 && r >= p.first) { IVec<2,int> v(inv[e.u], inv[e.v]); if (v[0] > v[1]) std::swap(v[0], v[1]); es.push_back(v); }
  if (d.rev && r % 2) std::reverse(es.begin(), es.end());
  L.ids.assign(es.size(), -1);
  L.m->SetNodes<NT_EDGE>(es.size(), [&](auto k) { return es[k]; }, [&](auto i, auto j) { L.ids[i] = j; });
  for (size_t k = 0; k < es.size(); k++)
    {
      int id = L.ids[k];
      vf::check(id >= 0 && id < (int)L.m->GetNN<NT_EDGE>(), "edge", str("rank ", r, ": edge ", k, " mapped to ", id));
      auto ed = L.m->GetNode<NT_EDGE>(id);
      vf::check(ed.v[0] == es[k][0] && ed.v[1] == es[k][1], "edge", str("rank ", r, ": edge (", L.g[es[k][0]], ",", L.g[es[k][1]], ") handed in, mapped to edge (", L.g[ed.v[0]], ",", L.g[ed.v[1]], ")"));
    }
  return L;
}
} // namespace vh
