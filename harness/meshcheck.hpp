#pragma once
// comparison of a distributed mesh with the global graph
#include "meshgen.hpp"
namespace vh
{
typedef std::pair<int,int> PII;
struct RView { std::vector<VI> dps; VI ids; std::vector<VI> verts; std::vector<std::vector<PII>> in, cross; size_t nvg, neg; bool used = false; };

static double VDat (int g, int r) { return 1 + g + 100 * r; }
static double EDat (int u, int v, int r) { return 7 * u + 3 * v + 1000 * r + 5; }

// what process r of the partition has to see; has(e): the edge exists
inline void CheckLocal (const Part & p, const std::vector<GEdge> & edges, const BlockTM & m, EQCHierarchy & e, const VI & lg, int r, RView & W)
{
    W = RView();
    auto has = [&](const GEdge & e) { return e.know != 0; };
    int n = e.GetNEQCS(); W.used = true;
    vf::check((int)m.GetNEqcs() == n, "eqcs", str("rank ", r, ": ", m.GetNEqcs(), " of ", n));
    W.nvg = m.GetNNGlobal<NT_VERTEX>(); W.neg = m.GetNNGlobal<NT_EDGE>();
    if (n == 0) { vf::check(p.locals(r).empty(), "eqcs", str("rank ", r, " without classes")); return; }
    size_t nv = p.locals(r).size();
    vf::check(m.GetNN<NT_VERTEX>() == nv && m.GetNodes<NT_VERTEX>().Size() == nv && m.GetENN<NT_VERTEX>() == nv, "count", str("rank ", r, ": ", m.GetNN<NT_VERTEX>(), " vertices"));
    // classes of vertices
    size_t cnt = 0;
    for (int k = 0; k < n; k++)
      {
        W.dps.push_back(ToVI(e.GetDistantProcs(k))); W.ids.push_back(e.GetEQCID(k)); W.verts.push_back(VI());
        vf::check(m.GetENN<NT_VERTEX>(k) == m.GetENodes<NT_VERTEX>(k).Size(), "count", "vertices of a class");
        for (auto v : m.GetENodes<NT_VERTEX>(k))
          {
            vf::check((size_t)v == cnt++, "order", str("rank ", r, ": vertex ", v, " out of order"));
            W.verts.back().push_back(lg[v]);
            vf::check(p.dps(lg[v], r) == W.dps.back(), "class", str("rank ", r, ": vertex ", lg[v], " in class ", S(W.dps.back())));
            vf::check((int)m.GetEQCOfNode<NT_VERTEX>(v) == k, "class", str("rank ", r, ": GetEQCOfNode(", v, ")"));
            auto t = m.MapNodeToEQLNR<NT_VERTEX>(v);
            vf::check(std::get<0>(t) == k && std::get<1>(t) == (int)W.verts.back().size() - 1 && m.MapENodeFromEQC<NT_VERTEX>(std::get<1>(t), k) == v, "class", "MapNodeToEQLNR");
          }
      }
    vf::check(cnt == nv, "count", "");
    // edges
    std::set<PII> want, have;
    for (auto & ed : edges) if (has(ed) && p.on(ed.u, r) && p.on(ed.v, r)) want.insert(PII(std::min(ed.u, ed.v), std::max(ed.u, ed.v)));
    size_t ne = m.GetNN<NT_EDGE>();
    vf::check(ne == m.GetNodes<NT_EDGE>().Size() && m.GetENN<NT_EDGE>() + m.GetCNN<NT_EDGE>() == ne, "count", str("rank ", r, ": ", ne, " edges"));
    auto edge = [&](const AMG_Node<NT_EDGE> & x) {
      vf::check(x.v[0] >= 0 && x.v[1] < (int)nv && x.v[0] < x.v[1], "edge", str("rank ", r, ": edge (", x.v[0], ",", x.v[1], ")"));
      int a = lg[x.v[0]], b = lg[x.v[1]];
      vf::check(m.GetNode<NT_EDGE>(x.id).v == x.v && m.GetNode<NT_EDGE>(x.id).id == x.id, "edge", "number of an edge");
      return PII(a, b); };
    cnt = 0;
    for (int k = 0; k < n; k++) for (int c = 0; c < 2; c++)
      {
        auto nodes = c ? m.GetCNodes<NT_EDGE>(k) : m.GetENodes<NT_EDGE>(k);
        vf::check((c ? m.GetCNN<NT_EDGE>(k) : m.GetENN<NT_EDGE>(k)) == nodes.Size(), "count", "edges of a class");
        (c ? W.cross : W.in).push_back({}); auto & L2 = (c ? W.cross : W.in).back();
        int pos = 0;
        for (auto & x : nodes)
          {
            PII q = edge(x); L2.push_back(q); PII s(std::min(q.first, q.second), std::max(q.first, q.second));
            vf::check(have.insert(s).second, "duplicate", str("rank ", r, ": edge ", s.first, "-", s.second, " twice"));
            VI A = p.dps(q.first, r), B = p.dps(q.second, r), I; std::set_intersection(A.begin(), A.end(), B.begin(), B.end(), back_inserter(I));
            vf::check(I == W.dps[k], "class", str("rank ", r, ": edge ", s.first, "-", s.second, " in class ", S(W.dps[k]), " instead of ", S(I)));
            vf::check((A == B) == !c, "class", str("rank ", r, ": edge ", s.first, "-", s.second, c ? " among the edges between classes" : " among the edges inside a class"));
            vf::check((int)m.GetEQCOfNode<NT_EDGE>(x.id) == k, "class", str("rank ", r, ": GetEQCOfNode of edge ", x.id));
            auto t = m.MapNodeToEQLNR<NT_EDGE>(x.id);
            vf::check(std::get<0>(t) == k && std::get<1>(t) == pos, "class", str("rank ", r, ": MapNodeToEQLNR of edge ", x.id, ": ", std::get<0>(t), " ", std::get<1>(t)));
            vf::check((c ? m.MapCNodeFromEQC<NT_EDGE>(pos, k) : m.MapENodeFromEQC<NT_EDGE>(pos, k)) == x.id, "class", "MapNodeFromEQC");
            pos++;
          }
      }
    for (auto & w : want) vf::check(have.count(w), "lost", str("rank ", r, ": edge ", w.first, "-", w.second, " lost"));
    for (auto & h : have) vf::check(want.count(h), "foreign", str("rank ", r, ": edge ", h.first, "-", h.second, " nobody handed in"));
    // connectivity matrix
    auto cm = m.GetEdgeCM(); size_t nz = 0;
    vf::check(cm->Height() == (int)nv && cm->Width() == (int)nv, "connectivity", "size");
    for (size_t v = 0; v < nv; v++)
      {
        auto ri = cm->GetRowIndices(v); auto rv = cm->GetRowValues(v); nz += ri.Size();
        for (size_t j = 0; j < ri.Size(); j++)
          {
            vf::check(j == 0 || ri[j-1] < ri[j], "connectivity", "order");
            auto x = m.GetNode<NT_EDGE>(int(rv[j]));
            vf::check(PII(x.v[0], x.v[1]) == PII(std::min<int>(v, ri[j]), std::max<int>(v, ri[j])), "connectivity", str("rank ", r, ": (", v, ",", ri[j], ") -> edge ", rv[j]));
          }
      }
    vf::check(nz == 2 * ne, "connectivity", str("rank ", r, ": ", nz, " entries for ", ne, " edges"));
    // loops
    size_t a1 = 0, a2 = 0, a3 = 0, want1 = 0;
    m.Apply<NT_EDGE>([&](const auto & x) { a1++; }, true); m.Apply<NT_EDGE>([&](const auto & x) { a2++; }, false);
    m.ApplyEQ<NT_EDGE>([&](auto k, const auto & x) { a3++; vf::check((int)m.GetEQCOfNode<NT_EDGE>(x.id) == (int)k, "loop", "class"); });
    for (int k = 0; k < n; k++) if (W.dps[k].empty() || W.dps[k][0] > r) want1 += m.GetENN<NT_EDGE>(k) + m.GetCNN<NT_EDGE>(k);
    vf::check(a1 == want1 && a2 == ne && a3 == ne, "loop", str("rank ", r, ": loops over edges visit ", a1, " ", a2, " ", a3, " of ", ne));
    // data: the master's values everywhere; sums over all members
    Array<double> vd(nv), es(ne), ea(ne), va(nv);
    auto procs = [&](PII q) { VI I; auto A = p.procs(q.first), B = p.procs(q.second); std::set_intersection(A.begin(), A.end(), B.begin(), B.end(), back_inserter(I)); return I; };
    auto pe = [&](size_t k) { auto x = m.GetNode<NT_EDGE>(k); return PII(lg[x.v[0]], lg[x.v[1]]); };
    auto ev = [&](PII q, int r) { return EDat(std::min(q.first, q.second), std::max(q.first, q.second), r); };
    for (size_t v = 0; v < nv; v++) vd[v] = va[v] = VDat(lg[v], r);
    for (size_t k = 0; k < ne; k++) es[k] = ea[k] = ev(pe(k), r);
    m.ScatterNodalData<NT_VERTEX>(vd); m.ScatterNodalData<NT_EDGE>(es);
    for (size_t v = 0; v < nv; v++) vf::check(vd[v] == VDat(lg[v], p.master(lg[v])), "scatter", str("rank ", r, ": vertex ", lg[v], " has ", vd[v]));
    for (size_t k = 0; k < ne; k++) vf::check(es[k] == ev(pe(k), procs(pe(k))[0]), "scatter", str("rank ", r, ": edge ", k, " has ", es[k]));
    auto sum = [](auto & tab) { return std::move(sum_table(tab)); };
    for (int loc = 0; loc < 2; loc++)
      {
        m.AllreduceNodalData<NT_VERTEX>(va, sum, loc); m.AllreduceNodalData<NT_EDGE>(ea, sum, loc);
        for (size_t v = 0; v < nv; v++) { double s = 0; for (int q : p.procs(lg[v])) s += VDat(lg[v], q); vf::check(va[v] == s, "allreduce", str("rank ", r, ": vertex ", lg[v], " has ", va[v], " instead of ", s)); va[v] = VDat(lg[v], r); }
        for (size_t k = 0; k < ne; k++) { double s = 0; for (int q : procs(pe(k))) s += ev(pe(k), q); vf::check(ea[k] == s, "allreduce", str("rank ", r, ": edge ", k, " has ", ea[k], " instead of ", s)); ea[k] = ev(pe(k), r); }
      }
}
// the views of all processes together
inline void CheckViews (const Part & p, const std::vector<GEdge> & edges, const std::vector<RView> & VW)
{
    int np = VW.size(); auto has = [&](const GEdge & e) { return e.know != 0; };
    size_t nvg = 0, neg = 0; for (int g = 0; g < p.N(); g++) nvg++;
    for (auto & e : edges) if (has(e)) neg++;
    std::map<VI, std::pair<VI, std::pair<std::vector<PII>, std::vector<PII>>>> cls; string key;
    for (int r = 0; r < np; r++)
      {
        vf::check(VW[r].nvg == nvg, "global", str("rank ", r, ": ", VW[r].nvg, " vertices globally, there are ", nvg));
        vf::check(VW[r].neg == neg, "global", str("rank ", r, ": ", VW[r].neg, " edges globally, there are ", neg));
        for (size_t k = 0; k < VW[r].dps.size(); k++)
          {
            VI f = VW[r].dps[k]; f.push_back(r); std::sort(f.begin(), f.end());
            auto c = std::make_pair(VW[r].verts[k], std::make_pair(VW[r].in[k], VW[r].cross[k]));
            auto it = cls.find(f);
            if (it == cls.end()) cls[f] = c;
            else
              {
                vf::check(it->second.first == c.first, "agree", str("vertices of class ", S(f), " differ on rank ", r));
                vf::check(it->second.second.first == c.second.first, "agree", str("edges inside class ", S(f), " differ on rank ", r));
                vf::check(it->second.second.second == c.second.second, "agree", str("edges between classes in class ", S(f), " differ on rank ", r));
              }
          }
        for (size_t k = 0; k < VW[r].in.size(); k++) key += str(VW[r].in[k].size(), VW[r].cross[k].size());
      }
    vf::outcome(vf::hash(key));
}
// grids cut into W pieces in six ways; every process knows the cells it owns
inline MeshDesc GridMesh (int nx, int ny, int W, int how, int first)
{
      MeshDesc d; d.p.W = W; d.p.first = first; d.rev = how % 2; d.p.mask.assign(nx * ny, 0);
      auto own = [&](int i, int j) { return how < 2 ? (i * W / nx) : how < 4 ? (i + j) % W : (i * 7 + j * 3) / 2 % W; };
      std::map<PII,int> ed; auto id = [&](int i, int j) { return i * ny + j; };
      for (int i = 0; i + 1 < nx || i == 0; i++) for (int j = 0; j + 1 < ny || j == 0; j++)
        {
          int w = 1 << own(i, j); VI c; for (int a = 0; a < 2; a++) for (int b = 0; b < 2; b++) if (i + a < nx && j + b < ny) c.push_back(id(i + a, j + b));
          for (int v : c) d.p.mask[v] |= w;
          for (size_t a = 0; a < c.size(); a++) for (size_t b = a + 1; b < c.size(); b++) if (how % 3 != 1 || c[b] - c[a] != ny - 1 || a != 1) ed[PII(c[a], c[b])] |= w;
        }
      for (auto & e : ed) d.edges.push_back({ e.first.first, e.first.second, e.second });
      return d;
}
} // namespace vh
