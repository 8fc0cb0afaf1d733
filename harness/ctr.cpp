// A04: redistribution of distributed meshes onto fewer processes
#include "meshcheck.hpp"
#include <grid_contract.hpp>
#include <h1.hpp>
using namespace vh;

typedef std::vector<VI> Groups;
enum { CUM, DIST };
static double CV (int g) { return g == 1 ? 0 : 3 + g; }                                    // weights, zero for some
static double DV (int g, int r) { return g == 2 && r % 2 ? 0 : 1 + g + 100 * (r + 1); }
static double CE (int u, int v) { return (u + v) % 3 == 0 ? 0 : 10 + 5 * u + 7 * v; }
static double DE (int u, int v, int r) { return (u + 2 * v + r) % 4 == 0 ? 0 : 5 * u + 7 * v + 1000 * (r + 1); }

struct LV { Part p; std::vector<VI> g; std::vector<std::vector<PII>> e; std::vector<RView> view; std::map<int,double> v0, v1; std::map<PII,double> ew; };

static void CheckCtr (const MeshDesc & d, const std::vector<Groups> & gs, int stat, bool oriented, bool full)
{
  int np = d.p.np(), nl = gs.size() + 1;
  std::vector<LV> L(nl);
  L[0].p = d.p;
  auto bits = [](const Part & p, int g) { int m = 0; for (int q : p.procs(g)) m |= 1 << q; return m; };
  for (int k = 0; k + 1 < nl; k++)
    {
      Part q; q.W = gs[k].size(); q.first = 0;
      for (int g = 0; g < d.p.N(); g++) { int m = bits(L[k].p, g), o = 0; for (size_t i = 0; i < gs[k].size(); i++) for (int x : gs[k][i]) if (m >> x & 1) o |= 1 << i; q.mask.push_back(o); }
      L[k+1].p = q;
    }
  std::map<int,double> tv; std::map<PII,double> te;
  for (int g = 0; g < d.p.N(); g++) { double s = 0; for (int q : d.p.procs(g)) s += DV(g, q); tv[g] = stat == CUM ? CV(g) : s; }
  for (auto & e : d.edges) if (e.know) { int u = std::min(e.u, e.v), v = std::max(e.u, e.v); double s = 0; for (int q : d.p.procs(u)) if (d.p.on(v, q)) s += DE(u, v, q); te[PII(u, v)] = stat == CUM ? CE(u, v) : s; }
  auto key = [](PII q) { return PII(std::min(q.first, q.second), std::max(q.first, q.second)); };
  Par(np, [&](int r) {
    auto l0 = MakeMesh(d, r); int me = r; VI lg = l0.g;
    auto edges = [&](const BlockTM & m, const VI & lg) { std::vector<PII> o; for (size_t k = 0; k < m.GetNN<NT_EDGE>(); k++) { auto x = m.GetNode<NT_EDGE>(k); o.push_back(PII(lg[x.v[0]], lg[x.v[1]])); } return o; };
    L[0].g[me] = lg; L[0].e[me] = edges(*l0.m, lg);
    Array<IVec<2,double>> vd(lg.size()); Array<double> ed(L[0].e[me].size());
    for (size_t v = 0; v < lg.size(); v++) { double x = stat == CUM ? CV(lg[v]) : DV(lg[v], r); vd[v] = IVec<2,double>(x, 2 * x); }
    for (size_t k = 0; k < ed.Size(); k++) { PII q = key(L[0].e[me][k]); ed[k] = stat == CUM ? CE(q.first, q.second) : DE(q.first, q.second, r); }
    auto st = stat == CUM ? CUMULATED : DISTRIBUTED;
    shared_ptr<H1Mesh> m = make_shared<H1Mesh>(std::move(*l0.m), new H1VData(std::move(vd), st), new H1EData(std::move(ed), st));
    std::vector<shared_ptr<H1Mesh>> keep; std::vector<shared_ptr<GridContractMap>> maps;
    for (int k = 0; k + 1 < nl; k++)
      {
        keep.push_back(m);
        TableCreator<int> tc(gs[k].size()); for (; !tc.Done(); tc++) for (size_t i = 0; i < gs[k].size(); i++) for (int x : gs[k][i]) tc.Add(i, x);
        auto map = make_shared<AlgContractMap<H1Mesh>>(tc.MoveTable(), m, oriented); maps.push_back(map);
        auto mm = map->GetMappedMesh();
        int grp = -1; for (size_t i = 0; i < gs[k].size(); i++) for (int x : gs[k][i]) if (x == me) grp = i;
        auto & G = gs[k][grp]; bool ms = G[0] == me; LV & N = L[k+1]; const LV & O = L[k];
        vf::check(map->IsMaster() == ms, "master", str("rank ", r, " level ", k));
        vf::check(ToVI(map->GetGroup()) == G, "group", str("rank ", r, " level ", k, ": ", S(ToVI(map->GetGroup())), " instead of ", S(G)));
        for (size_t i = 0; i < gs[k].size(); i++) for (int x : gs[k][i]) vf::check(map->GetProcMap()[x] == (int)i, "group", str("rank ", r, ": process ", x, " goes to ", map->GetProcMap()[x]));
        if (!ms) { vf::check(mm == nullptr, "mesh", str("rank ", r, " leaves but has a mesh")); break; }
        auto cm = dynamic_pointer_cast<H1Mesh>(mm);
        vf::check(cm != nullptr, "mesh", str("rank ", r, " has no mesh"));
        auto ce = map->GetMappedEQCHierarchy();
        vf::check(ce && cm->GetEQCHierarchy() == ce && ce->GetCommunicator().Rank() == grp && ce->GetCommunicator().Size() == (int)gs[k].size(), "comm", str("rank ", r, " level ", k));
        // vertex maps: members' copies of a vertex, and only those, meet in one vertex
        std::set<int> gl; for (int x : G) for (int g : O.g[x]) gl.insert(g);
        size_t cnv = map->GetMappedNN<NT_VERTEX>(); VI cg(cnv, -1); std::map<int,int> cv;
        vf::check(cnv == gl.size(), "count", str("rank ", r, ": ", cnv, " vertices instead of ", gl.size()));
        for (size_t i = 0; i < G.size(); i++)
          {
            auto vm = map->GetNodeMap<NT_VERTEX>(i); auto & og = O.g[G[i]];
            vf::check(vm.Size() == og.size(), "vertexmap", str("rank ", r, " member ", G[i], ": ", vm.Size(), " of ", og.size()));
            for (size_t v = 0; v < og.size(); v++)
              {
                int c = vm[v];
                vf::check(c >= 0 && c < (int)cnv && (cg[c] == -1 || cg[c] == og[v]) && (!cv.count(og[v]) || cv[og[v]] == c), "vertexmap", str("rank ", r, " member ", G[i], ": vertex ", og[v], " -> ", c));
                cg[c] = og[v]; cv[og[v]] = c;
              }
          }
        N.g[grp] = cg;
        CheckLocal(N.p, d.edges, *cm, *ce, cg, grp, N.view[grp]);
        N.e[grp] = edges(*cm, cg);
        size_t cne = map->GetMappedNN<NT_EDGE>();
        vf::check(cne == N.e[grp].size(), "count", str("rank ", r, ": ", cne, " edges, the mesh has ", N.e[grp].size()));
        for (size_t i = 0; i < G.size(); i++)
          {
            auto em = map->GetNodeMap<NT_EDGE>(i); auto & oe = O.e[G[i]];
            vf::check(em.Size() == oe.size(), "edgemap", str("rank ", r, " member ", G[i], ": ", em.Size(), " of ", oe.size()));
            if (oriented) vf::check(map->GetFlipNodes<NT_EDGE>(i).Size() == oe.size(), "flip", "size");
            for (size_t x = 0; x < oe.size(); x++)
              {
                int c = em[x];
                vf::check(c >= 0 && c < (int)cne && key(N.e[grp][c]) == key(oe[x]), "edgemap", str("rank ", r, " member ", G[i], ": edge ", oe[x].first, "-", oe[x].second, " -> ", c));
                if (oriented) vf::check(map->GetFlipNodes<NT_EDGE>(i).Test(x) == (N.e[grp][c] != oe[x]), "flip", str("rank ", r, " member ", G[i], ": edge ", oe[x].first, "-", oe[x].second, " -> ", N.e[grp][c].first, "-", N.e[grp][c].second));
                if (N.e[grp][c] != oe[x]) vf::note("flipped edges");
              }
          }
        // weights
        auto [vdat, edat] = cm->Data();
        vf::check(vdat->Data().Size() == cnv && edat->Data().Size() == cne, "data", str("rank ", r, ": ", vdat->Data().Size(), " ", edat->Data().Size()));
        vf::check((vdat->GetParallelStatus() == CUMULATED) == (stat == CUM) && (edat->GetParallelStatus() == CUMULATED) == (stat == CUM), "data", "status");
        for (int last = 0; last <= (k + 2 == nl && stat == DIST); last++)
          {
            if (last) { cm->CumulateData(); vf::check(vdat->GetParallelStatus() == CUMULATED && edat->GetParallelStatus() == CUMULATED, "data", "status after cumulating"); }
            for (size_t v = 0; v < cnv; v++)
              {
                double a = vdat->Data()[v][0], b = vdat->Data()[v][1], t = tv.at(cg[v]);
                if (stat == CUM || last) vf::check(a == t && b == 2 * t, "data", str("rank ", r, " level ", k, ": weight of vertex ", cg[v], ": ", a, " ", b, " instead of ", t));
                else { N.v0[cg[v]] += a; N.v1[cg[v]] += b; }
              }
            for (size_t x = 0; x < cne; x++)
              {
                double a = edat->Data()[x], t = te.at(key(N.e[grp][x]));
                if (stat == CUM || last) vf::check(a == t, "data", str("rank ", r, " level ", k, ": weight of edge ", N.e[grp][x].first, "-", N.e[grp][x].second, ": ", a, " instead of ", t));
                else N.ew[key(N.e[grp][x])] += a;
              }
          }
        vf::note("contracted meshes");
        m = cm; me = grp; lg = cg;
      }
  }, [&]() {
    string k2;
    for (int k = 1; k < nl; k++)
      {
        CheckViews(L[k].p, d.edges, L[k].view);
        if (stat == DIST)
          {
            for (auto & t : tv) vf::check(L[k].v0[t.first] == t.second && L[k].v1[t.first] == 2 * t.second, "data", str("level ", k, ": weights of vertex ", t.first, " add up to ", L[k].v0[t.first], " instead of ", t.second));
            for (auto & t : te) vf::check(L[k].ew[t.first] == t.second, "data", str("level ", k, ": weights of edge ", t.first.first, "-", t.first.second, " add up to ", L[k].ew[t.first], " instead of ", t.second));
          }
      }
    vf::traces(1);
  }, [&]() {
    for (int k = 0; k < nl; k++) { int n = k ? gs[k-1].size() : np; L[k].g.assign(n, VI()); L[k].e.assign(n, {}); L[k].view.assign(n, RView()); L[k].v0.clear(); L[k].v1.clear(); L[k].ew.clear(); }
  }, full);
}

static void Case (vf::Emit & emit, const MeshDesc & d, const std::vector<Groups> & g, int stat, bool ori, bool full, const string & pre = "")
{
  string id = (pre.empty() ? d.str() : pre); for (auto & x : g) id += GS(x); id += stat == CUM ? "c" : "d"; if (ori) id += "o";
  emit(id, [=]() { CheckCtr(d, g, stat, ori, full); vf::outcome(vf::hash(id)); });
}
// every set of edges (all of them known where they can be known)
template<class F> static void ForEdges (const Part & p, bool all, F f)
{
  std::vector<PII> pr; for (int u = 0; u < p.N(); u++) for (int v = u + 1; v < p.N(); v++) if (p.mask[u] & p.mask[v]) pr.push_back(PII(u, v));
  for (int s = 0; s < (1 << pr.size()); s++) if (all || s == (1 << pr.size()) - 1 || __builtin_popcount(s) == 1 || __builtin_popcount(s) + 1 == (int)pr.size())
    {
      MeshDesc d; d.p = p; d.rev = s & 1;
      for (size_t i = 0; i < pr.size(); i++) if (s >> i & 1) d.edges.push_back({ pr[i].first, pr[i].second, p.mask[pr[i].first] & p.mask[pr[i].second] });
      f(d);
    }
}
VF_PART(A04, small)
{
  for (int W = 1; W <= 3; W++) for (int N = 1; N <= 3; N++) AllParts(W, N, [&](const Part & p) { if (N == 3 && W == 3 && !vf::thorough && p.mask[0] > p.mask[1]) return;
    ForGroups(W, [&](const Groups & g) { ForEdges(p, true, [&](const MeshDesc & d) { for (int stat = 0; stat < 2; stat++) for (int o = 0; o < 2; o++) { if (o != stat && (W == 3 && !vf::thorough)) continue; Case(emit, d, { g }, stat, o, W < 3); } }); }); });
}
// process 0 works too
VF_PART(A04, first)
{
  for (int W = 2; W <= 4; W++) for (int N = 2; N <= 3; N++) AllParts(W, N, [&](const Part & p) { if ((W == 4 || N == 3) && (p.mask[0] > p.mask[1] || (N == 3 && p.mask[1] > p.mask[2]))) return;
    ForGroups(W - 1, [&](const Groups & g) { ForEdges(p, N == 2, [&](const MeshDesc & d) { for (int stat = 0; stat < 2; stat++) Case(emit, d, { g }, stat, stat, false); }); }); }, 0);
}
// four processes: edges whose class grows when processes meet
VF_PART(A04, four)
{
  for (int N = 2; N <= 3; N++) AllParts(4, N, [&](const Part & p) { if (N == 3 && !vf::thorough && (p.mask[0] > p.mask[1] || p.mask[1] > p.mask[2])) return;
    ForGroups(4, [&](const Groups & g) { ForEdges(p, N == 2 || vf::thorough, [&](const MeshDesc & d) { if (d.edges.empty()) return; for (int stat = 0; stat < 2; stat++) Case(emit, d, { g }, stat, stat, false); }); }); });
}
VF_PART(A04, larger)
{
  for (int nx = 3; nx <= (vf::thorough ? 6 : 5); nx++) for (int ny = 2; ny <= 4; ny++) for (int W = 2; W <= 4; W++) for (int how = 0; how < 6; how++)
    {
      MeshDesc d = GridMesh(nx, ny, W, how, 1);
      ForGroups(W, [&](const Groups & g) { for (int stat = 0; stat < 2; stat++) Case(emit, d, { g }, stat, 1, false, str("grid", nx, "x", ny, "W", W, "h", how));
          // twice
          if (W >= 3 && g.size() > 2) ForGroups(int(g.size()) - 1, [&](const Groups & g2) { if ((how + nx) % 3 == 0 || vf::thorough) for (int stat = 0; stat < 2; stat++) Case(emit, d, { g, g2 }, stat, 1, false, str("grid", nx, "x", ny, "W", W, "h", how)); }); });
    }
}
// grouping computed from the mesh: every process in exactly one group, groups in order of their smallest process, never more than asked for
VF_PART(A04, groups)
{
  auto go = [&](const MeshDesc & d, const string & id) {
    int np = d.p.np();
    for (int nparts = 1; nparts < np; nparts++) for (int sep = 0; sep < 2; sep++) if (sep || d.p.first == 0)
      emit(id + "n" + std::to_string(nparts) + (sep ? "s" : ""), [=]() {
        std::vector<Groups> all(np);
        Par(np, [&](int r) {
          auto L = MakeMesh(d, r);
          auto t = PartitionProcsMETIS(*L.m, nparts, sep);
          all[r].clear(); for (auto row : t) all[r].push_back(ToVI(row));
        }, [&]() {
          std::set<int> seen; int last = -1; string s = GS(all[0]);
          for (int r = 1; r < np; r++) vf::check(all[r] == all[0], "agree", str("rank ", r, ": ", GS(all[r]), " rank 0: ", s));
          vf::check((int)all[0].size() <= nparts, "number", str(s, " for ", nparts));
          for (auto & g : all[0])
            {
              vf::check(!g.empty() && g[0] > last, "order", s); last = g[0];
              for (size_t i = 0; i < g.size(); i++) { vf::check(g[i] >= 0 && g[i] < np && seen.insert(g[i]).second, "partition", s); vf::check(i == 0 || g[i-1] < g[i], "order", s); }
            }
          vf::check((int)seen.size() == np, "partition", s);
          if (sep && nparts > 1) vf::check(all[0][0].size() == 1 && all[0][0][0] == 0, "separate", s);
          vf::outcome(vf::hash(id + s));
        });
        for (int stat = 0; stat < 2; stat++) CheckCtr(d, { all[0] }, stat, false, false);
      });
  };
  for (int W = 2; W <= 4; W++) for (int first = 0; first < 2; first++) for (int N = 2; N <= 3; N++) SortedParts(W, N, [&](const Part & p) { if (W == 4 && N == 3 && !vf::thorough) return; int u = 0; for (int m : p.mask) u |= m; if (u != (1 << W) - 1) return; ForEdges(p, false, [&](const MeshDesc & d) { go(d, d.str()); }); }, first);
  for (int nx = 3; nx <= 6; nx++) for (int ny = 2; ny <= 4; ny++) for (int W = 2; W <= 6; W++) for (int how = 0; how < 6; how++) for (int first = 0; first < 2; first++) { if (W > 4 && how % 3 && !vf::thorough) continue; go(GridMesh(nx, ny, W, how, first), str("grid", nx, "x", ny, "W", W, "h", how, "f", first)); }
}
