// A01: aggregation; A02: the mesh of the aggregates
#include "meshcheck.hpp"
#include <h1.hpp>
#include <h1_impl.hpp>
#include <spw_agg.hpp>
#include <spw_agg_map.hpp>
#include <mis_agg.hpp>
#include <mis_agg_map.hpp>
#include <plate_test_agg_map.hpp>
#include <elasticity.hpp>
#include <elasticity_energy_impl.hpp>
#include <elasticity_impl.hpp>
#include "linalg.hpp"
using namespace vh;
typedef VertexAMGFactoryOptions FO;
namespace amg
{
#define EXT(F) \
extern template class SPWAgglomerator<F::ENERGY, F::TMESH::T_MESH_W_DATA, F::ENERGY::NEED_ROBUST>; \
extern template class MISAgglomerator<F::ENERGY, F::TMESH::T_MESH_W_DATA, F::ENERGY::NEED_ROBUST>; \
extern template class PlateTestAgglomerator<F::TMESH::T_MESH_W_DATA>; \
extern template class DiscreteAgglomerateCoarseMap<F::TMESH, SPWAgglomerator<F::ENERGY, F::TMESH::T_MESH_W_DATA, F::ENERGY::NEED_ROBUST>>; \
extern template class DiscreteAgglomerateCoarseMap<F::TMESH, MISAgglomerator<F::ENERGY, F::TMESH::T_MESH_W_DATA, F::ENERGY::NEED_ROBUST>>; \
extern template class DiscreteAgglomerateCoarseMap<F::TMESH, PlateTestAgglomerator<F::TMESH::T_MESH_W_DATA>>;
EXT(H1AMGFactory<1>)
EXT(ElasticityAMGFactory<2>)
EXT(ElasticityAMGFactory<3>)
}

enum { CUM, DIST };
enum { SPW, MIS, PLATE };
enum { Q_A01 = 1, Q_A02 = 2 };
struct Conf { string id; int alg; std::function<void(FO &)> set; double vthresh = 0; };
// one level of the global description
struct Level { Part p; std::vector<GEdge> edges; std::map<PII,double> ew; VD vw, cnt; std::vector<char> fr; };
struct Name { VI procs; int lnr; bool operator < (const Name & o) const { return std::tie(procs, lnr) < std::tie(o.procs, o.lnr); } bool operator == (const Name & o) const { return procs == o.procs && lnr == o.lnr; } };

// scalar data: weights
struct H1T
{
  typedef H1AMGFactory<1> FA; typedef H1Mesh Mesh; typedef FA::Options Opts; static constexpr bool scalar = true;
  struct Glob {};
  template<class S> static shared_ptr<H1Mesh> Make (const MeshDesc & d, BlockTM & m, const VI & lg, int r, const VD & vw, const std::map<PII,double> & ew, int stat, S share)
  {
    Array<IVec<2,double>> vd(lg.size()); Array<double> ed(m.template GetNN<NT_EDGE>());
    for (size_t v = 0; v < lg.size(); v++) { int g = lg[v]; double w = vw[g], one = 1; if (stat == DIST) { w = share(w, d.p.procs(g)); one = d.p.master(g) == r; } vd[v] = IVec<2,double>(w, one); }
    for (size_t k = 0; k < ed.Size(); k++)
      { auto x = m.GetNode<NT_EDGE>(k); int a = lg[x.v[0]], b = lg[x.v[1]]; VI A = d.p.procs(a), B = d.p.procs(b), I; std::set_intersection(A.begin(), A.end(), B.begin(), B.end(), back_inserter(I)); double w = ew.at(PII(std::min(a, b), std::max(a, b))); ed[k] = stat == DIST ? share(w, I) : w; }
    auto st = stat == CUM ? CUMULATED : DISTRIBUTED;
    return make_shared<H1Mesh>(std::move(m), new H1VData(std::move(vd), st), new H1EData(std::move(ed), st));
  }
};
// rigid body modes: vertices have positions, weights are matrices
static VD Pos (int g, int dim) { VD p = { double(g % 3), g / 3 + 0.25 * (g % 2), 0.5 * (g % 2) + (g % 5 == 4) }; p.resize(dim); return p; }
template<int DIM> struct ElT
{
  typedef ElasticityAMGFactory<DIM> FA; typedef ElasticityMesh<DIM> Mesh; typedef typename FA::Options Opts; static constexpr bool scalar = false; static constexpr int N = DIM == 2 ? 3 : 6;
  struct Glob { std::map<int,VD> pos; std::map<int,Dense> wt; std::map<PII,Dense> E; };
  static double S (double w, int i, int j) { return w * (i == j ? 1 + 0.125 * i : i + j == 2 ? 0.25 : 0); }   // a definite matrix
  template<class SH> static shared_ptr<Mesh> Make (const MeshDesc & d, BlockTM & m, const VI & lg, int r, const VD & vw, const std::map<PII,double> & ew, int stat, SH share)
  {
    Array<ElastVData<DIM>> vd(lg.size()); Array<ElasticityEdgeData<DIM>> ed(m.template GetNN<NT_EDGE>());
    for (size_t v = 0; v < lg.size(); v++)
      { int g = lg[v]; double w = vw[g]; bool on = stat == CUM || d.p.master(g) == r; if (stat == DIST) w = share(w, d.p.procs(g)); auto & x = vd[v]; x = 0.0; VD p = Pos(g, DIM); if (on) { for (int k = 0; k < DIM; k++) x.pos(k) = p[k]; x.rot_scaling = 1; } for (int i = 0; i < N; i++) for (int j = 0; j < N; j++) x.wt(i, j) = S(w, i, j); }
    for (size_t k = 0; k < ed.Size(); k++)
      { auto x = m.GetNode<NT_EDGE>(k); int a = lg[x.v[0]], b = lg[x.v[1]]; VI A = d.p.procs(a), B = d.p.procs(b), I; std::set_intersection(A.begin(), A.end(), B.begin(), B.end(), back_inserter(I)); double w = ew.at(PII(std::min(a, b), std::max(a, b))); if (stat == DIST) w = share(w, I); for (int i = 0; i < N; i++) for (int j = 0; j < N; j++) ed[k](i, j) = S(w, i, j); }
    auto st = stat == CUM ? CUMULATED : DISTRIBUTED;
    return make_shared<Mesh>(std::move(m), new AttachedEVD<DIM>(std::move(vd), st), new AttachedEED<DIM>(std::move(ed), st));
  }
  // motion at y of the rigid body that moves with (u, r) at x
  static Dense Q (const VD & x, const VD & y)
  {
    Dense q = Unity(N); VD t(DIM); for (int k = 0; k < DIM; k++) t[k] = y[k] - x[k];
    if (DIM == 2) { q[0][2] = -t[1]; q[1][2] = t[0]; }
    else { q[0][4] = t[2]; q[0][5] = -t[1]; q[1][3] = -t[2]; q[1][5] = t[0]; q[2][3] = t[1]; q[2][4] = -t[0]; }
    return q;
  }
  static void Collect (Mesh & m, const VI & lg, int r, Glob & G, const string & at)
  {
    m.CumulateData(); auto [vdat, edat] = m.Data(); vf::check(vdat->GetParallelStatus() == CUMULATED && edat->GetParallelStatus() == CUMULATED, "data", "status");
    vf::check(vdat->Data().Size() == lg.size() && edat->Data().Size() == m.template GetNN<NT_EDGE>(), "data", at + ": sizes");
    auto same = [&](auto & M, auto k, const auto & v, const char * w) { auto it = M.find(k); if (it == M.end()) M[k] = v; else vf::check(Close(it->second, v, 1e-12), "agreement", str(at, ": processes disagree about ", w)); };
    auto dense = [&](const auto & X) { Dense D = Zero(N); for (int i = 0; i < N; i++) for (int j = 0; j < N; j++) { D[i][j] = X(i, j); vf::check(std::isfinite(D[i][j]), "data", at + ": not a number"); } return D; };
    for (size_t v = 0; v < lg.size(); v++) { auto & x = vdat->Data()[v]; VD p(DIM); for (int k = 0; k < DIM; k++) p[k] = x.pos(k); vf::check(std::fabs(x.rot_scaling - 1) < 1e-12, "data", at + ": scaling"); same(G.pos, lg[v], p, "the position of a vertex"); same(G.wt, lg[v], dense(x.wt), "the weight of a vertex"); }
    for (size_t k = 0; k < edat->Data().Size(); k++) { auto x = m.template GetNode<NT_EDGE>(k); PII q(lg[x.v[0]], lg[x.v[1]]); if (q.first > q.second) std::swap(q.first, q.second); same(G.E, q, dense(edat->Data()[k]), "the weight of an edge"); }
  }
  // energy of the weights as a matrix
  static Dense Energy (int n, const Glob & G)
  {
    Dense A = Zero(n * N); auto add = [&](int a, int b, const Dense & X) { for (int i = 0; i < N; i++) for (int j = 0; j < N; j++) A[a * N + i][b * N + j] += X[i][j]; };
    for (auto & x : G.wt) add(x.first, x.first, x.second);
    for (auto & x : G.E)
      {
        int a = x.first.first, b = x.first.second; VD pa = G.pos.at(a), pb = G.pos.at(b), mid(DIM); for (int k = 0; k < DIM; k++) mid[k] = 0.5 * (pa[k] + pb[k]);
        Dense qa = Q(pa, mid), qb = Q(pb, mid); for (auto & r : qb) for (double & v : r) v = -v;
        const Dense * q[2] = { &qa, &qb }; int at[2] = { a, b };
        for (int i = 0; i < 2; i++) for (int j = 0; j < 2; j++) add(at[i], at[j], Mul(Trans(*q[i]), Mul(x.second, *q[j])));
      }
    return A;
  }
};

template<class T> struct CrsTest
{
  typedef typename T::Mesh Mesh; typedef typename T::FA::ENERGY EN;
  MeshDesc d; VD ew, vw; std::vector<char> fr; Conf c; int stat; int depth; int what; string nm;
  static PII key (int a, int b) { return PII(std::min(a, b), std::max(a, b)); }

  void Run (bool full) const
  {
    vf::progress(nm); int np = d.p.np();
    std::vector<Level> L; std::vector<std::vector<VI>> vmap; // vmap[l][r]: coarse number per fine vertex of rank r
    std::vector<std::vector<VI>> lg; std::vector<std::vector<std::vector<Name>>> cn; std::vector<std::vector<std::vector<Name>>> fm; std::vector<std::vector<RView>> view;
    std::vector<std::map<int,double>> sv, sc; std::vector<std::map<PII,double>> se;
    std::vector<typename T::Glob> glob;
    auto reset = [&]() { glob.clear(); glob.resize(depth + 1); vmaps.assign(depth, {});
      L.assign(1, Level()); Level & l = L[0]; l.p = d.p; l.edges = d.edges; l.vw = vw; l.fr = fr; l.cnt.assign(d.p.N(), 1);
      for (size_t k = 0; k < d.edges.size(); k++) l.ew[key(d.edges[k].u, d.edges[k].v)] = ew[k];
      L.resize(depth + 1); lg.assign(depth + 1, std::vector<VI>(np)); cn.assign(depth + 1, std::vector<std::vector<Name>>(np)); fm = cn; view.assign(depth + 1, std::vector<RView>(np)); sv.assign(depth + 1, {}); sc = sv; se.assign(depth + 1, {});
    };
    auto body = [&](int r) {
      auto l0 = MakeMesh(d, r); lg[0][r] = l0.g;
      auto share = [&](double w, const VI & pr) { return w == 0 ? 0 : pr.size() == 1 ? w : pr[0] == r ? w - 0.25 * w * (pr.size() - 1) : 0.25 * w; };   // parts that sum up to w
      shared_ptr<Mesh> m = T::Make(d, *l0.m, l0.g, r, vw, L[0].ew, stat, share);
      shared_ptr<BitArray> free = nullptr;
      if (!fr.empty()) { free = make_shared<BitArray>(l0.g.size()); free->Clear(); for (size_t v = 0; v < l0.g.size(); v++) if (fr[l0.g[v]]) free->SetBit(v); }
      auto opts = make_shared<typename T::Opts>(); c.set(*opts);
      std::vector<shared_ptr<BaseAgglomerateCoarseMap>> keep; std::vector<shared_ptr<Mesh>> meshes; if constexpr (!T::scalar) if (what & Q_A02) T::Collect(*m, lg[0][r], r, glob[0], str(nm, " level 0 rank ", r));
      for (int l = 0; l < depth; l++)
        {
          meshes.push_back(m); shared_ptr<BaseAgglomerateCoarseMap> map;
          auto go = [&](auto mp) { mp->Initialize(*opts, l); mp->SetFreeVerts(free); map = mp; };
          if (c.alg == SPW) go(make_shared<SPWAgglomerateCoarseMap<Mesh, EN>>(m)); else if (c.alg == MIS) go(make_shared<MISAgglomerateCoarseMap<Mesh, EN>>(m)); else go(make_shared<PlateTestAgglomerateCoarseMap<Mesh>>(m));
          keep.push_back(map); sim::window(true);
          auto cm = dynamic_pointer_cast<Mesh>(map->GetMappedMesh()); sim::window(false);
          vf::check(cm != nullptr, "mesh", "no coarse mesh");
          auto & eq = *cm->GetEQCHierarchy(); auto vm = map->template GetMap<NT_VERTEX>();
          size_t nv = m->template GetNN<NT_VERTEX>(), cnv = cm->template GetNN<NT_VERTEX>();
          vf::check(vm.Size() == nv && map->template GetNN<NT_VERTEX>() == nv && map->template GetMappedNN<NT_VERTEX>() == cnv, "size", str(nm, " level ", l, " rank ", r, ": map of ", vm.Size(), " vertices, ", nv, " -> ", cnv));
          // names of the coarse vertices that do not depend on the process
          auto & C = cn[l+1][r]; C.assign(cnv, Name());
          for (int k = 0; k < (int)eq.GetNEQCS(); k++)
            { VI pr = ToVI(eq.GetDistantProcs(k)); pr.push_back(r); std::sort(pr.begin(), pr.end()); int i = 0; for (auto v : cm->template GetENodes<NT_VERTEX>(k)) { vf::check(v >= 0 && v < (int)cnv && C[v].procs.empty(), "coarse vertices", str(nm, " level ", l + 1, " rank ", r, ": vertex ", v)); C[v] = { pr, i++ }; } }
          for (auto & x : C) vf::check(!x.procs.empty(), "coarse vertices", str(nm, " level ", l + 1, " rank ", r, ": a vertex in no class"));
          auto & M = fm[l][r]; M.assign(nv, Name());
          for (size_t v = 0; v < nv; v++) { vf::check(vm[v] >= -1 && vm[v] < (int)cnv, "range", str(nm, " level ", l, " rank ", r, ": vertex ", lg[l][r][v], " mapped to ", vm[v], " of ", cnv)); if (vm[v] >= 0) M[v] = C[vm[v]]; }
          auto tab = map->template GetMapC2F<NT_VERTEX>(); vf::check(tab.Size() == cnv, "inverse map", "size"); size_t cnt = 0;
          for (size_t k = 0; k < cnv; k++) for (auto v : tab[k]) { cnt++; vf::check(v >= 0 && v < (int)nv && vm[v] == (int)k, "inverse map", str(nm, " level ", l, " rank ", r, ": ", v, " among the members of ", k)); }
          for (size_t v = 0; v < nv; v++) if (vm[v] >= 0) cnt--; vf::check(cnt == 0, "inverse map", str(nm, " level ", l, " rank ", r));
          World().Barrier();
          const Level & F = L[l]; Level & N = L[l+1];
          // the global picture, made up once
          if (N.p.mask.empty() && N.fr.empty()) Global(l, F, N, lg[l], fm[l], cn[l+1], lg[l+1]);
          World().Barrier();
          if (what & Q_A02)
            {
              CheckLocal(N.p, N.edges, *cm, *const_cast<EQCHierarchy*>(&eq), lg[l+1][r], r, view[l+1][r]);
              auto em = map->template GetMap<NT_EDGE>(); size_t ne = m->template GetNN<NT_EDGE>(), cne = cm->template GetNN<NT_EDGE>();
              vf::check(em.Size() == ne && map->template GetMappedNN<NT_EDGE>() == cne, "edge map", "size");
              for (size_t k = 0; k < ne; k++)
                {
                  auto x = m->template GetNode<NT_EDGE>(k); int a = vm[x.v[0]], b = vm[x.v[1]]; string w = str(nm, " level ", l, " rank ", r, ": edge ", lg[l][r][x.v[0]], "-", lg[l][r][x.v[1]], " mapped to ", em[k]);
                  if (a < 0 || b < 0 || a == b) { vf::check(em[k] == -1, "edge map", w + " although it does not connect two aggregates"); continue; }
                  vf::check(em[k] >= 0 && em[k] < (int)cne, "edge map", w); auto y = cm->template GetNode<NT_EDGE>(int(em[k]));
                  vf::check(PII(y.v[0], y.v[1]) == key(a, b), "edge map", str(w, ", which connects ", y.v[0], " and ", y.v[1], " instead of ", a, " and ", b));
                }
              if constexpr (!T::scalar) { T::Collect(*cm, lg[l+1][r], r, glob[l+1], str(nm, " level ", l + 1, " rank ", r)); }
              else {
              auto [vdat, edat] = cm->Data();
              vf::check(vdat->Data().Size() == cnv && edat->Data().Size() == cne, "data", str(nm, " rank ", r, ": sizes"));
              bool vc = vdat->GetParallelStatus() == CUMULATED, ec = edat->GetParallelStatus() == CUMULATED;
              auto cmp = [&](int pass) {
                for (size_t v = 0; v < cnv; v++)
                  {
                    int g = lg[l+1][r][v]; double a = vdat->Data()[v][0], b = vdat->Data()[v][1];
                    if (vc) vf::check(a == N.vw[g] && b == N.cnt[g], "vertex weight", str(nm, " level ", l + 1, " rank ", r, ": weight of vertex ", g, " is ", a, ",", b, " instead of ", N.vw[g], ",", N.cnt[g]));
                    else { sv[l+1][g] += a; sc[l+1][g] += b; }
                  }
                for (size_t k = 0; k < cne; k++)
                  {
                    auto x = cm->template GetNode<NT_EDGE>(k); PII q = key(lg[l+1][r][x.v[0]], lg[l+1][r][x.v[1]]); double a = edat->Data()[k];
                    if (ec) vf::check(a == N.ew.at(q), "edge weight", str(nm, " level ", l + 1, " rank ", r, ": weight of edge ", q.first, "-", q.second, " is ", a, " instead of ", N.ew.at(q)));
                    else se[l+1][q] += a;
                  } };
              cmp(0);
              if (!vc || !ec) { cm->CumulateData(); vc = ec = true; vf::check(vdat->GetParallelStatus() == CUMULATED && edat->GetParallelStatus() == CUMULATED, "data", "status"); cmp(1); }
              } }
          vf::note("coarse meshes"); m = cm; free = nullptr;
        }
    };
    auto after = [&]() {
      string k2 = nm;
      for (int l = 1; l <= depth; l++)
        {
          if (what & Q_A02)
            {
              CheckViews(L[l].p, L[l].edges, view[l]);
              if constexpr (!T::scalar)
                {
                  int n = L[l-1].p.N(), k = L[l].p.N(), N = T::N; if (k == 0) continue;
                  Dense A = T::Energy(n, glob[l-1]), C = T::Energy(k, glob[l]), P(n * N, VD(k * N, 0));
                  for (int v = 0; v < n; v++) { int c = vmaps[l-1][v]; if (c < 0) continue; Dense q = T::Q(glob[l].pos.at(c), glob[l-1].pos.at(v)); for (int i = 0; i < N; i++) for (int j = 0; j < N; j++) P[v * N + i][c * N + j] = q[i][j]; }
                  Dense W = Mul(Trans(P), Mul(A, P)); vf::check(Close(C, W, 1e-10), "energy", str(nm, " level ", l, ": energy of the weights ", S(C), " is not the one of the finer level, ", S(W), " vertices go to ", S(vmaps[l-1])));
                  vf::note("energies");
                }
              for (auto & t : sv[l]) vf::check(t.second == L[l].vw[t.first] && sc[l][t.first] == L[l].cnt[t.first], "vertex weight", str(nm, " level ", l, ": parts of the weight of vertex ", t.first, " add up to ", t.second, ",", sc[l][t.first], " instead of ", L[l].vw[t.first], ",", L[l].cnt[t.first]));
              for (auto & t : se[l]) vf::check(t.second == L[l].ew.at(t.first), "edge weight", str(nm, " level ", l, ": parts of the weight of edge ", t.first.first, "-", t.first.second, " add up to ", t.second, " instead of ", L[l].ew.at(t.first)));
            }
          k2 += str(":", L[l].p.N());
          if (L[l].p.N() < L[l-1].p.N()) vf::note("smaller levels");
        }
      vf::outcome(vf::hash(k2)); vf::traces(1);
    };
    if (np == 1) { vf::Explore ex; auto v = vf::modes(1, false); v.resize(1); ex.opt = v[0]; ex(body, after, reset); }
    else Par(np, body, after, reset, full);
  }
  // aggregates put together from all processes, checked, and the graph they induce
  mutable std::vector<VI> vmaps;
  void Global (int l, const Level & F, Level & N, const std::vector<VI> & lg, const std::vector<std::vector<Name>> & fm, const std::vector<std::vector<Name>> & cn, std::vector<VI> & clg) const
  {
    int np = d.p.np(), n = F.p.N(); string at = str(nm, " level ", l, ": "); auto nmstr = [](const Name & x) { return x.procs.empty() ? string("none") : str("number ", x.lnr, " of ", S(x.procs)); };
    std::set<Name> all; for (int r = 0; r < np; r++) for (auto & x : cn[r]) all.insert(x);
    std::map<Name,int> no; int k = 0; for (auto & x : all) no[x] = k++;
    N.p.W = F.p.W; N.p.first = F.p.first; N.fr.assign(k, 1); N.vw.assign(k, 0); N.cnt.assign(k, 0);
    for (auto & x : all) { int m = 0; for (int q : x.procs) m |= 1 << (q - F.p.first); N.p.mask.push_back(m); for (int q : x.procs) vf::check(std::count(cn[q].begin(), cn[q].end(), x) == 1, "coarse vertices", str(at, "coarse vertex ", nmstr(x), " unknown to process ", q)); }
    for (int r = 0; r < np; r++) { clg[r].clear(); for (auto & x : cn[r]) clg[r].push_back(no[x]); }
    std::vector<Name> to(n); VI have(n, 0);
    for (int r = 0; r < np; r++) for (size_t v = 0; v < lg[r].size(); v++)
      { int g = lg[r][v]; if (have[g]) vf::check(to[g] == fm[r][v], "agreement", str(at, "vertex ", g, " is mapped to ", nmstr(to[g]), " and on process ", r, " to ", nmstr(fm[r][v]))); to[g] = fm[r][v]; have[g] = 1; }
    VI map(n, -1); for (int g = 0; g < n; g++) if (!to[g].procs.empty()) map[g] = no[to[g]]; vmaps[l] = map;
    VD deg(n, 0); VI nb(n, 0); for (auto & e : F.edges) { double w = F.ew.at(key(e.u, e.v)); deg[e.u] += w; deg[e.v] += w; nb[e.u]++; nb[e.v]++; }
    if (what & Q_A01)
      for (int g = 0; g < n; g++)
        {
          bool fr = F.fr.empty() || F.fr[g];
          if (map[g] < 0 && fr)
            {
              bool iso = nb[g] == 0 && c.alg == SPW && !(F.p.mask[g] & (F.p.mask[g] - 1)), dom = c.alg == SPW && c.vthresh > 0 && (T::scalar ? F.vw[g] / (F.vw[g] + deg[g]) > c.vthresh * (1 - 1e-12) : F.vw[g] > 0);
              vf::check(iso || dom, "lost", str(at, "free vertex ", g, " is mapped to no coarse vertex")); vf::note(iso ? "isolated vertices" : "dominated vertices");
            }
          vf::check(fr || map[g] < 0, "constrained", str(at, "constrained vertex ", g, " is mapped to ", map[g]));
          if (map[g] >= 0) vf::check((F.p.mask[g] & ~N.p.mask[map[g]]) == 0, "class", str(at, "vertex ", g, " is mapped to ", nmstr(to[g]), " which not all of its processes have"));
        }
    // aggregates
    std::vector<VI> mem(k); for (int g = 0; g < n; g++) if (map[g] >= 0) mem[map[g]].push_back(g);
    for (int a = 0; a < k; a++)
      {
        if (!(what & Q_A01)) break;
        vf::check(!mem[a].empty(), "empty", str(at, "coarse vertex ", a, " has no members"));
        int m = 0; for (int g : mem[a]) m |= F.p.mask[g] == N.p.mask[a]; vf::check(m, "class", str(at, "coarse vertex with members ", S(mem[a]), " is on processes ", S(N.p.procs(a)), " where none of its members is alone"));
        std::set<int> seen = { mem[a][0] }; bool grow = true;
        while (grow) { grow = false; for (auto & e : F.edges) if (map[e.u] == a && map[e.v] == a && seen.count(e.u) != seen.count(e.v)) { seen.insert(e.u); seen.insert(e.v); grow = true; } }
        vf::check(seen.size() == mem[a].size(), "connected", str(at, "aggregate ", S(mem[a]), " is not connected"));
        vf::note(mem[a].size() == 1 ? "single vertices" : "aggregates");
      }
    for (int g = 0; g < n; g++) if (map[g] >= 0) { N.vw[map[g]] += F.vw[g]; N.cnt[map[g]] += F.cnt[g]; }
    for (auto & e : F.edges)
      {
        int a = map[e.u], b = map[e.v]; double w = F.ew.at(key(e.u, e.v));
        if (a == b) continue; if (a < 0) N.vw[b] += w; else if (b < 0) N.vw[a] += w;
        else { if (!N.ew.count(key(a, b))) { int m = N.p.mask[a] & N.p.mask[b]; if (what & Q_A01) vf::check(m, "class", str(at, "connected coarse vertices ", a, " and ", b, " share no process")); N.edges.push_back({ a, b, m }); } N.ew[key(a, b)] += w; }
      }
  }
};

// ------------------------------------------------------------ configurations
template<class T> static void Set (SpecOpt<T> & o, T v) { o = SpecOpt<T>(v); }
static std::vector<Conf> Confs (int level)   // 0: few, 1: more, 2: all
{
  std::vector<Conf> v; auto add = [&](const string & id, int alg, std::function<void(FO &)> f, double vt = 0) { Conf c; c.id = id; c.alg = alg; c.set = f; c.vthresh = vt; v.push_back(c); };
  add("spw", SPW, [](FO & o) {}); add("mis", MIS, [](FO & o) {}); add("plate", PLATE, [](FO & o) {});
  if (level == 0) return v;
  add("spw1", SPW, [](FO & o) { Set(o.numRounds, 1); Set(o.orphanRound, false); });
  add("spw1o", SPW, [](FO & o) { Set(o.numRounds, 1); });
  add("spw2t", SPW, [](FO & o) { Set(o.numRounds, 2); Set(o.edge_thresh, 0.4); }); 
  add("spwv", SPW, [](FO & o) { Set(o.vert_thresh, 0.5); }, 0.5);
  add("spwbig", SPW, [](FO & o) { Set(o.checkBigSOC, true); Set(o.edge_thresh, 0.0); });
  add("mis1", MIS, [](FO & o) { Set(o.mis_dist2, false); Set(o.mis_neib_boost, true); });
  add("mis2", MIS, [](FO & o) { Set(o.mis_dist2, true); Set(o.edge_thresh, 0.4); });
  if (level == 1) return v;
  for (int r = 1; r <= 4; r++) for (int orph = 0; orph < 2; orph++) for (int rob = 0; rob < 2; rob++) for (int nb = 0; nb < 2; nb++) for (int bs = 0; bs < 2; bs++)
    add(str("spwr", r, orph, rob, nb, bs), SPW, [=](FO & o) { Set(o.numRounds, r); Set(o.orphanRound, bool(orph)); Set(o.robustPick, bool(rob)); Set(o.neibBoost, bool(nb)); Set(o.checkBigSOC, bool(bs)); });
  for (int a = 0; a < 5; a++) for (double t : { 0.0, 0.3, 2.0 })
    { AVG_TYPE avs[5] = { MIN, GEOM, HARM, ALG, MAX }; auto A = avs[a];
      add(str("spwa", a, "t", t), SPW, [=](FO & o) { Set(o.scalAvg, A); Set(o.edge_thresh, t); Set(o.diagStabBoost, a * 0.25); });
      for (int d2 = 0; d2 < 2; d2++) for (int nb = 0; nb < 3; nb++) add(str("misa", a, "t", t, d2, nb), MIS, [=](FO & o) { Set(o.agg_minmax_avg, A); Set(o.edge_thresh, t); Set(o.mis_dist2, bool(d2)); Set(o.mis_neib_boost, nb > 0); Set(o.lazy_neib_boost, nb > 1); }); }
  for (int g = 0; g < 2; g++) for (int mm = 0; mm < 3; mm++) for (int hk = 0; hk < 3; hk++) for (int d2 = 0; d2 < 2; d2++)
    { auto X = [](int k) { return k == 0 ? xbool(false) : k == 1 ? xbool(true) : xbool(maybe); };
      add(str("misg", g, mm, hk, d2), MIS, [=](FO & o) { o.MISAggOptions::ecw_geom = SpecOpt<bool>(bool(g)); Set(o.ecw_minmax, X(mm)); Set(o.ecw_stab_hack, X(hk)); Set(o.mis_dist2, bool(d2)); }); }
  for (double t : { 0.1, 0.5, 0.9 }) for (int rb = 0; rb < 2; rb++) { add(str("spwv", t, rb), SPW, [=](FO & o) { Set(o.vert_thresh, t); Set(o.crs_robust, bool(rb)); }, t); }
  add("spwbsr", SPW, [](FO & o) { Set(o.checkBigSOC, true); Set(o.bigSOCRobust, true); });
  add("spwbsb", SPW, [](FO & o) { Set(o.checkBigSOC, true); Set(o.bigSOCBlockDiagSM, true); });
  add("spwbsh", SPW, [](FO & o) { Set(o.checkBigSOC, true); Set(o.bigSOCCheckHackThresh, 0.5); });
  return v;
}
// weights: 0 equal, 1 all different, 2 strong and weak, 3 some zero
static double EW (int kind, int k) { return kind == 0 ? 1 : kind == 1 ? 1 + 0.25 * k : kind == 2 ? (k % 2 ? 1.0 / 128 : 1) : (k % 3 == 1 ? 0 : 1); }
static double VW (int kind, int g) { return kind == 0 ? 0 : kind == 1 ? 0.5 : kind == 2 ? (g % 2 ? 64 : 0) : (g % 3 ? 0 : 4); }
template<class T = H1T> static void Case (vf::Emit & emit, int what, const MeshDesc & d, int wk, int sk, int fm, const Conf & c, int stat, int depth, bool full, const string & pre = "")
{
  CrsTest<T> t; t.d = d; for (size_t k = 0; k < d.edges.size(); k++) t.ew.push_back(EW(wk, k)); for (int g = 0; g < d.p.N(); g++) t.vw.push_back(VW(sk, g));
  if (fm >= 0) for (int g = 0; g < d.p.N(); g++) t.fr.push_back(fm >> g & 1);
  t.c = c; t.stat = stat; t.depth = depth; t.what = what; t.nm = str(pre.empty() ? d.str() : pre, "w", wk, "s", sk, "f", fm, c.id, stat == CUM ? "c" : "d");
  emit(t.nm, [t, full]() { t.Run(full); });
}
static MeshDesc Desc (const Part & p, int edges)
{
  MeshDesc d; d.p = p; int k = 0; for (int u = 0; u < p.N(); u++) for (int v = u + 1; v < p.N(); v++, k++) if (edges >> k & 1) d.edges.push_back({ u, v, p.mask[u] & p.mask[v] }); return d;
}
static bool Possible (const Part & p, int edges) { int k = 0; for (int u = 0; u < p.N(); u++) for (int v = u + 1; v < p.N(); v++, k++) if ((edges >> k & 1) && !(p.mask[u] & p.mask[v])) return false; return true; }
static Part SeqPart (int n) { Part p; p.W = 1; p.first = 0; p.mask.assign(n, 1); return p; }

static void Seq (vf::Emit & emit, int what)
{
  auto few = Confs(0), more = Confs(1), all = Confs(2);
  for (int n = 1; n <= 4; n++) for (int e = 0; e < (1 << (n * (n - 1) / 2)); e++) for (int fm = -1; fm < (1 << n) - 1; fm++)
    for (int wk = 0; wk < 4; wk++) for (int sk = 0; sk < 4; sk++) { if (n == 4 && !vf::thorough && (wk + sk + e) % 2) continue; for (auto & c : n < 4 ? all : more) Case(emit, what, Desc(SeqPart(n), e), wk, sk, fm, c, CUM, 3, false); }
  // five vertices
  for (int e = 0; e < 1024; e++) for (int fm : { -1, 30, 15, 27 }) for (int wk = 0; wk < 3; wk++) { int sk = (e + wk) % 4; for (auto & c : vf::thorough ? all : few) Case(emit, what, Desc(SeqPart(5), e), wk, sk, fm, c, CUM, 3, false); }
  // six and seven: paths, cycles, stars, cliques with any one vertex constrained
  for (int n = 6; n <= 9; n++) for (int kind = 0; kind < 4; kind++) for (int fm = -1; fm < n; fm++) for (int wk = 0; wk < 4; wk++) for (int sk = 0; sk < 4; sk++)
    {
      if ((n > 7 || sk == 2) && !vf::thorough && (fm + 1) % 3) continue;
      MeshDesc d; d.p = SeqPart(n); for (int u = 0; u < n; u++) for (int v = u + 1; v < n; v++) if (kind == 0 ? v == u + 1 : kind == 1 ? v == u + 1 || (u == 0 && v == n - 1) : kind == 2 ? u == 0 : true) d.edges.push_back({ u, v, 1 });
      for (auto & c : all) Case(emit, what, d, wk, sk, fm < 0 ? -1 : (1 << n) - 1 - (1 << fm), c, CUM, 3, false, str("seq", n, "kind", kind));
    }
}
static void Two (vf::Emit & emit, int what)
{
  auto few = Confs(0), more = Confs(1);
  for (int n = 1; n <= 3; n++) AllParts(2, n, [&](const Part & p) { if (!Canonical(p)) return;
    for (int e = 0; e < (1 << (n * (n - 1) / 2)); e++) if (Possible(p, e)) for (int fm = -1; fm < (1 << n) - 1; fm++) for (int wk = 0; wk < 3; wk++) { int sk = (wk + e + fm + 4) % 4; for (auto & c : more) Case(emit, what, Desc(p, e), wk, sk, fm, c, (e + fm + wk) & 1, 2, n < 3); } });
  AllParts(2, 4, [&](const Part & p) { if (!Canonical(p)) return;
    for (int e = 0; e < 64; e++) if (Possible(p, e)) for (int fm : { -1, 14, 7, 11, 6 }) { int wk = (e + fm + 1) % 3, sk = (e / 4 + fm + 1) % 4; if (!vf::thorough && __builtin_popcount(e) < 2) continue; for (auto & c : vf::thorough ? more : few) Case(emit, what, Desc(p, e), wk, sk, fm, c, e & 1, 2, false); } });
}
static void Three (vf::Emit & emit, int what)
{
  auto few = Confs(0), more = Confs(1);
  for (int n = 2; n <= 3; n++) AllParts(3, n, [&](const Part & p) { if (!Canonical(p)) return;
    for (int e = 1; e < (1 << (n * (n - 1) / 2)); e++) if (Possible(p, e)) for (int fm : { -1, 1, 2, 4, 3, 5, 6 }) { if (fm >= (1 << n) - 1) continue; int wk = (e + fm + 1) % 3, sk = (e + fm / 2 + 1) % 4; for (auto & c : vf::thorough || n == 2 ? more : few) Case(emit, what, Desc(p, e), wk, sk, fm, c, e & 1, 2, false); } });
  AllParts(3, 4, [&](const Part & p) { if (!Canonical(p)) return;
    for (int e = 1; e < 64; e++) if (Possible(p, e)) { int bits = __builtin_popcount(e); if (!vf::thorough && bits < 3) continue; int wk = e % 3, sk = (e / 4) % 4, fm = e % 4 == 3 ? 14 - (e % 8 == 3 ? 3 : 0) : -1; for (auto & c : few) Case(emit, what, Desc(p, e), wk, sk, fm, c, e & 1, 2, false); } });
}
static void Larger (vf::Emit & emit, int what)
{
  auto more = Confs(1), all = Confs(2);
  for (int nx = 3; nx <= (vf::thorough ? 7 : 6); nx++) for (int ny = 1; ny <= 4; ny++) for (int W = 1; W <= 4; W++) for (int how = 0; how < 6; how++) for (int first = (W == 1 ? 0 : 1); first < 2; first++)
    for (int wk = 0; wk < 3; wk++) { if (!vf::thorough && (nx + ny + how + wk) % 3) continue; MeshDesc d = GridMesh(nx, ny, W, how, first); int n = nx * ny, sk = (wk + how) % 4, k = 0;
      for (int fm : { -1, (1 << n) - 1 - 1, (1 << n) - 1 - (1 << (n / 2)), ((1 << n) - 1) & 0x5b6db6db }) for (auto & c : vf::thorough ? all : more) if (vf::thorough || (k++ + wk + nx) % 2 == 0) Case(emit, what, d, wk, sk, fm, c, how & 1, 3, false, str("grid", nx, "x", ny, "W", W, "h", how, "f", first)); }
}
template<class T> static void Elast (vf::Emit & emit, int what, int dim)
{
  auto few = Confs(0), more = Confs(1); bool th = vf::thorough; string pre = str("el", dim); int mx = dim == 2 ? 4 : 3;
  auto go = [&](const MeshDesc & d, int wk, int sk, int fm, const Conf & c, int stat, int depth, const string & id) { Case<T>(emit, what, d, wk, sk, fm, c, stat, depth, false, pre + id); };
  for (int n = 1; n <= mx; n++) for (int e = 0; e < (1 << (n * (n - 1) / 2)); e++) for (int fm = -1; fm < (1 << n) - 1; fm++) for (int wk = 0; wk < 3; wk++) { if (n == 4 && !th && (e + fm + wk) % 3) continue; int sk = (wk + e + fm + 4) % 4; for (auto & c : more) go(Desc(SeqPart(n), e), wk, sk, fm, c, CUM, 2, Desc(SeqPart(n), e).str()); }
  for (int W = 2; W <= 3; W++) for (int n = 2; n <= (W == 2 ? 4 : 3); n++) AllParts(W, n, [&](const Part & p) { if (!Canonical(p)) return;
    for (int e = 1; e < (1 << (n * (n - 1) / 2)); e++) if (Possible(p, e)) { if (n == 4 && !th && __builtin_popcount(e) < 3) continue; for (int fm : { -1, 1, 2, 5, 6 }) { if (fm >= (1 << n) - 1 || (n == 4 && fm > 0 && fm != 5)) continue; int wk = (e + fm + 1) % 3, sk = (e + fm / 2 + 1) % 4; for (auto & c : th ? more : few) go(Desc(p, e), wk, sk, fm, c, e & 1, 2, Desc(p, e).str()); } } });
  for (int nx = 3; nx <= (th ? 5 : 4); nx++) for (int ny = 2; ny <= 3; ny++) for (int W = 1; W <= 4; W++) for (int how = 0; how < 6; how++) for (int wk = 0; wk < 3; wk++)
    { if (!th && (nx + ny + how + wk) % 2) continue; MeshDesc d = GridMesh(nx, ny, W, how, W > 1); int n = nx * ny, sk = (wk + how) % 4; for (int fm : { -1, (1 << n) - 2, (1 << n) - 1 - (1 << (n / 2)) }) for (auto & c : th ? more : few) go(d, wk, sk, fm, c, how & 1, 3, str("grid", nx, "x", ny, "W", W, "h", how)); }
}
static void Four (vf::Emit & emit, int what)
{
  auto few = Confs(0);
  for (int n = 2; n <= 4; n++) AllParts(4, n, [&](const Part & p) { if (!Canonical(p)) return; if (n == 4 && !vf::thorough) { int small = 0; for (int m : p.mask) small += __builtin_popcount(m) < 2; if (small > 1) return; }
    int ne = n * (n - 1) / 2; for (int e = 1; e < (1 << ne); e++) if (Possible(p, e)) { int most = 1; for (int k = 0; k < ne; k++) if (!(e >> k & 1) && Possible(p, e | 1 << k)) most = 0; if (!most && !(n < 4 && vf::thorough)) continue; int wk = e % 3, sk = (e / 4) % 4, fm = -1; for (auto & c : few) { if (n == 4 && !vf::thorough && c.alg == PLATE) continue; Case(emit, what, Desc(p, e), wk, sk, fm, c, (wk + sk) & 1, 2, false); } } });
}
VF_PART(A01, elast) { Elast<ElT<2>>(emit, Q_A01, 2); Elast<ElT<3>>(emit, Q_A01, 3); }
VF_PART(A02, elast) { Elast<ElT<2>>(emit, Q_A02, 2); Elast<ElT<3>>(emit, Q_A02, 3); }
VF_PART(A01, four) { Four(emit, Q_A01); }
VF_PART(A02, four) { Four(emit, Q_A02); }
VF_PART(A01, seq) { Seq(emit, Q_A01); }
VF_PART(A01, two) { Two(emit, Q_A01); }
VF_PART(A01, three) { Three(emit, Q_A01); }
VF_PART(A01, larger) { Larger(emit, Q_A01); }
VF_PART(A02, seq) { Seq(emit, Q_A02); }
VF_PART(A02, two) { Two(emit, Q_A02); }
VF_PART(A02, three) { Three(emit, Q_A02); }
VF_PART(A02, larger) { Larger(emit, Q_A02); }
