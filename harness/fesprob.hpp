#pragma once
// finite element problems: a hand made mesh, distributed element by element over the simulated processes, spaces and forms of NGSolve on it
#include <comp.hpp>
#include <meshing/meshing.hpp>
// members of netgen that its library does not export
inline void netgen::Mesh :: SetCommunicator (NgMPI_Comm c) { comm = c; }
inline void netgen::ParallelMeshTopology :: SetNV (int n) { glob_vert.SetSize(n); glob_vert = -1; loc2distvert = netgen::DynamicTable<int>(n); }
namespace vh
{
struct FMesh
{
  string id; int dim = 2; std::vector<std::array<double,3>> pt; std::vector<VI> el; VI own;   // owner of an element: 0.. (process own + 1 if there are several)
  std::vector<std::pair<VI,int>> bnd;      // boundary facets with the number of the boundary (1..)
  int W () const { return 1 + *std::max_element(own.begin(), own.end()); }
  int np () const { return W() > 1 ? W() + 1 : 1; }
  VI rankEls (int r) const { VI v; for (size_t e = 0; e < el.size(); e++) if (np() == 1 || own[e] == r - 1) v.push_back(e); return v; }
  // facets that belong to one element only
  void Boundary (const std::function<int(const std::vector<std::array<double,3>> &)> & nr)
  {
    bnd.clear(); std::map<VI,VI> cnt; for (auto & e : el) for (size_t k = 0; k < e.size(); k++) { VI f; for (size_t j = 0; j < e.size(); j++) if (j != k) f.push_back(e[j]); if (dim == 2) { int a = e[(k+1)%3], b = e[(k+2)%3]; f = { a, b }; } VI s = f; std::sort(s.begin(), s.end()); auto it = cnt.find(s); if (it == cnt.end()) cnt[s] = f; else it->second.clear(); }
    for (auto & c : cnt) if (!c.second.empty()) { std::vector<std::array<double,3>> q; for (int v : c.second) q.push_back(pt[v]); bnd.push_back({ c.second, nr(q) }); }
  }
};
// w x h squares cut into triangles; boundaries 1 bottom 2 right 3 top 4 left
inline FMesh TrigMesh (int w, int h)
{
  FMesh m; m.id = str("trig", w, "x", h); for (int y = 0; y <= h; y++) for (int x = 0; x <= w; x++) m.pt.push_back({ x + (x > 0 && x < w ? 0.125 * (y % 2) : 0), y + (y > 0 && y < h ? 0.0625 * (x % 3) : 0), 0 });
  auto v = [&](int x, int y) { return y * (w + 1) + x; };
  for (int y = 0; y < h; y++) for (int x = 0; x < w; x++) { m.el.push_back({ v(x, y), v(x+1, y), v(x+1, y+1) }); m.el.push_back({ v(x, y), v(x+1, y+1), v(x, y+1) }); }
  m.own.assign(m.el.size(), 0); m.Boundary([=](const std::vector<std::array<double,3>> & q) { double y = 0.5 * (q[0][1] + q[1][1]), x = 0.5 * (q[0][0] + q[1][0]); return y < 1e-9 ? 1 : x > w - 1e-9 ? 2 : y > h - 1e-9 ? 3 : 4; }); return m;
}
// w x h x d cubes cut into six tetrahedra each; boundaries 1 bottom 2 right 3 front 4 left 5 back 6 top
inline FMesh TetMesh (int w, int h, int d)
{
  FMesh m; m.dim = 3; m.id = str("tet", w, "x", h, "x", d); auto v = [&](int x, int y, int z) { return (z * (h + 1) + y) * (w + 1) + x; };
  for (int z = 0; z <= d; z++) for (int y = 0; y <= h; y++) for (int x = 0; x <= w; x++) m.pt.push_back({ x * 1.0, y * 1.0, z * 1.0 });
  for (int z = 0; z < d; z++) for (int y = 0; y < h; y++) for (int x = 0; x < w; x++)
    { VI p = { 0, 1, 2 }; do { int c[3] = { x, y, z }; VI t = { v(x, y, z) }; for (int k : p) { c[k]++; t.push_back(v(c[0], c[1], c[2])); }
        auto & a = m.pt[t[0]]; double M[3][3]; for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) M[i][j] = m.pt[t[i+1]][j] - a[j];
        double det = M[0][0]*(M[1][1]*M[2][2]-M[1][2]*M[2][1]) - M[0][1]*(M[1][0]*M[2][2]-M[1][2]*M[2][0]) + M[0][2]*(M[1][0]*M[2][1]-M[1][1]*M[2][0]);
        if (det > 0) std::swap(t[2], t[3]);   // netgen's orientation
        m.el.push_back(t); } while (std::next_permutation(p.begin(), p.end())); }
  m.own.assign(m.el.size(), 0); m.Boundary([=](const std::vector<std::array<double,3>> & q) { double c[3]; for (int k = 0; k < 3; k++) c[k] = (q[0][k] + q[1][k] + q[2][k]) / 3; double e = 1e-9; return c[2] < e ? 1 : c[0] > w - e ? 2 : c[1] < e ? 3 : c[0] < e ? 4 : c[1] > h - e ? 5 : 6; }); return m;
}
inline shared_ptr<ngcomp::MeshAccess> MakeMesh (const FMesh & fm, int r)
{
  auto m = make_shared<netgen::Mesh>(); m->SetDimension(fm.dim); int np = fm.np(); auto els = fm.rankEls(r);
  std::map<int,std::set<int>> who; std::map<int,int> loc;
  for (size_t e = 0; e < fm.el.size(); e++) for (int v : fm.el[e]) { int o = np == 1 ? 0 : fm.own[e] + 1; who[v].insert(o); if (o == r) loc[v] = 0; }
  int n = 0; for (auto & l : loc) { l.second = ++n; auto & q = fm.pt[l.first]; m->AddPoint(netgen::Point3d(q[0], q[1], q[2])); }
  int nb = 0; for (auto & b : fm.bnd) nb = std::max(nb, b.second);
  if (fm.dim == 2) { netgen::FaceDescriptor fd(1, 1, 0, 1); fd.SetBCProperty(1); m->AddFaceDescriptor(fd); }
  else for (int b = 1; b <= nb; b++) { netgen::FaceDescriptor fd(b, 1, 0, b); fd.SetBCProperty(b); m->AddFaceDescriptor(fd); }
  for (int b = 1; b <= nb; b++) m->SetBCName(b - 1, str("b", b));
  m->SetMaterial(1, "m");
  for (int e : els) { auto & t = fm.el[e]; if (fm.dim == 2) { netgen::Element2d q(loc[t[0]], loc[t[1]], loc[t[2]]); q.SetIndex(1); m->AddSurfaceElement(q); } else { netgen::Element q(netgen::TET); for (int k = 0; k < 4; k++) q[k] = loc[t[k]]; q.SetIndex(1); m->AddVolumeElement(q); } }
  for (auto & b : fm.bnd)
    {
      bool mine = false; for (int e : els) { bool all = true; for (int v : b.first) all &= std::count(fm.el[e].begin(), fm.el[e].end(), v) > 0; mine |= all; } if (!mine) continue;
      if (fm.dim == 2) { netgen::Segment s; s[0] = loc[b.first[0]]; s[1] = loc[b.first[1]]; s.si = b.second; s.edgenr = b.second; s.domin = 1; s.domout = 0; s.surfnr1 = -1; s.surfnr2 = -1; s.epgeominfo[0].edgenr = s.epgeominfo[1].edgenr = b.second; m->AddSegment(s); }
      else { netgen::Element2d q(loc[b.first[0]], loc[b.first[1]], loc[b.first[2]]); q.SetIndex(b.second); m->AddSurfaceElement(q); }
    }
  m->ComputeNVertices();
  if (np > 1)
    {
      m->SetCommunicator(NgMPI_Comm(NG_MPI_COMM_WORLD)); auto & pt = m->GetParallelTopology(); pt.SetNV(n);
      for (auto & l : loc) { pt.L2G(netgen::PointIndex(l.second)) = l.first + 1; for (int q : who[l.first]) if (q != r) pt.AddDistantProc(netgen::PointIndex(l.second), q); }
    }
  return make_shared<ngcomp::MeshAccess>(m);
}
} // namespace vh
namespace vh
{
struct FePb { FMesh m; string id, space = "h1ho", op = "grad"; int order = 1, dim = 1; VI diri; bool nodalp2 = false, elim = false; double mass = 0; bool multi () const { return space == "h1ho"; } int ncomp = 0; int comps () const { return ncomp ? ncomp : multi() ? dim : m.dim; } };
struct Fe { shared_ptr<ngcomp::MeshAccess> ma; shared_ptr<ngcomp::FESpace> fes; shared_ptr<ngcomp::BilinearForm> bf; shared_ptr<BaseAMGPC> pc; std::unique_ptr<LocalHeap> lh; };
inline shared_ptr<Fe> MakeFe (const FePb & P, int r)
{
  using namespace ngcomp; auto f = make_shared<Fe>(); f->ma = MakeMesh(P.m, r); f->lh = std::make_unique<LocalHeap>(4000000, "fe");
  Flags fl; fl.SetFlag("order", double(P.order)); if (P.nodalp2) fl.SetFlag("nodalp2", true);
  if (P.diri.size()) { Array<double> d; for (int i : P.diri) d.Append(i); fl.SetFlag("dirichlet", d); }
  Array<shared_ptr<FESpace>> parts; std::vector<int> pc;   // parts of a compound space, their components
  auto single = [&](const string & t, int dim) { Flags q = fl; if (dim > 1) q.SetFlag("dim", double(dim)); return CreateFESpace(t, f->ma, q); };
  if (P.space.rfind("comp", 0) == 0)   // comp: vector and rotations, compsc: all components on their own
    {
      int D = P.m.dim, rot = P.comps() - D; if (P.space[4] == 's') for (int i = 0; i < P.comps(); i++) { parts.Append(single("h1ho", 1)); pc.push_back(1); }
      else { parts.Append(single("VectorH1", 1)); pc.push_back(D); if (rot == 1) { parts.Append(single("h1ho", 1)); pc.push_back(1); } if (rot == 3) { parts.Append(single("VectorH1", 1)); pc.push_back(3); } }
      f->fes = make_shared<CompoundFESpace>(f->ma, parts, Flags());
    }
  else f->fes = single(P.space, P.space == "VectorH1" ? 1 : P.dim);
  f->fes->Update(); f->fes->FinalizeUpdate();
  Flags bl; if (P.elim) bl.SetFlag("eliminate_internal", true); f->bf = CreateBilinearForm(f->fes, "a", bl);
  std::vector<std::pair<shared_ptr<ProxyFunction>,int>> u, v;   // of every component: proxy and component there
  for (int test = 0; test < 2; test++)
    {
      auto & w = test ? v : u; auto V = f->fes;
      auto proxy = [&](shared_ptr<DifferentialOperator> e, shared_ptr<DifferentialOperator> g) { return make_shared<ProxyFunction>(V, test, false, e, g, nullptr, nullptr, nullptr, nullptr); };
      if (parts.Size()) for (size_t i = 0; i < parts.Size(); i++) { auto q = proxy(make_shared<CompoundDifferentialOperator>(parts[i]->GetEvaluator(VOL), i), make_shared<CompoundDifferentialOperator>(parts[i]->GetFluxEvaluator(VOL), i)); for (int c = 0; c < pc[i]; c++) w.push_back({ q, c }); }
      else { auto q = proxy(V->GetEvaluator(VOL), V->GetFluxEvaluator(VOL)); for (int c = 0; c < P.comps(); c++) w.push_back({ q, c }); }
    }
  shared_ptr<CoefficientFunction> cf; int D = P.m.dim;
  // sums of products of linear functionals of value and gradient
  auto add = [&](double w, const std::vector<std::array<double,3>> & g, int c = -1, double val = 0) {   // sum of g[2] * d(u_g[0])/d(x_g[1]) + val * u_c
    auto cst = [](double x) -> shared_ptr<CoefficientFunction> { return make_shared<ConstantCoefficientFunction>(x); };
    auto part = [&](shared_ptr<CoefficientFunction> G, int at, double x) {
      int n = G->Dimension(); if (n == 1) return G * cst(x);
      Array<int> dims; for (int d : G->Dimensions()) dims.Append(d); Array<shared_ptr<CoefficientFunction>> e; for (int i = 0; i < n; i++) e.Append(cst(i == at ? x : 0));
      auto C = MakeVectorialCoefficientFunction(std::move(e)); if (dims.Size() > 1) C = C->Reshape(dims); return InnerProduct(G, C); };
    auto fn = [&](std::vector<std::pair<shared_ptr<ProxyFunction>,int>> & q) {
      shared_ptr<CoefficientFunction> r; auto plus = [&](shared_ptr<CoefficientFunction> z) { r = r ? r + z : z; };
      for (auto & t : g) plus(part(q[int(t[0])].first->Deriv(), q[int(t[0])].second * D + int(t[1]), t[2]));
      if (c >= 0) plus(part(q[c].first, q[c].second, val));
      return r; };
    auto t = w * (fn(u) * fn(v)); cf = cf ? cf + t : t; };
  int comps = P.comps();
  if (P.op == "grad") for (int c = 0; c < comps; c++) for (int k = 0; k < D; k++) add(1 + 0.25 * c, { { double(c), double(k), 1 } });
  if (P.op == "elast")
    {
      for (int i = 0; i < D; i++) for (int j = i; j < D; j++) if (i == j) add(1, { { double(i), double(i), 1 } }); else add(2, { { double(i), double(j), 0.5 }, { double(j), double(i), 0.5 } });
      if (D == 2 && comps == 3) { add(1, { { 1, 0, 0.5 }, { 0, 1, -0.5 } }, 2, -1); for (int k = 0; k < 2; k++) add(0.25, { { 2, double(k), 1 } }); }
      if (comps == 6) for (int k = 0; k < 3; k++) { double a = (k + 1) % 3, b = (k + 2) % 3; add(1, { { b, a, 0.5 }, { a, b, -0.5 } }, 3 + k, -1); for (int j = 0; j < 3; j++) add(0.25, { { 3.0 + k, double(j), 1 } }); }
    }
  if (P.mass) for (int c = 0; c < comps; c++) add(P.mass, {}, c, 1);
  f->bf->AddIntegrator(make_shared<SymbolicBilinearFormIntegrator>(cf, VOL, VOL));
  return f;
}
// what the bilinear form assembles: global numbers, matrix, free unknowns
struct FeData { Dist D; std::vector<char> fr; VI flag, comp; std::vector<std::array<double,3>> pos; };   // flag: carries values of linear functions at pos (component comp, -1: all)
template<class T> void AddLocal (const BaseMatrix & m, const VI & g, Dense & A)
{
  auto sp = dynamic_cast<const ngla::SparseMatrix<T>*>(&m); VFCK(sp, "harness", str("matrix type ", typeid(m).name())); constexpr int BS = BSof<T>();
  for (int i = 0; i < sp->Height(); i++) { auto ci = sp->GetRowIndices(i); auto cv = sp->GetRowValues(i); for (size_t k = 0; k < ci.Size(); k++) for (int a = 0; a < BS; a++) for (int b = 0; b < BS; b++) { T x = cv[k]; A[g[i]*BS+a][g[ci[k]]*BS+b] += Ent(x, a, b); } }
}
inline FeData Pilot (const FePb & P)
{
  FeData F; int np = P.m.np(); F.D.p.W = P.m.W(); F.D.p.first = np > 1; F.D.p.order.resize(np); F.D.bs = P.multi() ? P.dim : 1;
  vf::Explore ex; auto o = vf::modes(np, false); o[0].waitany = false; ex.opt = o[0];
  ex([&](int r) {
    auto f = MakeFe(P, r); f->bf->Assemble(*f->lh); int n = f->fes->GetNDof(), N = n; VI g(n); for (int i = 0; i < n; i++) g[i] = i; auto & p = F.D.p;
    if (np > 1) { Array<int> gn; int ng = 0; auto pd = f->fes->GetParallelDofs(); pd->EnumerateGlobally(nullptr, gn, ng); for (int i = 0; i < n; i++) g[i] = gn[i]; N = ng; }
    if (p.mask.empty()) { p.mask.assign(N, 0); F.fr.assign(N, 0); F.D.A = Zero(N * F.D.bs); }
    p.order[r] = g; for (int i : g) p.mask[i] |= 1 << (r - p.first);
    if (F.flag.empty()) { F.flag.assign(N, 0); F.comp.assign(N, -1); F.pos.resize(N); }
    auto mark = [&](NodeId id, std::array<double,3> x) { Array<int> dn; f->fes->GetDofNrs(id, dn); int c = P.multi() ? 1 : P.comps(), j = dn.Size() / c; for (int k = 0; k < c && dn.Size(); k++) { int d = g[dn[k * j]]; F.flag[d] = 1; F.comp[d] = c > 1 ? k : -1; F.pos[d] = x; } };
    auto pt = [&](int v) { std::array<double,3> x{ 0, 0, 0 }; if (P.m.dim == 2) { auto q = f->ma->GetPoint<2>(v); x = { q(0), q(1), 0 }; } else { auto q = f->ma->GetPoint<3>(v); x = { q(0), q(1), q(2) }; } return x; };
    for (size_t k = 0; k < f->ma->GetNV(); k++) mark(NodeId(NT_VERTEX, k), pt(k));
    if (P.nodalp2 && P.order > 1) for (size_t k = 0; k < f->ma->GetNEdges(); k++) { auto e = f->ma->GetEdgePNums(k); auto a = pt(e[0]), b = pt(e[1]); mark(NodeId(NT_EDGE, k), { 0.5 * (a[0] + b[0]), 0.5 * (a[1] + b[1]), 0.5 * (a[2] + b[2]) }); }
    auto fd = f->fes->GetFreeDofs(P.elim); for (int i = 0; i < n; i++) if (!fd || fd->Test(i)) F.fr[g[i]] = 1;
    auto m = f->bf->GetMatrixPtr(); if (auto pm = dynamic_pointer_cast<ParallelMatrix>(m)) m = pm->GetMatrix();
    if (n) { if (F.D.bs == 1) AddLocal<double>(*m, g, F.D.A); if (F.D.bs == 2) AddLocal<Mat<2>>(*m, g, F.D.A); if (F.D.bs == 3) AddLocal<Mat<3>>(*m, g, F.D.A); if (F.D.bs == 6) AddLocal<Mat<6>>(*m, g, F.D.A); }
  });
  return F;
}
template<class PC> PcTest FeTest (const string & nm, const FePb & P, const FeData & F, const std::vector<Opt> & os, int what, std::vector<sim::Options> opts)
{
  PcTest t; t.nm = nm; for (auto & o : os) t.nm += " " + o.id; t.D = F.D; t.fm = -1; t.fr = F.fr; t.os = os; t.what = what; t.opts = opts;
  t.build = [P](int r, const Flags & fl) -> shared_ptr<BaseAMGPC> { auto f = MakeFe(P, r); auto pc = make_shared<PC>(f->bf, fl, "pc"); f->pc = pc; f->bf->Assemble(*f->lh); return shared_ptr<BaseAMGPC>(f, pc.get()); };
  return t;
}
} // namespace vh
