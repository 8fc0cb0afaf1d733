#pragma once
// rigid body modes and the meshes of the levels
namespace vh
{
typedef std::array<double,3> P3;
// the preconditioner, with access to the meshes of the levels
template<class BASE> struct Rec : public BASE
{
  Array<shared_ptr<BaseAMGFactory::AMGLevel>> levs;
  using BASE::BASE;
  Array<shared_ptr<BaseSmoother>> BuildSmoothers (FlatArray<shared_ptr<BaseAMGFactory::AMGLevel>> levels, shared_ptr<DOFMap> map) override
  { for (auto l : levels) levs.Append(l); return BASE::BuildSmoothers(levels, map); }
};
template<int DIM> using EPC = Rec<ElmatVAMG<ElasticityAMGFactory<DIM>, double, double>>;
template<int DIM> using HPC = Rec<VertexAMGPC<H1AMGFactory<DIM>>>;
// modes of level l with b components per unknown: translations (constants), rotations
static std::vector<VD> Modes (int vec, int bs, const std::function<P3(int)> & pos, int n)
{
  int d = vec % 10; std::vector<VD> m;
  for (int k = 0; k < d; k++) { VD v(n * bs, 0.0); for (int i = 0; i < n; i++) v[i*bs+k] = 1; m.push_back(v); }
  if (vec == 2) { VD v(n * bs, 0.0); for (int i = 0; i < n; i++) { auto x = pos(i); v[i*bs] = -x[1]; v[i*bs+1] = x[0]; if (bs == 3) v[i*bs+2] = 1; } m.push_back(v); }
  if (vec == 3) for (int k = 0; k < 3; k++)
    { VD v(n * bs, 0.0); int a = (k + 1) % 3, b = (k + 2) % 3; for (int i = 0; i < n; i++) { auto x = pos(i); v[i*bs+a] = -x[b]; v[i*bs+b] = x[a]; if (bs == 6) v[i*bs+3+k] = 1; } m.push_back(v); }
  return m;
}
template<int DIM> static void GetPos (BaseAMGPC & b, int l, const Num & num, std::map<int,P3> & pos)
{
  auto & pc = dynamic_cast<EPC<DIM>&>(b); if (l >= (int)pc.levs.Size()) return;
  auto mesh = dynamic_pointer_cast<ElasticityMesh<DIM>>(pc.levs[l]->cap->mesh); if (!mesh || mesh == pc.levs[0]->cap->mesh) return;
  mesh->CumulateData(); auto vd = std::get<0>(mesh->Data())->Data();
  VFCK(vd.Size() == num.g.size(), "size", "vertices and unknowns of a level");
  for (size_t i = 0; i < vd.Size(); i++) { P3 x{ 0, 0, 0 }; for (int k = 0; k < DIM; k++) x[k] = vd[i].pos(k); auto it = pos.find(num.g[i]); if (it != pos.end()) VFCK(it->second == x, "position", str("level ", l, ": processes disagree about the position of the coarse vertex ", num.g[i], ": ", S(VD(x.begin(), x.end())), " and ", S(VD(it->second.begin(), it->second.end())))); pos[num.g[i]] = x; }
}
} // namespace vh
