// D03: distributed algebraic meshes; U01: messages
#include "meshcheck.hpp"
using namespace vh;

static void CheckMesh (const MeshDesc & d)
{
  const Part & p = d.p; int np = p.np();
  std::vector<RView> VW(np);
  Par(np, [&](int r) {
    auto L = MakeMesh(d, r);
    CheckLocal(p, d.edges, *L.m, *L.eqc, L.g, r, VW[r]);
    vf::note("meshes");
  }, [&]() { CheckViews(p, d.edges, VW); });
}

// all edge sets: every pair of vertices absent or known by a subset (all: of all subsets, otherwise: everybody / first / last process) of the processes that have both
static void AllEdges (vf::Emit & emit, const Part & p, bool all, bool rev)
{
  std::vector<PII> pr; std::vector<VI> opt;
  for (int u = 0; u < p.N(); u++) for (int v = u + 1; v < p.N(); v++)
    if (int m = p.mask[u] & p.mask[v])
      {
        pr.push_back(PII(u, v)); VI o = { 0 };
        if (all) { for (int s = 1; s <= m; s++) if ((s & m) == s) o.push_back(s); }
        else { o.push_back(m); if (__builtin_popcount(m) > 1) { int lo = m & -m, hi = m; while (hi & (hi - 1)) hi &= hi - 1; o.push_back(lo); o.push_back(hi); } }
        opt.push_back(o);
      }
  VI at(pr.size(), 0);
  for (;;)
    {
      MeshDesc d; d.p = p; d.rev = rev;
      for (size_t i = 0; i < pr.size(); i++) if (opt[i][at[i]]) d.edges.push_back({ pr[i].first, pr[i].second, opt[i][at[i]] });
      emit(d.str(), [d]() { CheckMesh(d); });
      int k = int(pr.size()) - 1;
      while (k >= 0 && at[k] + 1 == (int)opt[k].size()) at[k--] = 0;
      if (k < 0) return;
      at[k]++;
    }
}

VF_PART(D03, small)
{
  for (int N = 1; N <= 3; N++) SortedParts(1, N, [&](const Part & p) { AllEdges(emit, p, true, false); }, 0);
  for (int W = 1; W <= 2; W++) for (int N = 1; N <= 3; N++) AllParts(W, N, [&](const Part & p) { if (Canonical(p)) for (int rev = 0; rev < 2; rev++) AllEdges(emit, p, true, rev); });
  for (int N = 1; N <= 3; N++) AllParts(3, N, [&](const Part & p) { if (Canonical(p)) AllEdges(emit, p, N < 3 || vf::thorough, true); });
}
VF_PART(D03, four)
{
  AllParts(2, 4, [&](const Part & p) { if (Canonical(p)) AllEdges(emit, p, false, true); });
}
// intersections of classes that are no class of any vertex
VF_PART(D03, classes)
{
  AllParts(3, 4, [&](const Part & p) { if (Canonical(p) && (vf::thorough || p.mask[0] <= p.mask[1])) {
    // every set of edges, known by their last process only / every edge present, every choice of who knows it
    std::vector<PII> pr; for (int u = 0; u < 4; u++) for (int v = u + 1; v < 4; v++) if (p.mask[u] & p.mask[v]) pr.push_back(PII(u, v));
    for (int s = 1; s < (1 << pr.size()); s++) if (vf::thorough || s == (1 << pr.size()) - 1 || __builtin_popcount(s) <= 2)
      for (int k = 0; k < 2; k++)
        {
          MeshDesc d; d.p = p; d.rev = k;
          for (size_t i = 0; i < pr.size(); i++) if (s >> i & 1) { int m = p.mask[pr[i].first] & p.mask[pr[i].second]; int hi = m; while (hi & (hi - 1)) hi &= hi - 1; d.edges.push_back({ pr[i].first, pr[i].second, k ? hi : m }); }
          emit(d.str(), [d]() { CheckMesh(d); });
        } } });
  for (int N = 2; N <= 3; N++) AllParts(4, N, [&](const Part & p) { if (Canonical(p)) AllEdges(emit, p, N == 2, true); });
}
// strips and grids cut into pieces: every process knows the cells it owns
VF_PART(D03, larger)
{
  for (int nx = 2; nx <= (vf::thorough ? 6 : 5); nx++) for (int ny = 1; ny <= 4; ny++) for (int W = 1; W <= 4; W++) for (int how = 0; how < 6; how++) for (int first = (W == 1 ? 0 : 1); first < 2; first++)
    {
      MeshDesc d = GridMesh(nx, ny, W, how, first);
      emit(str("grid", nx, "x", ny, "W", W, first ? "" : "n", "h", how), [d]() { CheckMesh(d); });
    }
}
