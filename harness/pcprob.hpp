#pragma once
// problems and option sets for complete preconditioners: all small problems, grids, distributions
#include "distmat.hpp"
#include <amg_pc_vertex.hpp>
#include <amg_matrix.hpp>
#include "pccheck.hpp"
namespace vh
{
static std::vector<sim::Options> One (int np) { auto v = vf::modes(np, false); for (auto & o : v) o.waitany = false; v.resize(1); return v; }
// a graph from a list of edges
static Graph G (int n, const std::vector<std::pair<int,int>> & ed, const VD & shift)
{
  Graph g; g.n = n; g.w.assign(n * (n - 1) / 2, 0.0); for (size_t k = 0; k < ed.size(); k++) g.w[PairNo(n, ed[k].first, ed[k].second)] = 1 + 0.25 * (k % 3); g.shift = shift; g.shift.resize(n, 0.0); return g;
}
// ------------------------------------------------------------ vector valued problems
// unknown i has position pos[i]; an edge contributes w [K,-K;-K,K] with K = t t' (elastic bar, t: direction) or a fixed coupling K
static std::array<double,3> GenPos (int i) { static const double q[8][3] = { { 0, 0, 0 }, { 1, 0.125, 0.0625 }, { 0.25, 1, -0.125 }, { 0.375, 0.25, 1.125 }, { 1.25, 1.125, 0.875 }, { 2, 0.375, -0.25 }, { -0.75, 0.5, 0.625 }, { 1.5, -0.875, 0.5 } }; return { q[i % 8][0] + i / 8, q[i % 8][1], q[i % 8][2] }; }
static Graph AsVec (Graph g, int kind) { g.vec = kind; if (kind && g.pos.empty()) for (int i = 0; i < g.n; i++) g.pos.push_back(GenPos(i)); return g; }
static Dense VecMat (const Graph & g)
{
  int d = g.vec % 10, e = 0; Dense A = Zero(g.n * d);
  for (int i = 0; i < g.n; i++) for (int j = i + 1; j < g.n; j++, e++) if (g.w[e] != 0)
    {
      Dense K = Zero(d); VD t; double l = 0; for (int k = 0; k < d; k++) { t.push_back(g.pos[j][k] - g.pos[i][k]); l += t[k] * t[k]; }
      for (int a = 0; a < d; a++) for (int b = 0; b < d; b++) K[a][b] = g.vec < 10 ? t[a] * t[b] / l : a == b ? 1 + 0.25 * a : 0.125;
      for (int a = 0; a < d; a++) for (int b = 0; b < d; b++) { double x = g.w[e] * K[a][b]; A[i*d+a][i*d+b] += x; A[j*d+a][j*d+b] += x; A[i*d+a][j*d+b] -= x; A[j*d+a][i*d+b] -= x; }
    }
  for (int i = 0; i < g.n; i++) for (int a = 0; a < d; a++) for (int b = 0; b < d; b++) A[i*d+a][i*d+b] += g.shift[i] * (a == b ? 1 + 0.25 * a : 0.125);
  return A;
}
static Dist MakeAny (const Part & p, const Graph & g, const std::vector<VI> & hold)
{
  Dist D = MakeDist(p, g, hold, 1); if (!g.vec) return D;
  D.bs = g.vec % 10; D.A = VecMat(g);
  for (int r = 0; r < p.np(); r++)
    {
      Graph q = g; int e = 0; auto fr = [&](const VI & h) { auto it = std::find(h.begin(), h.end(), r); return it == h.end() ? 0.0 : Frac(it - h.begin(), h.size()); };
      for (int i = 0; i < g.n; i++) for (int j = i + 1; j < g.n; j++, e++) q.w[e] = g.w[e] * fr(hold[e]);
      for (int i = 0; i < g.n; i++) q.shift[i] = g.shift[i] * fr(p.procs(i));
      D.loc[r] = VecMat(q);
    }
  return D;
}
static Dist Simple (const Part & p, const Graph & g)   // every edge held by all processes that know both ends
{
  std::vector<VI> hold; for (int i = 0; i < g.n; i++) for (int j = i + 1; j < g.n; j++) { VI h; if (g.w[PairNo(g.n, i, j)] != 0) for (int q : p.procs(i)) if (p.on(j, q)) h.push_back(q); hold.push_back(h); if (g.w[PairNo(g.n, i, j)] != 0) vf::check(h.size(), "harness", str("edge ", i, " ", j, " held by nobody")); }
  return MakeAny(p, g, hold);
}

// ------------------------------------------------------------ problems
struct Prob { string id; Dist D; int fm; };
static Part Seq (int n) { Part p; p.W = 1; p.first = 0; p.mask.assign(n, 1); return p; }
// w x h grid, cut into vertical strips (owner of columns given), columns in 'both' shared by two neighbours
static Graph Grid (int w, int h, const VD & shift = { 0.5 }, int extra = 0)
{
  std::vector<std::pair<int,int>> e; for (int y = 0; y < h; y++) for (int x = 0; x < w; x++) { int v = y * w + x; if (x + 1 < w) e.push_back({ v, v + 1 }); if (y + 1 < h) e.push_back({ v, v + w }); if (extra && x + 1 < w && y + 1 < h) e.push_back({ v, v + w + 1 }); }
  Graph g = G(w * h, e, shift); for (int i = 0; i < w * h; i++) g.pos.push_back({ i % w + 0.125 * (i % 3 - 1), i / w + 0.0625 * (i % 5 - 2), 0.125 * (i % 4) }); return g;
}
// two by hs columns in 3d, connected as the tetrahedra of a box grid
static Graph Grid3 (int w, int hs, const VD & shift)
{
  int h = 2 * hs; std::vector<std::pair<int,int>> e; auto id = [&](int x, int y, int z) { return (z * hs + y) * w + x; };
  for (int x = 0; x < w; x++) for (int y = 0; y < hs; y++) for (int z = 0; z < 2; z++) for (int m = 1; m < 8; m++)
    { int a = x + (m & 1), b = y + (m >> 1 & 1), c = z + (m >> 2); if (a < w && b < hs && c < 2) e.push_back({ id(x, y, z), id(a, b, c) }); }
  for (auto & x : e) if (x.first > x.second) std::swap(x.first, x.second);
  Graph g = G(w * h, e, shift); for (int i = 0; i < w * h; i++) g.pos.push_back({ i % w + 0.125 * (i % 3 - 1), (i / w) % hs + 0.0625 * (i % 5 - 2), i / w / hs + 0.125 * (i % 4) }); return g;
}
static Graph AnyGrid (int w, int h, const VD & shift, int extra, int kind) { return kind == 3 && h % 2 == 0 ? AsVec(Grid3(w, h / 2, shift), kind) : AsVec(Grid(w, h, shift, extra || kind == 2 || kind == 3), kind); }
static Part Cols (int w, int h, int W, VI colmask) { Part p; p.W = W; for (int y = 0; y < h; y++) for (int x = 0; x < w; x++) p.mask.push_back(colmask[x]); return p; }
static bool Definite (const Dense & A, int fm, int bs = 1);
static std::vector<Prob> Problems (int kind, int vk = 0)
{
  std::vector<Prob> v; auto add = [&](string id, const Part & p, const Graph & g, int fm) { Dist D = Simple(p, AsVec(g, vk)); if (!vk || Definite(D.A, fm, D.bs)) v.push_back({ id, D, fm }); };
  auto Grid = [&](int w, int h, const VD & s = { 0.5 }) { return AnyGrid(w, h, s, 0, vk); };
  if (kind == 0)
    {
      add("grid3x3", Seq(9), Grid(3, 3), -1);
      add("path7d", Seq(7), Grid(7, 1, { 0 }), 0x7e);
      add("grid4x3p2", Cols(4, 3, 2, { 1, 1, 3, 2 }), Grid(4, 3, { 0.5, 0, 0, 0, 0, 0.25 }), -1);
      add("grid4x2p3d", Cols(4, 2, 3, { 1, 3, 6, 4 }), Grid(4, 2, { 0.5 }), 0xee);
    }
  if (kind == 1)
    {
      Graph g = Grid(7, 1, { 0.5, 0, 0, 0.5, 0.5 }); g.w[PairNo(7, 2, 3)] = 0; g.w[PairNo(7, 3, 4)] = 0;   // unknown 3 has no neighbours
      add("iso7", Seq(7), g, -1);
      Graph h = Grid(3, 3, { 0.5, 0, 0, 0, 100, 0, 0, 0, 0 });                   // unknown 4 has a dominating weight of its own
      add("dom9", Seq(9), h, -1);
      add("iso7p2", Cols(7, 1, 2, { 1, 1, 3, 3, 3, 2, 2 }), g, -1);
      add("dom9p2", Cols(3, 3, 2, { 1, 3, 2 }), h, -1);
      add("disc7p2", Cols(7, 1, 2, { 1, 1, 1, 1, 2, 2, 2 }), g, -1);
      add("one7p2", Cols(7, 1, 2, { 1, 1, 1, 1, 1, 1, 1 }), Grid(7, 1), -1);
    }
  return v;
}
static std::vector<std::vector<Opt>> Product (const std::vector<std::vector<Opt>> & f)
{
  std::vector<std::vector<Opt>> out; VI idx(f.size(), 0);
  for (;;)
    {
      std::vector<Opt> o; for (size_t k = 0; k < f.size(); k++) o.push_back(f[k][idx[k]]); out.push_back(o);
      int k = int(f.size()) - 1; while (k >= 0 && ++idx[k] == (int)f[k].size()) idx[k--] = 0;
      if (k < 0) return out;
    }
}
typedef std::vector<Opt> F;
static F cycles = { { "V", { { "mg_cycle", "V" } } }, { "W", { { "mg_cycle", "W" } } }, { "BS", { { "mg_cycle", "BS" } } } };
static F algs = { { "spw", { { "crs_alg", "spw" } } }, { "mis", { { "crs_alg", "mis" } } }, { "plate", { { "crs_alg", "plate_test" } } } };
static F prols = { { "pw", { { "prol_type", "piecewise" } } }, { "aux", { { "prol_type", "aux_smoothed" } } }, { "semi", { { "prol_type", "semi_aux_smoothed" } } } };
static F sms = { { "gs", { { "sm_type", "gs" } } }, { "bgs", { { "sm_type", "bgs" } } } };
static F steps = { { "s1" }, { "s2", {}, { { "sm_steps", 2 } } }, { "symm", {}, {}, { { "sm_symm", true } } } };
static F clevs = { { "inv", { { "clev", "inv" } } }, { "noinv", { { "clev", "none" } } } };
static F sizes = { { "mc1", {}, { { "max_coarse_size", 1 } } }, { "mc4", {}, { { "max_coarse_size", 4 } } }, { "ml2", {}, { { "max_levels", 2 }, { "max_coarse_size", 1 } } } };
static F rds = { { "rd0", {}, {}, { { "enable_redist", false } } }, { "rd1", {}, { { "rd_seq_nv", 0 }, { "rd_min_nv_gl", 0 } } }, { "rd5k" } };



// ------------------------------------------------------------ all small problems
// weights: 0 equal, 1 varied, 2 strong and weak, 3 alternating sign; shift: 0 everywhere, 1 none, 2 a dominating one at the first unknown
static Graph Small (int n, int edges, int wk, int sk)
{
  Graph g; g.n = n; g.w.assign(n * (n - 1) / 2, 0.0); int k = 0;
  for (size_t e = 0; e < g.w.size(); e++) if (edges >> e & 1) { g.w[e] = wk == 0 ? 1 : wk == 1 ? 1 + 0.25 * (k % 3) : wk == 2 ? (k % 2 ? 1e-3 : 1) : (k % 2 ? -0.125 : 1); k++; }
  g.shift.assign(n, sk == 0 ? 0.5 : sk == 1 ? 0.0 : 0.25); if (sk == 2) g.shift[0] = 50; g.id = str("e", edges, "w", wk, "s", sk); return g;
}
static bool Definite (const Dense & A, int fm, int bs)
{
  VI f; for (size_t i = 0; i < A.size(); i++) if (fm < 0 || (fm >> (i / bs) & 1)) f.push_back(i);
  Dense B = Zero(f.size()); for (size_t i = 0; i < f.size(); i++) for (size_t j = 0; j < f.size(); j++) B[i][j] = A[f[i]][f[j]];
  if (f.empty()) return true; VD e = SymEig(B); for (double x : e) if (x < 1e-6) return false; return true;
}
static bool Covered (const Part & p, int edges) { int n = p.N(), e = 0; for (int i = 0; i < n; i++) for (int j = i + 1; j < n; j++, e++) if ((edges >> e & 1) && !(p.mask[i] & p.mask[j])) return false; return true; }
static Opt N (const char * k, double v) { return { str(k, "=", v), {}, { { k, v } } }; }
static Opt B (const char * k, bool v) { return { str(k, "=", v), {}, {}, { { k, v } } }; }
static Opt T (const char * k, const char * v) { return { str(k, "=", v), { { k, v } } }; }
typedef std::vector<std::vector<Opt>> Sets;
static Sets Few = { {}, { T("crs_alg", "mis"), T("sm_type", "bgs"), N("max_coarse_size", 1) }, { T("prol_type", "aux_smoothed"), T("mg_cycle", "W"), N("max_coarse_size", 1), B("enable_redist", false) } };
static Sets More = { { T("prol_type", "piecewise"), T("sm_type", "bgs"), N("max_coarse_size", 1), N("rd_seq_nv", 0), N("rd_min_nv_gl", 0) }, { T("crs_alg", "plate_test"), T("sm_type", "bgs") },
  { T("crs_alg", "mis"), T("prol_type", "aux_smoothed"), T("mg_cycle", "BS"), B("sm_symm", true) }, { T("clev", "none"), N("sm_steps", 2), N("max_coarse_size", 2) }, { T("sm_type", "jacobi"), N("max_levels", 2) },
  { T("energy", "triv"), N("max_coarse_size", 1), N("spw_rounds", 1) }, { T("energy", "triv"), T("crs_alg", "mis"), B("mis_dist2", false), N("max_coarse_size", 1) }, { B("enable_multistep", false), B("enable_redist", false), N("max_coarse_size", 1) } };
static string OptId (const std::vector<Opt> & os) { string id; for (auto & o : os) id += (id.empty() ? "" : ",") + o.id; return id.empty() ? "default" : id; }
typedef std::function<PcTest(const string &, const Dist &, int, const std::vector<Opt> &, int, std::vector<sim::Options>)> Maker;

static string VK (int vk) { return vk ? str(vk < 10 ? "el" : "h1_", vk % 10, "/") : ""; }
// sequential: all graphs, all masks
static void EmitSmallSeq (vf::Emit & emit, const Maker & mk, int what, int n0, int n1, const Sets & sets, const VI & wks, const VI & sks, int vk = 0)
{
  for (int n = n0; n <= n1; n++) for (auto & os : sets) for (int e = 0; e < 1 << n * (n - 1) / 2; e++)
    emit(str(VK(vk), "seq/", n, "/", e, "/", OptId(os)), [=]() {
      for (int wk : wks) for (int sk : sks) { Graph g = AsVec(Small(n, e, wk, sk), vk); Dist D = Simple(Seq(n), g); for (int m = 0; m < 1 << n; m++) if (Definite(D.A, m, D.bs)) mk(str("n", n, g.id, " free ", m), D, m, os, what, One(1)).Run(); }
    });
}
// distributed: all partitions (up to renaming the processes), all graphs whose edges some process can hold, all masks
static void EmitSmallPar (vf::Emit & emit, const Maker & mk, int what, int W, int n, const Sets & sets, const VI & wks, const VI & sks, bool allgraphs, bool allmasks, const std::function<std::vector<sim::Options>(int)> & opts, int vk = 0)
{
  AllParts(W, n, [&](const Part & p) {
    if (!Canonical(p)) return;
    for (auto & os : sets) if (W == 1 || !Has(os, "sm_type", "jacobi")) emit(str(VK(vk), "par/", p.str(), "/", OptId(os)), [=]() {
      int ne = n * (n - 1) / 2; VI es; for (int e = (1 << ne) - 1; e >= 0; e--) if (Covered(p, e)) { es.push_back(e); if (!allgraphs) break; }
      if (!allgraphs) { int path = 0; for (int i = 0; i + 1 < n; i++) path |= 1 << PairNo(n, i, i + 1); if (Covered(p, path) && es[0] != path) es.push_back(path); }
      for (int e : es) for (int wk : wks) for (int sk : sks)
        {
          Graph g = AsVec(Small(n, e, wk, sk), vk); Dist D = Simple(p, g);
          for (int m = (1 << n) - 1; m >= 0; m--) { if (!allmasks && m != (1 << n) - 1 && m != (1 << n) - 2) continue; if (Definite(D.A, m, D.bs)) mk(str("n", n, g.id, " ", p.str(), " free ", m), D, m, os, what, opts(p.np())).Run(); }
        }
    });
  });
}
// larger grids cut into strips, blocks or scattered pieces
struct Big { string id; Part p; Graph g; std::vector<char> fr; };
static std::vector<Big> Bigs (int size, int vk = 0)
{
  std::vector<Big> v;
  auto add = [&](string id, const Part & p, const Graph & g, const std::function<bool(int)> & con) { Big b; b.id = id; b.p = p; b.g = g; for (int i = 0; i < g.n; i++) b.fr.push_back(!con(i)); v.push_back(b); };
  for (int c = 0; c < 4; c++)   // constrained: none, left border, one inner unknown and a corner, every fifth
    {
      auto con = [=](int w) { return [=](int i) { return c == 0 ? false : c == 1 ? i % w == 0 : c == 2 ? i == 0 || i == w + 2 || (vk == 3 && i == 3 * w) : i % 5 == 1; }; };
      VD sh = c == 0 ? vk && vk < 10 ? VD(200, 0.5) : VD{ 0.5 } : VD{ 0 };
      int w = 5 + size, h = 4 + size; if (vk == 3) h += h % 2; Graph g = AnyGrid(w, h, sh, 0, vk), gt = AnyGrid(w, h, sh, 1, vk); string cs = str("/c", c);
      add(str("seq", w, "x", h, cs), Seq(w * h), g, con(w)); add(str("seqt", w, "x", h, cs), Seq(w * h), gt, con(w));
      if (vk == 0 || vk > 10) add(str("line", 14 + 8 * size, cs), Seq(14 + 8 * size), AsVec(Grid(14 + 8 * size, 1, sh), vk), con(14 + 8 * size)); else add(str("strip", 7 + 4 * size, cs), Seq(14 + 8 * size), AsVec(Grid(7 + 4 * size, 2, vk == 3 ? VD(200, 0.5) : sh, 1), vk), con(7 + 4 * size));
      auto cols = [&](int W, const VI & m) { VI cm; for (int x = 0; x < w; x++) cm.push_back(m[x * m.size() / w]); return Cols(w, h, W, cm); };
      add(str("p2", cs), cols(2, { 1, 1, 3, 2, 2 }), g, con(w)); add(str("p2t", cs), cols(2, { 1, 1, 3, 2, 2 }), gt, con(w));
      add(str("p2all", cs), cols(2, { 3 }), g, con(w)); add(str("p3", cs), cols(3, { 1, 3, 2, 6, 4 }), g, con(w)); add(str("p3e", cs), cols(3, { 1, 1, 5, 4, 4 }), gt, con(w));
      { Part p; p.W = 4; for (int z = 0; z < h; z++) for (int x = 0; x < w; x++) { int hh = vk == 3 ? h / 2 : h, y = z % hh, mx = x < w / 2 ? 1 : x == w / 2 ? 3 : 2, my = y < hh / 2 ? 1 : y == hh / 2 ? 3 : 2, m = 0; for (int b = 0; b < 4; b++) if ((mx >> (b & 1) & 1) && (my >> (b >> 1) & 1)) m |= 1 << b; p.mask.push_back(m); }
        add(str("p4", cs), p, g, con(w)); add(str("p4t", cs), p, gt, con(w)); }
    }
  return v;
}
static void EmitBig (vf::Emit & emit, const Maker & mk, int what, int size, const Sets & sets, const std::function<std::vector<sim::Options>(int)> & opts, int vk = 0, bool some = false)
{
  for (auto & b : Bigs(size, vk)) if (!some || b.id == "p3/c1" || b.id == "p2t/c3" || b.id == "p4/c2" || (b.id.rfind("seqt", 0) == 0 && b.id.back() == '0')) for (auto & os : sets) if (b.p.np() == 1 || !Has(os, "sm_type", "jacobi"))
    emit(str(VK(vk), "big", size, "/", b.id, "/", OptId(os)), [=]() { auto t = mk("big " + b.id, Simple(b.p, b.g), -1, os, what, opts(b.p.np())); t.fr = b.fr; t.Run(); });
}
static void EmitProduct (vf::Emit & emit, const Maker & mk, int what, const std::vector<Prob> & probs, const Sets & sets, const std::function<std::vector<sim::Options>(int)> & opts)
{
  for (auto & pr : probs) for (auto & os : sets) { string id = pr.id; for (auto & o : os) id += "/" + o.id; emit(id, [=]() { mk(pr.id, pr.D, pr.fm, os, what, opts(pr.D.p.np())).Run(); }); }
}
static std::vector<sim::Options> Two (int np) { auto v = vf::modes(np, false); for (auto & o : v) o.waitany = false; return v; }
static std::vector<sim::Options> Four (int np) { auto v = vf::modes(np, true); for (auto & o : v) o.waitany = false; return v; }
// options one at a time on top of a set that builds several levels
static Sets Singles ()
{
  Sets v; std::vector<std::vector<Opt>> ch = {
    { N("sp_omega", 0.5) }, { N("sp_omega", 1.5) }, { N("sp_max_per_row", 1) }, { N("sp_max_per_row", 2) }, { N("sp_max_per_row", 8) }, { N("sp_max_per_row_classic", 2) }, { N("sp_min_frac", 0.5) }, { N("sp_min_frac", 0.001) },
    { B("sp_use_roots", false) }, { N("sp_improve_its", 1) }, { B("improve_avgs", true) }, { B("ecw_geom", true) }, { B("ecw_geom", false) }, { B("check_kvecs", true) }, { B("keep_grid_maps", true) },
    { B("enable_multistep", false) }, { B("enable_multistep", true) }, { N("aaf", 0.5) }, { N("first_aaf", 0.5), N("aaf", 0.5) }, { N("first_aaf", 0.3), N("aaf", 0.3) }, { N("aafaaf_scale", 2) }, { N("min_coarse_size", 6) },
    { N("spw_rounds", 1) }, { N("spw_rounds", 2) }, { N("spw_rounds", 5) }, { B("spw_pick_robust", true) }, { B("spw_neib_boost", true) }, { B("spw_neib_boost", false) }, { B("spw_cbs", true) }, { B("spw_orphan_treatment", true) }, { B("spw_orphan_treatment", false) },
    { B("spw_orphan_treatment", true), N("spw_rounds", 1) }, { N("spw_diag_stab_boost", 1) }, { B("spw_big_soc_robust", true), B("spw_cbs", true) },
    { N("edge_thresh", 0.5) }, { N("edge_thresh", 0.01) }, { N("vert_thresh", 0.1) }, { N("vert_thresh", 0.9) }, { B("crs_robust", false) }, { B("crs_robust", true) }, { B("check_isolated_vertices", true) }, { B("ecw_stab_hack", true) },
    { T("crs_alg", "mis"), B("mis_neib_boost", true) }, { T("crs_alg", "mis"), B("mis_lazy_neib_boost", true), B("mis_neib_boost", true) }, { T("crs_alg", "mis"), B("mis_dist2", true) }, { T("crs_alg", "mis"), B("mis_dist2", false) }, { T("crs_alg", "mis"), B("mis_ecw_minmax", true) }, { T("crs_alg", "mis"), T("mis_minmax_avg", "min") }, { T("crs_alg", "mis"), T("mis_minmax_avg", "max") },
    { T("energy", "triv") }, { T("energy", "triv"), T("crs_alg", "mis") }, { B("faflm", true) }, { B("smooth_after_emb", true) }, { B("smooth_after_emb", true), T("sm_type", "gs"), T("mg_cycle", "W") }, { B("regularize_cmats", true) }, { B("sync", true) },
    { B("sm_NG_MPI_overlap", false) }, { B("sm_shm", true) }, { B("sm_shm", false) }, { B("sm_sl2", true) }, { N("sm_steps_loc", 2) }, { B("sm_symm_loc", true) }, { T("sm_type", "jacobi") }, { T("sm_type", "dyn_block_gs") }, { N("sm_steps", 3) },
    { N("rd_seq_nv", 3) }, { N("rd_pfac", 0.9), N("rd_seq_nv", 0) }, { N("rd_min_nv_gl", 0), N("rd_seq_nv", 0), N("rd_crs_thresh", 0.1) }, { N("rd_min_nv_gl", 0), N("rd_seq_nv", 0), N("rd_loc_thresh", 0.9) }, { N("rd_min_nv_gl", 0), N("rd_seq_nv", 0), N("rd_min_nv_thresh", 3) }, { N("rd_min_nv_gl", 0), N("rd_seq_nv", 0), N("rd_loc_gl", 0.9) },
    { N("rdaf", 0.9), N("first_rdaf", 0.9), N("rd_seq_nv", 0), N("rd_min_nv_gl", 0) }, { N("rdaf_scale", 2), N("rd_seq_nv", 0), N("rd_min_nv_gl", 0) },
    { T("log_level", "normal") }, { T("log_level", "extra") }, { T("log_level", "basic"), B("print_log", true) }, { T("log_level", "extra"), B("print_log", false) }, { T("log_level_pc", "basic") }, { B("print_log", false) } };
  for (auto & c : ch) for (int b = 0; b < 3; b++)
    {
      std::vector<Opt> o = { N("max_coarse_size", b == 1 ? 3 : 1) }; if (b == 1) { o.push_back(T("crs_alg", "mis")); o.push_back(T("sm_type", "bgs")); } if (b == 2) { o.push_back(T("prol_type", "piecewise")); o.push_back(B("enable_redist", false)); }
      for (auto & x : c) { if (b == 1 && x.id == "smooth_after_emb=1") o.push_back(T("sm_type", "gs")); o.push_back(x); } v.push_back(o);   // block smoothing after the embedding needs a finite element space
    }
  return v;
}

// many processes, gathered into several groups before everything is on one process
static Sets Regroup ()
{
  std::vector<Opt> g = { N("max_coarse_size", 1), N("rd_seq_nv", 0), N("rd_min_nv_gl", 0), N("rd_pfac", 0.5), N("rd_loc_thresh", 0) }; Sets v;
  for (auto & c : Sets { { N("rd_min_nv_thresh", 100) }, { T("crs_alg", "mis"), T("prol_type", "piecewise"), N("first_rdaf", 0.9), N("rdaf", 0.9) }, { T("prol_type", "aux_smoothed"), N("first_rdaf", 0.9), N("rdaf", 0.9), T("sm_type", "bgs") }, { N("rd_seq_nv", 4), N("first_rdaf", 0.9), N("rdaf", 0.9), T("mg_cycle", "W") },
                         { B("enable_multistep", true), N("rd_min_nv_thresh", 3), T("crs_alg", "plate_test") }, { N("rd_min_nv_thresh", 100), T("clev", "none"), T("mg_cycle", "BS") } })
    { auto o = g; o.insert(o.end(), c.begin(), c.end()); v.push_back(o); }
  return v;
}
static void EmitRegroup (vf::Emit & emit, const Maker & mk, int what, int size, const std::function<std::vector<sim::Options>(int)> & opts, int vk = 0)
{
  int w = 6 + size, h = 4 + (vk == 3 ? 0 : size);
  auto cut = [&](int nx, int ny) {   // blocks that share their borders
    Part p; p.W = nx * ny; for (int z = 0; z < h; z++) for (int x = 0; x < w; x++)
      {
        int hh = vk == 3 ? h / 2 : h, y = z % hh, m = 0; auto in = [](int x, int n, int k, int b) { int lo = b * (n - 1) / k, up = (b + 1) * (n - 1) / k; return x >= lo && x <= up; };
        for (int a = 0; a < nx; a++) for (int b = 0; b < ny; b++) if (in(x, w, nx, a) && (ny == 1 || in(y, hh, ny, b))) m |= 1 << (a * ny + b);
        p.mask.push_back(m);
      }
    return p; };
  for (int c = 0; c < 3; c++) for (auto [nx, ny] : std::vector<std::pair<int,int>> { { 2, 2 }, { 4, 1 }, { 5, 1 }, { 3, 2 } }) for (auto & os : Regroup())
    {
      auto con = [=](int i) { return c == 0 ? false : c == 1 ? i % w == 0 : i == 0 || i == w + 2 || (vk == 3 && i == 3 * w); };
      Graph g = AnyGrid(w, h, c == 0 ? vk && vk < 10 ? VD(200, 0.5) : VD{ 0.5 } : VD{ 0 }, 0, vk); Part p = cut(nx, ny); std::vector<char> fr; for (int i = 0; i < g.n; i++) fr.push_back(!con(i)); string id = str(VK(vk), "regroup", size, "/", nx, "x", ny, "/c", c, "/");
      string oid = OptId(os); emit(id + oid.substr(oid.find("rd_loc_thresh=0") + 16), [=]() { auto t = mk("regroup " + id, Simple(p, g), -1, os, what, opts(p.np())); t.fr = fr; t.Run(); });
    }
}

} // namespace vh
