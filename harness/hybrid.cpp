// S03 smoothing with a distributed matrix, S02 adjointness and energy in parallel, D05 the modified diagonal
#include "distmat.hpp"
#include <hybrid_matrix.hpp>
#include <gssmoother.hpp>
#include <block_gssmoother.hpp>
#include <loc_block_gssmoother.hpp>
#include <dyn_block_smoother.hpp>
using namespace vh;

// factors by which the diagonal of owned rows is enlarged, per scalar row
static VD ModFactors (const Dist & D, bool scalar)
{
  int bs = D.bs, N = D.g.n; VD ad(N * bs, 0.0);
  for (int r = 0; r < D.p.np(); r++) for (int k = 0; k < N; k++) for (int j = 0; j < N; j++) if (D.p.on(k, r) && D.p.on(j, r) && D.p.master(k) != D.p.master(j))
    for (int a = 0; a < bs; a++) for (int b = 0; b < bs; b++) if (D.loc[r][k*bs+a][j*bs+b] != 0) ad[k*bs+a] += std::fabs(D.loc[r][k*bs+a][j*bs+b]) / std::sqrt(D.A[k*bs+a][k*bs+a] * D.A[j*bs+b][j*bs+b]);
  VD f(N * bs); for (int k = 0; k < N; k++) { double m = 1; for (int a = 0; a < bs; a++) { f[k*bs+a] = std::max(1.0, 0.51 * (1 + ad[k*bs+a])); m = std::max(m, f[k*bs+a]); } if (!scalar) for (int a = 0; a < bs; a++) f[k*bs+a] = m; }
  return f;
}
static Dense LocalPart (const Dist & D, int r)   // rows and columns owned by r
{ Dense M = D.A; int bs = D.bs; for (size_t i = 0; i < M.size(); i++) for (size_t j = 0; j < M.size(); j++) if (D.p.master(i / bs) != r || D.p.master(j / bs) != r) M[i][j] = 0; return M; }
static Dense Enlarged (const Dist & D, Dense M, const VD & f, bool scalar)
{ int bs = D.bs; for (int k = 0; k < D.g.n; k++) for (int a = 0; a < bs; a++) for (int b = 0; b < bs; b++) if (!scalar || a == b) M[k*bs+a][k*bs+b] *= f[k*bs+a]; return M; }

// the corrections process r makes, in the expected order; several orders are fine as long as backward is the reverse of forward
typedef std::function<std::vector<Corr>(int)> CorrFn;
typedef std::function<shared_ptr<BaseSmoother>(int)> SmFn;
struct Call { int what, k, ru, ur, xz; PARALLEL_STATUS sb, sx, sr; string str () const { static const char * w[] = { "Smooth", "SmoothBack", "SmoothSymm" }; return vf::str(w[what], k < 0 ? string() : vf::str("K(", k, ")"), " res_updated=", ru, " update_res=", ur, " x_zero=", xz, " b:", sb, " x:", sx, " res:", sr); } };
static std::vector<Call> Calls (int level)
{
  std::vector<Call> c;
  for (int what = 0; what < (level > 1 ? 3 : 2); what++) for (int k = -1; k < (level > 1 ? 3 : 0); k += (k < 0 ? 3 : 1)) for (int ru = 0; ru < 2; ru++) for (int ur = 0; ur < 2; ur++) for (int xz = 0; xz < 2; xz++)
    for (int sb = 0; sb < 2; sb++) for (int sr = 0; sr < (ru ? 2 : 1); sr++) for (int sx = 0; sx < 2; sx++)
      {
        if (level == 0 && (sb + ru + ur + xz + sr + sx + what) % 3) continue;
        if ((what == 2 || k > 0) && (sb + sr + sx != 1)) continue;
        c.push_back({ what, k, ru, ur, xz, sb ? CUMULATED : DISTRIBUTED, sx ? DISTRIBUTED : CUMULATED, sr ? CUMULATED : DISTRIBUTED });
      }
  return c;
}
struct Result { Dense f, b; };
enum { METHOD = 1, ADJOINT = 2, ENERGY = 4 };
static void * slot = nullptr;
static bool NeedThread () { if (!slot) { slot = sim::findLocal("_ZZN3amg16GetGlobMPIThreadEv", 16); if (slot) sim::rankLocal(slot, 16); } return slot != nullptr; }

static void RunHybrid (const string & nm, const Dist & D, SmFn make, CorrFn corr, int what, const std::vector<Call> & calls, const std::vector<sim::Options> & opts, bool operators = true, uint64_t maxRuns = 0, bool fixedOrder = false)
{
  vf::progress(nm); const Part & p = D.p; int np = p.np(), bs = D.bs, N = D.A.size();
  VD x0(N), b0(N), z(N, 0.0); for (int i = 0; i < N; i++) { b0[i] = (i * 5 % 7) - 2.5; x0[i] = (i * 3 % 5) - 1.25; }
  VD r0 = Resid(D.A, x0, b0);
  std::vector<Gather> xf, xb; std::vector<std::vector<Gather>> cx;   // per call: x, res, b
  for (int j = 0; j < N; j++) { xf.emplace_back(p, bs); xb.emplace_back(p, bs); }
  for (size_t c = 0; c < calls.size(); c++) { cx.push_back({ Gather(p, bs), Gather(p, bs), Gather(p, bs) }); }
  auto body = [&](int r) {
    {
      auto sm = make(r);
      AutoVector x = sm->CreateColVector(), b = sm->CreateColVector(), res = sm->CreateColVector();
      if (operators) for (int d = 0; d < 2; d++) for (int j = 0; j < N; j++)
        {
          VD e(N, 0.0); e[j] = 1; SetGlobal(x, p, r, z, CUMULATED, bs); SetGlobal(b, p, r, e, j & 1 ? CUMULATED : DISTRIBUTED, bs, j); SetLoc(res, VD(p.locals(r).size() * bs, 7.5)); res.SetParallelStatus(DISTRIBUTED);
          if (d) sm->SmoothBack(x, b, res, false, false, false); else sm->Smooth(x, b, res, false, false, false);
          (d ? xb : xf)[j].Put(r, x); vf::transitions();
        }
      for (size_t k = 0; k < calls.size(); k++)
        {
          auto & c = calls[k]; SetGlobal(x, p, r, c.xz ? z : x0, c.sx, bs, c.xz ? 0 : 3); SetGlobal(b, p, r, b0, c.sb, bs, 5); if (c.xz) SetLoc(x, VD(p.locals(r).size() * bs, 0.0));
          if (c.ru) SetGlobal(res, p, r, c.xz ? b0 : r0, c.sr, bs, 4); else { SetLoc(res, VD(p.locals(r).size() * bs, 100 + r)); res.SetParallelStatus(DISTRIBUTED); }
          sim::window(true);
          switch (c.what) {
            case 0: if (c.k < 0) sm->Smooth(x, b, res, c.ru, c.ur, c.xz); else sm->SmoothK(c.k, x, b, res, c.ru, c.ur, c.xz); break;
            case 1: if (c.k < 0) sm->SmoothBack(x, b, res, c.ru, c.ur, c.xz); else sm->SmoothBackK(c.k, x, b, res, c.ru, c.ur, c.xz); break;
            case 2: if (c.k < 0) sm->SmoothSymm(x, b, res, c.ru, c.ur, c.xz); else sm->SmoothSymmK(c.k, x, b, res, c.ru, c.ur, c.xz); break;
          }
          sim::window(false);
          cx[k][0].Put(r, x); cx[k][1].Put(r, res); cx[k][2].Put(r, b); vf::transitions();
        }
    }
    if (slot) ((shared_ptr<void>*)slot)->reset();
  };
  std::vector<std::vector<Corr>> seq(np); if (corr) for (int r = 0; r < np; r++) seq[r] = corr(r);
  Result op; bool haveOp = false;
  auto after = [&]() {
    Result got; got.f = got.b = Zero(N);
    if (operators)
      {
        for (int j = 0; j < N; j++) { VD f = xf[j].Get(nm + " forward"), b = xb[j].Get(nm + " backward"); for (int i = 0; i < N; i++) { got.f[i][j] = f[i]; got.b[i][j] = b[i]; } }
        if (haveOp) vf::check(Close(got.f, op.f, 1e-12) && Close(got.b, op.b, 1e-12), "timing", str(nm, ": result depends on the timing: ", S(got.f), " and ", S(op.f)));
        if ((what & METHOD) && !haveOp)
          {
            op.f = op.b = Zero(N);
            for (int r = 0; r < np; r++)
              {
                auto blk = [&](Dense C) { for (int i = 0; i < N; i++) for (int j = 0; j < N; j++) if (p.master(i / bs) != r || p.master(j / bs) != r) C[i][j] = 0; return C; };
                Dense M = LocalPart(D, r), F = blk(got.f), B = blk(got.b); FB o = InOrder(M, seq[r]);
                bool ok = Close(F, o.first, 1e-9) && Close(B, o.second, 1e-9);
                if (!ok && !fixedOrder && seq[r].size() <= 4) for (auto & q : AllOrders(M, seq[r])) if (Close(F, q.first, 1e-9) && Close(B, q.second, 1e-9)) { ok = true; o = q; break; }
                vf::check(ok, "method", str(nm, ": process ", r, " does not make the advertised corrections: forward ", S(F), " backward ", S(B), " expected e.g. ", S(o.first), " / ", S(o.second), " A ", S(D.A)));
                for (int i = 0; i < N; i++) for (int j = 0; j < N; j++) { op.f[i][j] += o.first[i][j]; op.b[i][j] += o.second[i][j]; }
              }
            vf::check(Close(got.f, op.f, 1e-9) && Close(got.b, op.b, 1e-9), "method", str(nm, ": corrections across owners: ", S(got.f)));
          }
        else if (!haveOp) { op = got; if (what & ADJOINT) vf::check(Close(got.b, Trans(got.f), 1e-9), "adjoint", str(nm, ": backward ", S(got.b), " is not the transpose of forward ", S(got.f), " A ", S(D.A)));
          if (what & ENERGY) { SmTest::EnergyOf(nm, D.A, got.f); SmTest::EnergyOf(nm, D.A, got.b); } }
        haveOp = true;
      }
    else if (!haveOp) { op.f = op.b = Zero(N); for (int r = 0; r < np; r++) { FB o = InOrder(LocalPart(D, r), seq[r]); for (int i = 0; i < N; i++) for (int j = 0; j < N; j++) { op.f[i][j] += o.first[i][j]; op.b[i][j] += o.second[i][j]; } } haveOp = true; }
    for (size_t k = 0; k < calls.size(); k++)
      {
        auto & c = calls[k]; string h = nm + ": " + c.str(); VD x = c.xz ? z : x0;
        for (int s = 0; s < std::max(c.k, 1); s++) { if (c.what != 1) x = Step(D.A, op.f, x, b0); if (c.what != 0) x = Step(D.A, op.b, x, b0); }
        VD gx = cx[k][0].Get(h + " iterate"); vf::check(Close(gx, x, 1e-9), "iterate", str(h, ": got ", S(gx), " expected ", S(x)));
        if (c.ur) { VD gr = cx[k][1].Get(h + " residual"), wr = Resid(D.A, x, b0); vf::check(Close(gr, wr, 1e-9), "residual", str(h, ": residual ", S(gr), " but b-Ax is ", S(wr))); }
        VD gb = cx[k][2].Get(h + " rhs"); vf::check(Close(gb, b0, 1e-12), "rhs changed", str(h, ": ", S(gb)));
      }
  };
  for (auto o : opts) { vf::Explore ex; ex.opt = o; ex.maxRuns = maxRuns ? maxRuns : 2000000; ex(body, after); }
  vf::traces();
}
static std::vector<sim::Options> Opts (int np, bool full, bool threads)
{ auto v = vf::modes(np, full); for (auto & o : v) { o.waitany = false; o.threads = threads; } return v; }

// ------------------------------------------------------------ enumeration of distributed matrices
// all sets of holders per pair of unknowns (nobody: no edge)
static void AllDists (const Part & p, int maxOpt, const std::function<void(const Graph &, const std::vector<VI> &)> & f)
{
  int n = p.N(); std::vector<std::vector<VI>> opts;
  for (int i = 0; i < n; i++) for (int j = i + 1; j < n; j++)
    {
      VI sh; for (int q : p.procs(i)) if (p.on(j, q)) sh.push_back(q);
      std::vector<VI> o; for (int m = 0; m < (1 << sh.size()); m++) { VI h; for (size_t k = 0; k < sh.size(); k++) if (m >> k & 1) h.push_back(sh[k]); o.push_back(h); }
      if ((int)o.size() > maxOpt) { std::vector<VI> s; for (int k = 0; k < maxOpt; k++) s.push_back(o[k == 0 && maxOpt > 2 ? 0 : k == maxOpt - 1 ? o.size() - 1 : (k * 3 + opts.size()) % (o.size() - 2) + 1]); std::sort(s.begin(), s.end()); s.erase(std::unique(s.begin(), s.end()), s.end()); o = s; }
      opts.push_back(o);
    }
  VI idx(opts.size(), 0);
  for (;;)
    {
      Graph g; g.n = n; std::vector<VI> hold; g.id = p.str() + "h";
      for (size_t e = 0; e < opts.size(); e++) { auto & h = opts[e][idx[e]]; hold.push_back(h); g.w.push_back(h.empty() ? 0 : (1.0 + e * 2 % 3) * (e % 3 == 2 ? -1 : 1)); int m = 0; for (int q : h) m |= 1 << (q - p.first); g.id += std::to_string(m); }
      for (int i = 0; i < n; i++) g.shift.push_back(0.25 + 0.5 * (i % 3));
      f(g, hold);
      int k = int(opts.size()) - 1; while (k >= 0 && ++idx[k] == (int)opts[k].size()) idx[k--] = 0;
      if (k < 0) return;
    }
}
static shared_ptr<BitArray> LocMask (const Part & p, int r, int m) { if (m < 0) return nullptr; auto l = p.locals(r); auto b = make_shared<BitArray>(l.size()); b->Clear(); for (size_t i = 0; i < l.size(); i++) if (m >> l[i] & 1) b->SetBit(i); return b; }
static bool IsEx (const Part & p, int g) { return p.procs(g).size() > 1; }

template<class TM> static CorrFn GSCorr (const Dist & D, int m, bool pinv)
{
  constexpr int bs = BSof<TM>(); VD f = ModFactors(D, false); Dense Am = Enlarged(D, D.A, f, false);
  return [=](int r) {
    VI loc, ex; auto l = D.p.locals(r); for (int k : l) if (D.p.master(k) == r && (m < 0 || m >> k & 1)) (IsEx(D.p, k) ? ex : loc).push_back(k);
    // first half of the interior rows, exchanged rows, second half; only one of several admissible orders
    int split = m < 0 ? int(l.size()) / 2 : loc.size() ? int(std::find(l.begin(), l.end(), loc[loc.size() / 2]) - l.begin()) : 0;
    VI ord; for (int k : loc) if (std::find(l.begin(), l.end(), k) - l.begin() < split) ord.push_back(k); ord.insert(ord.end(), ex.begin(), ex.end()); for (int k : loc) if (std::find(l.begin(), l.end(), k) - l.begin() >= split) ord.push_back(k);
    std::vector<Corr> c; for (int k : ord) c.push_back(MakeCorr(Am, Scal({ k }, bs), pinv)); return c;
  };
}
template<class TM> static SmFn GSMake (const Dist & D, int m, bool pinv, bool overlap, bool thread)
{ return [=, &D](int r) -> shared_ptr<BaseSmoother> { auto s = make_shared<HybridGSSmoother<TM>>(ParMat<TM>(D, r), LocMask(D.p, r, m), pinv, overlap, thread); s->Finalize(); return s; }; }


// block smoothers: global list of blocks, every process gets the parts it knows
typedef std::vector<VI> Blocks;
static string S (const Blocks & b) { string s; for (auto & x : b) s += vh::S(x); return s; }
static std::vector<Blocks> BlockLists (int n)
{
  std::vector<Blocks> out; Blocks pts; VI all; for (int i = 0; i < n; i++) { pts.push_back({ i }); all.push_back(i); }
  out.push_back(pts); if (n > 1) { out.push_back({ all }); Blocks c(pts.begin() + 1, pts.end()); out.push_back(c); std::reverse(pts.begin(), pts.end()); out.push_back(pts); }
  if (n == 2) out.push_back({ { 0, 1 }, { 1 } });
  if (n == 3) { out.push_back({ { 0, 1 }, { 2 } }); out.push_back({ { 0, 2 }, { 1 } }); out.push_back({ { 0 }, { 2, 1 } }); out.push_back({ { 0, 1 }, { 1, 2 } }); out.push_back({ { 2, 0 }, { 1, 0 }, { 2, 1 } }); }
  return out;
}
static Table<int> LocBlocks (const Part & p, int r, const Blocks & bl)
{
  auto l = p.locals(r); Blocks b; for (auto & x : bl) { VI y; for (int d : x) if (p.on(d, r)) y.push_back(std::find(l.begin(), l.end(), d) - l.begin()); if (y.size()) b.push_back(y); }
  return MakeTable(b);
}
static CorrFn BSCorr (const Dist & D, Blocks bl)
{
  int bs = D.bs; VD f = ModFactors(D, false); Dense Am = Enlarged(D, D.A, f, false);
  return [=](int r) {
    Blocks loc, ex; for (auto & b : bl) { VI d; bool e = false; for (int x : b) if (D.p.master(x) == r) { d.push_back(x); e = e || IsEx(D.p, x); } if (d.size()) (e ? ex : loc).push_back(d); }
    Blocks ord(loc.begin(), loc.begin() + loc.size() / 2); ord.insert(ord.end(), ex.begin(), ex.end()); ord.insert(ord.end(), loc.begin() + loc.size() / 2, loc.end());
    std::vector<Corr> c; for (auto & b : ord) c.push_back(MakeCorr(Am, Scal(b, bs), false)); return c;
  };
}
template<class TM> static SmFn BSMake (const Dist & D, Blocks bl, bool bs2, bool overlap, bool thread, bool parallel)
{ return [=, &D](int r) -> shared_ptr<BaseSmoother> { auto s = make_shared<HybridBS<TM>>(ParMat<TM>(D, r), LocBlocks(D.p, r, bl), false, overlap, thread, parallel, false, bs2); s->Finalize(); return s; }; }

// dynamic blocks: block structure read off the split matrix
static CorrFn DynCorr (const Dist & D, int m, std::vector<Blocks> blocks)
{
  VD f = ModFactors(D, true); Dense Am = Enlarged(D, D.A, f, true);
  return [=](int r) {
    Blocks loc, ex; for (auto & b : blocks[r]) { VI d; bool e = false; for (int x : b) if (D.p.master(x) == r && (m < 0 || m >> x & 1)) { d.push_back(x); e = e || IsEx(D.p, x); } if (d.size()) (e ? ex : loc).push_back(d); }
    Blocks ord(loc.begin(), loc.begin() + loc.size() / 2); ord.insert(ord.end(), ex.begin(), ex.end()); ord.insert(ord.end(), loc.begin() + loc.size() / 2, loc.end());
    std::vector<Corr> c; for (auto & b : ord) c.push_back(MakeCorr(Am, b, false)); return c;
  };
}
static SmFn DynMake (const Dist & D, int m, bool overlap, bool thread, std::vector<Blocks> * blocks)
{
  return [=, &D](int r) -> shared_ptr<BaseSmoother> {
    auto H = make_shared<DynamicBlockHybridMatrix<double>>(ParMat<double>(D, r));
    if (blocks) { auto & b = (*blocks)[r]; b.clear(); auto M = H->GetDynSpM(); auto l = D.p.locals(r); for (size_t k = 0; k < M->GetNumBlocks(); k++) { VI d; M->ItRows(M->GetBlockRows(k), [&](auto, auto row) { d.push_back(l[row]); }); b.push_back(d); } }
    return make_shared<HybridDynBlockSmoother<double>>(H, LocMask(D.p, r, m), 1, thread, overlap);
  };
}
static std::vector<Blocks> DynBlocks (const Dist & D)
{ std::vector<Blocks> b(D.p.np()); vf::Explore ex; ex.opt.n = D.p.np(); ex.opt.waitany = false; auto mk = DynMake(D, -1, true, false, &b); ex([&](int r) { mk(r); }); return b; }

template<class F> static void SmallDists (int maxW, F f)
{
  for (int W = 1; W <= maxW; W++) for (int N = 1; N <= 3; N++) for (int first = 1; first >= (W >= 2 && N <= 2 ? 0 : 1); first--)
    AllParts(W, N, [&](const Part & p) { if (!Canonical(p) && N > 2) return; f(p); }, first);
}
static bool Some (int m, int n) { return m < 0 || m == (1 << n) - 1 || m == 1 || (n > 1 && m == (1 << (n - 1))); }
template<class TM> static void EmitGS (vf::Emit & emit, int what)
{
  constexpr int bs = BSof<TM>();
  SmallDists(bs == 1 || vf::thorough ? 3 : 2 + (bs == 2), [&](const Part & p) {
    if (bs > 1 && !Canonical(p)) return;
    emit(str("gs", bs, "/", p.str()), [=]() {
      int n = p.N(), cnt = 0;
      AllDists(p, bs == 1 ? (vf::thorough ? 8 : 4) : 2 + vf::thorough, [&](const Graph & g, const std::vector<VI> & hold) {
        Dist D = MakeDist(p, g, hold, bs);
        for (int m = -1; m < (1 << n); m++)
          {
            if (bs > 1 && !Some(m, n) && !vf::thorough) continue;
            for (int ov = 0; ov < 2; ov++)
              {
                if (ov && !Some(m, n)) continue;
                if (what == METHOD) RunHybrid(str("HybridGSSmoother<", bs, "> ", g.id, " mask ", m, " overlap ", ov), D, GSMake<TM>(D, m, false, ov, false), GSCorr<TM>(D, m, false), METHOD, Calls(m == -1 ? (n <= 2 ? 2 : 1) : 0), Opts(p.np(), n <= 2 && !ov, false));
                else if (!ov) RunHybrid(str("HybridGSSmoother<", bs, "> ", g.id, " mask ", m), D, GSMake<TM>(D, m, false, true, false), nullptr, bs == 1 ? ADJOINT | ENERGY : ADJOINT, {}, Opts(p.np(), false, false));
                cnt++;
              }
          }
      });
      vf::evals(cnt); vf::outcome(vf::hash(p.str()));
    });
  });
}
template<class TM> static void EmitBS (vf::Emit & emit, int what)
{
  constexpr int bs = BSof<TM>();
  SmallDists(bs == 1 || vf::thorough ? 3 : 2, [&](const Part & p) {
    if (bs > 1 && !Canonical(p)) return;
    emit(str("bs", bs, "/", p.str()), [=]() {
      int n = p.N(), cnt = 0;
      AllDists(p, bs == 1 && n < 3 ? 8 : vf::thorough ? 4 : 2, [&](const Graph & g, const std::vector<VI> & hold) {
        Dist D = MakeDist(p, g, hold, bs);
        for (auto & bl : BlockLists(n)) for (int v = 0; v < 3; v++)
          {
            string nm = str("HybridBS<", bs, "> ", g.id, " blocks ", S(bl), v == 0 ? " BSmoother2" : " BSmoother", v == 2 ? " parallel" : "");
            if (what == METHOD) RunHybrid(nm, D, BSMake<TM>(D, bl, v == 0, (cnt & 1) || v == 0, false, v == 2), BSCorr(D, bl), METHOD, Calls(n <= 2 && bs == 1 ? 2 : v == 0 && bs == 1 ? 1 : 0), Opts(p.np(), n <= 2 && v == 0, false));
            else RunHybrid(nm, D, BSMake<TM>(D, bl, v == 0, true, false, v == 2), nullptr, bs == 1 ? ADJOINT | ENERGY : ADJOINT, {}, Opts(p.np(), false, false));
            cnt++;
          }
      });
      vf::evals(cnt); vf::outcome(vf::hash(p.str()));
    });
  });
}
static void EmitDyn (vf::Emit & emit, int what)
{
  SmallDists(3, [&](const Part & p) {
    emit(str("dyn/", p.str()), [=]() {
      int n = p.N(), cnt = 0;
      AllDists(p, n < 3 ? 8 : vf::thorough ? 5 : 3, [&](const Graph & g, const std::vector<VI> & hold) {
        Dist D = MakeDist(p, g, hold, 1); auto bl = DynBlocks(D);
        for (int m = -1; m < (1 << n); m++)
          {
            string nm = str("HybridDynBlock ", g.id, " mask ", m);
            if (what == METHOD) RunHybrid(nm, D, DynMake(D, m, cnt & 1, false, nullptr), DynCorr(D, m, bl), METHOD, Calls(m == -1 ? (n <= 2 ? 2 : 1) : 0), Opts(p.np(), n <= 2, false));
            else RunHybrid(nm, D, DynMake(D, m, true, false, nullptr), nullptr, ADJOINT | ENERGY, {}, Opts(p.np(), false, false));
            cnt++;
          }
      });
      vf::evals(cnt); vf::outcome(vf::hash(p.str()));
    });
  });
}
VF_PART(S03, gs) { EmitGS<double>(emit, METHOD); EmitGS<Mat<2,2,double>>(emit, METHOD); EmitGS<Mat<3,3,double>>(emit, METHOD); }
VF_PART(S03, blocks) { EmitBS<double>(emit, METHOD); EmitBS<Mat<2,2,double>>(emit, METHOD); }
VF_PART(S03, dyn) { EmitDyn(emit, METHOD); }
VF_PART(S02, parallel) { EmitGS<double>(emit, ADJOINT); EmitGS<Mat<2,2,double>>(emit, ADJOINT); EmitBS<double>(emit, ADJOINT); EmitBS<Mat<2,2,double>>(emit, ADJOINT); EmitDyn(emit, ADJOINT); }

// larger problems: rows beyond every unrolling width, several exchanged rows per class
static Part Strip (int W, int n, int kind)
{
  Part p; p.W = W;
  for (int i = 0; i < n; i++)
    {
      int m = 0;
      if (kind == 0) { int b = i * W / n; m = 1 << b; int b2 = (i + 1) * W / n; if (i + 1 < n && b2 < W) m |= 1 << b2; }            // strips sharing one row of unknowns
      else if (kind == 1) { int b = i * W / n; m = 1 << b; if (i % 3 == 0) m |= 1 << (b + 1) % W; if (i % 7 == 0) m |= (1 << W) - 1; }
      else m = 1 + i * 5 % ((1 << W) - 1);
      p.mask.push_back(m);
    }
  return p;
}
static void BigDist (const Part & p, int gk, Graph & g, std::vector<VI> & hold)
{
  int n = p.N(); g.n = n; g.id = str("n", n, "k", gk); int e = 0;
  for (int i = 0; i < n; i++) for (int j = i + 1; j < n; j++, e++)
    {
      VI sh; for (int q : p.procs(i)) if (p.on(j, q)) sh.push_back(q);
      bool c = gk == 0 ? j - i <= 2 : gk == 1 ? (j == i + 1 || j == i + 4) : (i * 7 + j * 3) % 4 == 0;
      VI h; if (c && sh.size()) { if (e % 3 == 0) h = sh; else h = { sh[e % sh.size()] }; }
      hold.push_back(h); g.w.push_back(h.empty() ? 0 : (0.5 + (i * 3 + j) % 4) * (e % 5 == 4 ? -1 : 1));
    }
  for (int i = 0; i < n; i++) g.shift.push_back(0.25 + i % 3 * 0.5);
}
template<class TM> static void LargerHybrid (int W, int n, int pk, int gk, int what)
{
  constexpr int bs = BSof<TM>(); Part p = Strip(W, n, pk); Graph g; std::vector<VI> hold; BigDist(p, gk, g, hold); Dist D = MakeDist(p, g, hold, bs);
  string nm = str("W", W, " partition ", pk, " ", g.id, "<", bs, ">");
  int wh = what == METHOD ? METHOD : bs == 1 ? ADJOINT | ENERGY : ADJOINT; auto calls = what == METHOD ? Calls(1) : std::vector<Call>(); auto opts = Opts(p.np(), false, false);
  for (int mk = 0; mk < 4; mk++)
    {
      int m = mk == 0 ? -1 : 0; if (mk) for (int i = 0; i < n; i++) if (mk == 1 ? i % 4 != 1 : mk == 2 ? i > 1 : !IsEx(p, i)) m |= 1 << i;
      RunHybrid(str("HybridGSSmoother ", nm, " mask ", mk), D, GSMake<TM>(D, m, false, mk & 1, false), GSCorr<TM>(D, m, false), wh, calls, opts, true, 0, true);
      if (bs == 1) { auto bl = DynBlocks(D); RunHybrid(str("HybridDynBlock ", nm, " mask ", mk), D, DynMake(D, m, !(mk & 1), false, nullptr), DynCorr(D, m, bl), wh, calls, opts, true, 0, true); }
    }
  for (int bk = 0; bk < 4; bk++)
    {
      Blocks bl; int w = bk == 0 ? 1 : bk == 1 ? 3 : bk == 2 ? 5 : 2;
      if (bk < 3) for (int i = 0; i < n; i += w) { VI b; for (int j = i; j < std::min(n, i + w); j++) b.push_back(j); bl.push_back(b); }
      else for (int i = 0; i + 1 < n; i += 2) { VI b; for (int j = i; j < std::min(n, i + 4); j++) b.push_back(j); bl.push_back(b); }
      RunHybrid(str("HybridBS ", nm, " blocks ", bk), D, BSMake<TM>(D, bl, true, bk & 1, false, false), BSCorr(D, bl), wh, calls, opts, true, 0, true);
    }
  vf::evals(12); vf::outcome(vf::hash(nm));
}
static void EmitLarge (vf::Emit & emit, int what)
{
  for (int W = 1; W <= 4; W++) for (int n : { 5, 8, 13, 21 }) for (int pk = 0; pk < 3; pk++) for (int gk = 0; gk < 3; gk++)
    {
      if (n > 13 && !vf::thorough && (pk + gk) % 3) continue;
      emit(str("large1/W", W, "/n", n, "/p", pk, "/g", gk), [=]() { LargerHybrid<double>(W, n, pk, gk, what); });
      if (n <= 8) { emit(str("large2/W", W, "/n", n, "/p", pk, "/g", gk), [=]() { LargerHybrid<Mat<2,2,double>>(W, n, pk, gk, what); }); if (n == 5) emit(str("large3/W", W, "/n", n, "/p", pk, "/g", gk), [=]() { LargerHybrid<Mat<3,3,double>>(W, n, pk, gk, what); }); }
    }
}
VF_PART(S03, larger) { EmitLarge(emit, METHOD); }
VF_PART(S02, larger) { EmitLarge(emit, ADJOINT); }

// communication by the helper thread
VF_PART(S03, helper)
{
  SmallDists(3, [&](const Part & p) {
    if (!Canonical(p) || p.W == 1) return;
    emit(str("helper/", p.str()), [=]() {
      if (!NeedThread()) { vf::note("helper thread not found"); return; }
      int n = p.N(), cnt = 0;
      AllDists(p, n < 3 ? 4 : 2, [&](const Graph & g, const std::vector<VI> & hold) {
        Dist D = MakeDist(p, g, hold, 1); Blocks pts; for (int i = 0; i < n; i++) pts.push_back({ i }); auto dyn = DynBlocks(D);
        for (int ov = 0; ov < 2; ov++)
          {
            auto c = Calls(n <= 2 && p.W == 2 ? 1 : 0); auto o = Opts(p.np(), n <= 2, true);
            RunHybrid(str("HybridGSSmoother ", g.id, " thread, overlap ", ov), D, GSMake<double>(D, -1, false, ov, true), GSCorr<double>(D, -1, false), METHOD, c, o);
            RunHybrid(str("HybridBS ", g.id, " thread, overlap ", ov), D, BSMake<double>(D, pts, true, ov, true, false), BSCorr(D, pts), METHOD, c, o);
            RunHybrid(str("HybridDynBlock ", g.id, " thread, overlap ", ov), D, DynMake(D, -1, ov, true, nullptr), DynCorr(D, -1, dyn), METHOD, c, o); cnt += 3;
          }
      });
      vf::evals(cnt); vf::outcome(vf::hash(p.str()));
    });
  });
}
// single calls under every interleaving (bounded preemptions) of all processes and their helper threads
VF_PART(S03, interleavings)
{
  for (int W = 2; W <= 3; W++)
    for (auto & mask : std::vector<VI>{ { 3 }, { 1, 3, 2 }, { 3, 3 }, { 7 }, { 1, 7, 4 }, { 3, 6 } })
      {
        Part p; p.W = W; p.mask = mask; bool ok = true; for (int m : mask) ok = ok && m < (1 << W); if (!ok || (W == 3 && mask[0] != 7 && mask.size() < 2)) continue; if (W == 3 && mask == VI({ 3, 3 })) continue;
        for (int thread = 0; thread < 2; thread++) for (int kind = 0; kind < 3; kind++)
          for (int ci = 0; ci < 6; ci++)
            emit(str("il/", p.str(), "/thread", thread, "/kind", kind, "/call", ci), [=]() {
              if (!NeedThread()) { vf::note("helper thread not found"); if (thread) return; }
              int n = p.N(); Graph g; std::vector<VI> hold; bool first = true; AllDists(p, 2, [&](const Graph & q, const std::vector<VI> & h) { (void)first; g = q; hold = h; });
              Dist D = MakeDist(p, g, hold, 1); Blocks pts; for (int i = 0; i < n; i++) pts.push_back({ i });
              static const Call cs[] = { { 0, -1, 0, 0, 0, DISTRIBUTED, CUMULATED, DISTRIBUTED }, { 1, -1, 1, 1, 0, DISTRIBUTED, CUMULATED, DISTRIBUTED }, { 0, -1, 0, 1, 1, DISTRIBUTED, CUMULATED, DISTRIBUTED }, { 1, -1, 0, 1, 0, CUMULATED, CUMULATED, DISTRIBUTED }, { 2, -1, 0, 1, 1, DISTRIBUTED, CUMULATED, DISTRIBUTED }, { 0, 2, 1, 1, 0, DISTRIBUTED, CUMULATED, DISTRIBUTED } };
              std::vector<sim::Options> o; { sim::Options q; q.n = p.np(); q.threads = thread; q.waitany = false; o.push_back(q); }   // also initialises statics
              for (int v = 0; v < 4; v++) for (int f = p.first; f < p.np(); f++) { sim::Options q; q.n = p.np(); q.rendezvous = v & 1; q.late = v & 2; q.loose = !(v & 1); q.interleave = true; q.gated = true; q.focus = f; q.threads = thread; q.preempt = (thread ? 1 : 2) - (thread && n > 1 && ci > 3 && !vf::thorough) + (vf::thorough && p.W == 2 && n == 1); q.waitany = W == 2; if (W == 3 && (v == 1 || v == 2)) continue; o.push_back(q); }
              auto dyn = DynBlocks(D);
              auto mk = kind == 0 ? GSMake<double>(D, -1, false, true, thread) : kind == 1 ? BSMake<double>(D, pts, true, true, thread, false) : DynMake(D, -1, true, thread, nullptr);
              auto cr = kind == 0 ? GSCorr<double>(D, -1, false) : kind == 1 ? BSCorr(D, pts) : DynCorr(D, -1, dyn);
              RunHybrid(str("kind ", kind, " ", g.id, " thread ", thread), D, mk, cr, METHOD, { cs[ci] }, o, false); vf::evals();
            });
      }
}
// the diagonal used for smoothing: 1 / diagonal of the step, from the full global diagonal
template<class TM> static void DiagOf (const Part & p)
{
  constexpr int bs = BSof<TM>(); int cnt = 0;
  AllDists(p, p.N() < 3 ? 8 : 3, [&](const Graph & g, const std::vector<VI> & hold) {
    Dist D = MakeDist(p, g, hold, bs); int N = p.N(); Dense Am = Enlarged(D, D.A, ModFactors(D, false), false); cnt++;
    for (int m = -1; m < (1 << N); m++)
      {
        if (bs > 1 && m != -1) continue;
        std::vector<Gather> x; for (int k = 0; k < N * bs; k++) x.emplace_back(p, bs);
        for (auto o : Opts(p.np(), false, false))
          {
            vf::Explore ex; ex.opt = o;
            ex([&](int r) {
              auto sm = GSMake<TM>(D, m, false, true, false)(r); AutoVector vx = sm->CreateColVector(), vb = sm->CreateColVector(), vr = sm->CreateColVector();
              for (int k = 0; k < N * bs; k++) { VD e(N * bs, 0.0); e[k] = 1; SetGlobal(vx, p, r, VD(N * bs, 0.0), CUMULATED, bs); SetGlobal(vb, p, r, e, DISTRIBUTED, bs, k); if (k & 1) sm->SmoothBack(vx, vb, vr, false, false, true); else sm->Smooth(vx, vb, vr, false, false, true); x[k].Put(r, vx); vf::transitions(); }
            }, [&]() {
              for (int k = 0; k < N; k++)
                {
                  Dense B = Zero(bs), X; for (int a = 0; a < bs; a++) for (int b = 0; b < bs; b++) B[a][b] = Am[k*bs+a][k*bs+b]; Invert(B, X);
                  for (int b = 0; b < bs; b++) { VD v = x[k*bs+b].Get("step"); for (int a = 0; a < bs; a++) { double want = m < 0 || m >> k & 1 ? X[a][b] : 0; vf::check(Close(v[k*bs+a], want, 1e-9, 1), "smoothing diagonal", str(g.id, " mask ", m, ": unknown ", k, " (", a, ",", b, "): ", v[k*bs+a], ", expected ", want, " from the global diagonal")); } }
                }
            });
          }
      }
  });
  vf::evals(cnt); vf::outcome(vf::hash(p.str()));
}
VF_PART(D05, diagonal)
{
  SmallDists(3, [&](const Part & p) {
    emit(str("diag1/", p.str()), [=]() { DiagOf<double>(p); });
    if (Canonical(p)) { emit(str("diag2/", p.str()), [=]() { DiagOf<Mat<2,2,double>>(p); }); if (p.N() < 3) emit(str("diag3/", p.str()), [=]() { DiagOf<Mat<3,3,double>>(p); }); }
  });
}
