// D04, D05: vector status conversions and split matrices
#include "linalg.hpp"
#include <dcc_map.hpp>
#include <hybrid_matrix.hpp>
using namespace vh;

typedef shared_ptr<DCCMap<double>> TMap;
static TMap MakeMap (const Part & p, int r, int bs, int kind, shared_ptr<ParallelDofs> & pd)
{
  pd = MakePD(p, r, bs);
  if (kind == 0) return make_shared<BasicDCCMap<double>>(pd);
  auto pd1 = MakePD(p, r, 1);
  auto e = make_shared<EQCHierarchy>(pd1, true);
  return make_shared<ChunkedDCCMap<double>>(e, pd, kind == 1 ? 50 : kind == 2 ? 1 : kind);   // kinds 3, 4: chunks of at least 3, 4
}

// owner of every unknown according to the map; checks uniqueness and that the exchange lists fit
static VI Owners (const Part & p, int bs, int kind)
{
  int N = p.N(), np = p.np(); std::vector<VI> mst(np); std::vector<std::map<int,VI>> M(np), G(np);
  { vf::Explore ex; ex.opt.n = np; ex([&](int r) {
      shared_ptr<ParallelDofs> pd; auto m = MakeMap(p, r, bs, kind, pd); auto loc = p.locals(r); mst[r].clear(); M[r].clear(); G[r].clear();
      auto ba = m->GetMasterDOFs(); vf::check(ba->Size() == loc.size(), "owner", "size of owner bit array");
      for (size_t i = 0; i < loc.size(); i++) if (ba->Test(i)) mst[r].push_back(loc[i]);
      auto ep = pd->GetDistantProcs();
      for (size_t k = 0; k < ep.Size(); k++) { for (int x : m->GetMDOFs(k)) M[r][ep[k]].push_back(loc[x]); for (int x : m->GetGDOFs(k)) G[r][ep[k]].push_back(loc[x]); }
    }); }
  VI own(N, -1);
  for (int r = 0; r < np; r++) for (int g : mst[r]) { vf::check(own[g] < 0, "owner", str("unknown ", g, " owned by ", own[g], " and ", r)); own[g] = r; }
  for (int g = 0; g < N; g++) vf::check(own[g] >= 0 && p.on(g, own[g]), "owner", str("unknown ", g, " has no owner among its processes"));
  for (int r = 0; r < np; r++) for (int q = 0; q < np; q++)
    {
      VI w; for (int g = 0; g < N; g++) if (own[g] == r && r != q && p.on(g, q)) w.push_back(g);
      vf::check(M[r][q] == w, "lists", str("rank ", r, " owns towards ", q, ": ", S(M[r][q]), " expected ", S(w)));
      vf::check(G[q][r] == w, "lists", str("rank ", q, " ghosts of ", r, ": ", S(G[q][r]), " expected ", S(w)));
    }
  return own;
}

// reference model of one vector
struct Model
{
  const Part & p; const VI & own; int bs; std::vector<VD> v; PARALLEL_STATUS st = DISTRIBUTED; bool conc = false;
  Model (const Part & _p, const VI & o, int b) : p(_p), own(o), bs(b), v(_p.np(), VD(_p.N() * b, 0.0)) { }
  int nd () const { return p.N() * bs; }
  double sum (int d) const { double s = 0; for (int q : p.procs(d / bs)) s += v[q][d]; return s; }
  double full (int d) const { return st == CUMULATED ? v[p.procs(d / bs)[0]][d] : sum(d); }
  void fresh (PARALLEL_STATUS s, int salt) { for (int d = 0; d < nd(); d++) for (int q : p.procs(d / bs)) v[q][d] = s == CUMULATED ? d * 3 + 1 + salt : (d + 1) * 10 + q + salt * 0.5; st = s; conc = false; }
  void d2c () { for (int d = 0; d < nd(); d++) { double x = full(d); for (int q : p.procs(d / bs)) v[q][d] = q == own[d / bs] ? x : 0; } st = DISTRIBUTED; conc = true; }
  void c2c () { if (st == CUMULATED) return; cum(); }
  void cum () { if (st == CUMULATED) return; for (int d = 0; d < nd(); d++) { double x = full(d); for (int q : p.procs(d / bs)) v[q][d] = x; } st = CUMULATED; conc = false; }
  void dist () { if (st == DISTRIBUTED) return; for (int d = 0; d < nd(); d++) { double x = full(d); for (int q : p.procs(d / bs)) v[q][d] = q == p.master(d / bs) ? x : 0; } st = DISTRIBUTED; conc = true; for (int d = 0; d < nd(); d++) if (own[d / bs] != p.master(d / bs)) conc = false; }
  void addOwner (double a) { for (int d = 0; d < nd(); d++) v[own[d / bs]][d] += a * (d + 1); }
};
static void Compare (const Model & m, int r, const BaseVector & v, const string & h)
{
  vf::check(v.GetParallelStatus() == m.st, "status", str(h, ": rank ", r, " status ", v.GetParallelStatus(), " expected ", m.st));
  VD want = Restrict(m.p, r, m.v[r], m.bs), got = GetLoc(v);
  vf::check(got == want, "value", str(h, ": rank ", r, " holds ", S(got), " expected ", S(want)));
}
static const char * OPN[] = { "D2C", "D2C-finish-late", "D2C-owner-updated-in-flight", "CO2CU", "CO2CU-owner-done-early", "Cumulate", "Distribute", "newDist", "newCum", "add" };
enum { NOPS = 10 };
static bool Enabled (int op, bool conc, PARALLEL_STATUS st) { if (op == 3 || op == 4) return conc || st == CUMULATED; return true; }
static void Apply (Model & m, int op, int salt)
{
  switch (op)
    {
    case 0: case 1: m.d2c(); break;
    case 2: m.d2c(); m.addOwner(0.25); break;
    case 3: case 4: m.c2c(); break;
    case 5: m.cum(); break; case 6: m.dist(); break;
    case 7: m.fresh(DISTRIBUTED, salt); break; case 8: m.fresh(CUMULATED, salt); break;
    case 9: for (auto & x : m.v) for (double & y : x) y *= 2; break;
    }
}
static void Do (const Model & after, DCCMap<double> & map, BaseVector & v, int r, int op)
{
  auto addOwner = [&](double a) { auto loc = after.p.locals(r); auto f = v.FVDouble(); for (size_t i = 0; i < loc.size(); i++) if (after.own[loc[i]] == r) for (int l = 0; l < after.bs; l++) f(i*after.bs+l) += a * (loc[i]*after.bs+l+1); };
  switch (op)
    {
    case 0: map.StartDIS2CO(v); map.ApplyDIS2CO(v); map.FinishDIS2CO(); break;
    case 1: map.StartDIS2CO(v); map.FinishDIS2CO(); map.ApplyDIS2CO(v); break;
    case 2: map.StartDIS2CO(v); addOwner(0.25); map.ApplyDIS2CO(v); map.FinishDIS2CO(); break;
    case 3: map.StartCO2CU(v); map.ApplyCO2CU(v); map.FinishCO2CU(); break;
    case 4: map.StartCO2CU(v); map.FinishCO2CU(); map.ApplyCO2CU(v); break;
    case 5: v.Cumulate(); break; case 6: v.Distribute(); break;
    case 7: case 8: SetLoc(v, Restrict(after.p, r, after.v[r], after.bs)); v.SetParallelStatus(after.st); break;
    case 9: v *= 2.0; break;
    }
  vf::transitions();
}
static void RunSeq (const Part & p, const VI & own, int bs, int kind, const VI & seq, bool full)
{
  // states of the model before and after every operation
  std::vector<Model> ms; ms.emplace_back(p, own, bs); ms[0].fresh(DISTRIBUTED, 0); string h;
  VI run; for (size_t i = 0; i < seq.size(); i++) { if (!Enabled(seq[i], ms.back().conc, ms.back().st)) return; ms.push_back(ms.back()); Apply(ms.back(), seq[i], i + 1); }
  Par(p.np(), [&](int r) {
    shared_ptr<ParallelDofs> pd; auto map = MakeMap(p, r, bs, kind, pd);
    AutoVector v = CreateParallelVector(pd, DISTRIBUTED);
    SetLoc(v, Restrict(p, r, ms[0].v[r], bs)); v.SetParallelStatus(DISTRIBUTED);
    string h;
    for (size_t i = 0; i < seq.size(); i++) { h += string(i ? " " : "") + OPN[seq[i]]; Do(ms[i+1], *map, v, r, seq[i]); Compare(ms[i+1], r, v, h); }
  }, nullptr, nullptr, full);
  vf::traces();
}

VF_PART(D04, sequences)
{
  for (int bs = 1; bs <= 2; bs++)
    for (int W = 1; W <= (vf::thorough ? 4 : 3); W++)
      for (int N = 1; N <= 3; N++)
        SortedParts(W, N, [&](const Part & p) {
          if (W >= 4 && N > 2) return;
          for (int kind = 0; kind < 3; kind++)
            {
              emit(str(p.str(), "/bs", bs, "/kind", kind), [=]() {
                VI own = Owners(p, bs, kind);
                int depth = (N == 1 && W <= 2) ? 4 : 3; if (N == 3 && bs == 2) depth = 2; if (vf::thorough && N <= 2 && W <= 3) depth = 4;
                for (int d = 1; d <= depth; d++)
                  {
                    VI s(d, 0);
                    for (;;)
                      {
                        RunSeq(p, own, bs, kind, s, d <= 2 || vf::thorough);
                        int k = d - 1; while (k >= 0 && ++s[k] == NOPS) s[k--] = 0;
                        if (k < 0) break;
                      }
                  }
              });
            }
        });
}

// two vectors (each with its own map) in flight at the same time; all merges of the two phase sequences
VF_PART(D04, interleaved)
{
  // phases: 0 start 1 apply 2 finish
  std::vector<VI> merges; VI cur;
  std::function<void(int,int)> rec = [&](int a, int b) { if (a == 3 && b == 3) { merges.push_back(cur); return; } if (a < 3) { cur.push_back(0); rec(a + 1, b); cur.pop_back(); } if (b < 3) { cur.push_back(1); rec(a, b + 1); cur.pop_back(); } };
  rec(0, 0);
  for (int W = 2; W <= 3; W++)
    for (int N = 1; N <= 3; N++)
      SortedParts(W, N, [&](const Part & p) {
        if (!vf::thorough && W == 3 && N == 3 && !Canonical(p)) return;
        for (int kind = 0; kind < 3; kind++)
          emit(str(p.str(), "/kind", kind), [=]() {
            VI own = Owners(p, 1, kind);
            for (int st = 0; st < 4; st++)
              for (auto & mg : merges)
                {
                  // vector A: dist -> conc -> cum ; vector B the same or, st&1, starting cumulated / concentrated
                  Par(p.np(), [&](int r) {
                    shared_ptr<ParallelDofs> pdA, pdB; auto A = MakeMap(p, r, 1, kind, pdA), B = MakeMap(p, r, 1, kind, pdB);
                    Model mA(p, own, 1), mB(p, own, 1); mA.fresh(DISTRIBUTED, 0); mB.fresh((st & 1) ? CUMULATED : DISTRIBUTED, 5);
                    AutoVector a = CreateParallelVector(pdA, DISTRIBUTED), b = CreateParallelVector(pdB, DISTRIBUTED);
                    SetLoc(a, Restrict(p, r, mA.v[r])); a.SetParallelStatus(mA.st); SetLoc(b, Restrict(p, r, mB.v[r])); b.SetParallelStatus(mB.st);
                    if (st & 2) { B->StartDIS2CO(b); B->ApplyDIS2CO(b); B->FinishDIS2CO(); mB.d2c(); }
                    for (int round = 0; round < 2; round++)
                      {
                        int pa = 0, pb = 0;
                        for (int w : mg)
                          {
                            if (w == 0) { if (round == 0) { if (pa == 0) A->StartDIS2CO(a); else if (pa == 1) A->ApplyDIS2CO(a); else A->FinishDIS2CO(); } else { if (pa == 0) A->StartCO2CU(a); else if (pa == 1) A->ApplyCO2CU(a); else A->FinishCO2CU(); } pa++; }
                            else { bool co = (st & 2) || round; if (!co) { if (pb == 0) B->StartDIS2CO(b); else if (pb == 1) B->ApplyDIS2CO(b); else B->FinishDIS2CO(); } else { if (pb == 0) B->StartCO2CU(b); else if (pb == 1) B->ApplyCO2CU(b); else B->FinishCO2CU(); } pb++; }
                            vf::transitions();
                          }
                        if (round == 0) { mA.d2c(); if (st & 2) mB.c2c(); else mB.d2c(); } else { mA.c2c(); mB.c2c(); }
                        Compare(mA, r, a, str("first vector, round ", round)); Compare(mB, r, b, str("second vector, round ", round));
                      }
                  }, nullptr, nullptr, vf::thorough);
                  vf::traces();
                }
          });
      });
}

// many unknowns per class: owners, lists and one round of conversions
VF_PART(D04, large)
{
  for (int W = 2; W <= 4; W++)
    for (int kind = 0; kind < 5; kind++)
      for (int N = 1; N <= 130; N += (N < 14 ? 1 : N < 60 ? 7 : 29))
        for (int pat = 0; pat < 3; pat++)
          for (int bs = 1; bs <= 3; bs++)
            emit(str("W", W, "/kind", kind, "/N", N, "/pattern", pat, "/bs", bs), [=]() {
              Part p; p.W = W; for (int g = 0; g < N; g++) p.mask.push_back(pat == 0 ? (1 << W) - 1 : pat == 1 ? 1 + g % ((1 << W) - 1) : 3 << (g % (W - 1)));
              VI own = Owners(p, bs, kind);
              Par(p.np(), [&](int r) {
                shared_ptr<ParallelDofs> pd; auto map = MakeMap(p, r, bs, kind, pd); Model m(p, own, bs); m.fresh(DISTRIBUTED, 1);
                AutoVector v = CreateParallelVector(pd, DISTRIBUTED); SetLoc(v, Restrict(p, r, m.v[r], bs));
                for (int k = 0; k < 2; k++)
                  {
                    map->StartDIS2CO(v); map->ApplyDIS2CO(v); map->FinishDIS2CO(); m.d2c(); Compare(m, r, v, "concentrated");
                    map->StartCO2CU(v); map->ApplyCO2CU(v); map->FinishCO2CU(); m.c2c(); Compare(m, r, v, "cumulated");
                  }
              }, nullptr, nullptr, false);
            });
}

// the exchange primitives used by smoothers directly: WaitD2C, BufferG / ApplyM, BufferM / ApplyG
VF_PART(D04, phases)
{
  for (int bs = 1; bs <= 2; bs++)
    for (int W = 2; W <= 3; W++)
      for (int N = 1; N <= 3; N++)
        SortedParts(W, N, [&](const Part & p) {
          emit(str(p.str(), "/bs", bs), [=]() {
            VI own = Owners(p, bs, 0);
            for (int rep = 1; rep <= 3; rep++)
              Par(p.np(), [&](int r) {
                shared_ptr<ParallelDofs> pd; auto map = MakeMap(p, r, bs, 0, pd); Model m(p, own, bs);
                AutoVector v = CreateParallelVector(pd, DISTRIBUTED);
                for (int k = 0; k < rep; k++)
                  {
                    m.fresh(DISTRIBUTED, k); SetLoc(v, Restrict(p, r, m.v[r], bs)); v.SetParallelStatus(DISTRIBUTED);
                    map->StartDIS2CO(v); map->WaitD2C(); map->ApplyM(v); m.d2c(); Compare(m, r, v, str("after exchange ", k));
                    map->StartCO2CU(v); map->ApplyCO2CU(v); map->FinishCO2CU(); m.c2c(); Compare(m, r, v, str("after update ", k));
                  }
              });
          });
        });
}

// ------------------------------------------------------------------ D05
// values of rank r's contribution to entry (i,j), component (a,b)
static double MV (int r, int i, int j, int a, int b, int kind)
{
  if (kind == 1) return 0.5 * ((i * 7 + j * 11 + r * 5 + a * 3 + b * 13) % 17) - 3;                          // no symmetry
  int lo = std::min(i * 8 + a, j * 8 + b), hi = std::max(i * 8 + a, j * 8 + b);
  if (i == j) return (a == b) ? 8 + i + 0.5 * r : 0.25 * ((lo + hi + r) % 3);
  return -0.25 * (1 + (lo * 3 + hi * 5 + r) % 6);
}
struct Ex { int N; std::vector<std::pair<int,int>> edges; std::vector<VI> hold; };  // hold[e]: processes with an entry

template<class TM, bool DYN = false> static void RunMat (const Part & p, const Ex & x, int kind, bool full)
{
  constexpr int BS = BSof<TM>(); int N = p.N(), np = p.np();
  std::vector<Entries<TM>> loc(np); Dense A = Zero(N * BS);
  for (int r = 0; r < np; r++)
    {
      auto l = p.locals(r); auto li = [&](int g) { return int(std::find(l.begin(), l.end(), g) - l.begin()); };
      auto put = [&](int i, int j) { TM m; for (int a = 0; a < BS; a++) for (int b = 0; b < BS; b++) { double v = MV(r, i, j, a, b, kind); Ent(m, a, b) = v; A[i*BS+a][j*BS+b] += v; } loc[r][{ li(i), li(j) }] = m; };
      for (int g : l) put(g, g);
      for (size_t e = 0; e < x.edges.size(); e++) if (std::find(x.hold[e].begin(), x.hold[e].end(), r) != x.hold[e].end()) { auto [i, j] = x.edges[e]; put(i, j); put(j, i); }
    }
  VD gx(N * BS), gy(N * BS); for (int i = 0; i < N * BS; i++) { gx[i] = (i * 5 % 7) - 2.5; gy[i] = (i * 3 % 5) + 0.5; }
  Gather out(p, BS); int cs = 0; std::vector<Gather> outs;
  struct Cfg { int op; double s; PARALLEL_STATUS sx, sy; };
  std::vector<Cfg> cfgs;
  for (int op = 0; op < (DYN ? 2 : 4); op++) for (int sx = 0; sx < 2; sx++) for (int sy = 0; sy < 2; sy++)
    { if (op == 0 || op == 2) { cfgs.push_back({ op, 1, sx ? CUMULATED : DISTRIBUTED, sy ? CUMULATED : DISTRIBUTED }); continue; } for (double s : { 1.0, -0.5 }) cfgs.push_back({ op, s, sx ? CUMULATED : DISTRIBUTED, sy ? CUMULATED : DISTRIBUTED }); }
  std::vector<Gather> xs; for (size_t c = 0; c < cfgs.size(); c++) { outs.emplace_back(p, BS); xs.emplace_back(p, BS); }
  std::vector<Dense> Ms(np), Ls(np);
  auto body = [&](int r) {
    auto pd = MakePD(p, r, BS); auto sp = MakeSp<TM>(p.locals(r).size(), p.locals(r).size(), loc[r]);
    auto par = make_shared<ParallelMatrix>(sp, pd, pd);
    shared_ptr<HybridBaseMatrix<double>> H;
    if constexpr (DYN) H = make_shared<DynamicBlockHybridMatrix<double>>(par); else H = make_shared<HybridMatrix<TM>>(par);
    vf::check(H->GetLocalOp() != nullptr && H->GetM() != nullptr, "structure", "");
    Ms[r] = ToDenseOp(*H->GetM()); Ls[r] = Ms[r];
    if (H->HasGLocal()) { auto g = ToDenseOp(*H->GetG()); for (size_t i = 0; i < g.size(); i++) for (size_t j = 0; j < g.size(); j++) Ls[r][i][j] += g[i][j]; }
    vf::check((pd->GetDistantProcs().Size() == 0) == !H->HasGLocal() || H->HasGGlobal(), "structure", "HasG");
    AutoVector v = H->CreateVector(), w = H->CreateVector();
    for (size_t c = 0; c < cfgs.size(); c++)
      {
        auto & f = cfgs[c]; SetGlobal(v, p, r, gx, f.sx, BS, 1); SetGlobal(w, p, r, gy, f.sy, BS, 2);
        switch (f.op) { case 0: H->Mult(v, w); break; case 1: H->MultAdd(f.s, v, w); break; case 2: H->MultTrans(v, w); break; case 3: H->MultTransAdd(f.s, v, w); break; }
        outs[c].Put(r, w); xs[c].Put(r, v); vf::transitions();
      }
    vf::check(H->IsComplex() == false, "complex", "");
  };
  auto after = [&]() {
    for (size_t c = 0; c < cfgs.size(); c++)
      {
        auto & f = cfgs[c]; VD want = f.op < 2 ? MulV(A, gx) : MulTV(A, gx);
        if (f.op == 1 || f.op == 3) for (int i = 0; i < N * BS; i++) want[i] = gy[i] + f.s * want[i];
        static const char * nm[] = { "Mult", "MultAdd", "MultTrans", "MultTransAdd" };
        string h = str(nm[f.op], " s=", f.s, " x ", f.sx, " y ", f.sy);
        VD got = outs[c].Get(h); vf::check(Close(got, want, 1e-12), "product", str(h, ": got ", S(got), " expected ", S(want)));
        VD x2 = xs[c].Get(h); vf::check(Close(x2, gx, 1e-13), "input", str(h, ": input vector changed to ", S(x2)));
      }
    // M is the exact diagonal block of the owner; M + G sum up to the operator
    Dense sum = Zero(N * BS);
    for (int r = 0; r < np; r++)
      {
        auto l = p.locals(r);
        for (size_t i = 0; i < l.size() * BS; i++) for (size_t j = 0; j < l.size() * BS; j++)
          {
            int gi = l[i/BS], gj = l[j/BS]; bool mm = p.master(gi) == r && p.master(gj) == r; double a = A[gi*BS+i%BS][gj*BS+j%BS];
            vf::check(Close(Ms[r][i][j], mm ? a : 0, 1e-12, 10), "local part", str("rank ", r, " entry ", gi, ",", gj, " is ", Ms[r][i][j], ", expected ", mm ? a : 0));
            sum[gi*BS+i%BS][gj*BS+j%BS] += Ls[r][i][j];
          }
      }
    for (int i = 0; i < N * BS; i++) vf::check(Close(sum[i], A[i], 1e-12), "split", str("row ", i, " of M+G: ", S(sum[i]), " expected ", S(A[i])));
  };
  // the order of completion inside Cumulate is NGSolve's business
  for (auto o : vf::modes(np, full)) { o.waitany = false; vf::Explore ex; ex.opt = o; ex(body, after); }
  vf::traces();
}

VF_PART(D05, products)
{
  for (int bsk = 0; bsk < 4; bsk++)
    for (int W = 1; W <= (vf::thorough ? 4 : 3); W++)
      for (int N = 1; N <= (W <= 2 ? 4 : 3); N++)
        AllParts(W, N, [&](const Part & p) {
          if (W >= 4 && N > 2) return;
          if (!Canonical(p) && (bsk || (N >= 3 && W == 3 && !vf::thorough))) return;
          if (bsk && !vf::thorough && (N > 3 || (N == 3 && W == 3 && bsk != 1))) return;
          std::vector<std::pair<int,int>> pairs; for (int i = 0; i < N; i++) for (int j = i + 1; j < N; j++) pairs.push_back({ i, j });
          // per pair: the set of processes holding an entry, any subset of the processes that share both
          std::vector<std::vector<VI>> opts;
          for (auto [i, j] : pairs)
            {
              VI sh; for (int q : p.procs(i)) if (p.on(j, q)) sh.push_back(q);
              std::vector<VI> o; for (int m = 0; m < (1 << sh.size()); m++) { VI h; for (size_t k = 0; k < sh.size(); k++) if (m >> k & 1) h.push_back(sh[k]); o.push_back(h); }
              if (N == 4 && !vf::thorough && o.size() > 2) { if (opts.size() % 2) o = { o.front(), o[2], o.back() }; else o = { o.front(), o[1], o[2] }; }
              opts.push_back(o);
            }
          emit(str(p.str(), "/type", bsk), [=]() {
            VI idx(pairs.size(), 0);
            for (;;)
              {
                Ex x; x.N = N; x.edges = pairs; for (size_t e = 0; e < pairs.size(); e++) x.hold.push_back(opts[e][idx[e]]);
                for (int kind = 0; kind < 2; kind++)
                  {
                    bool full = N <= 2;
                    if (bsk == 0) RunMat<double>(p, x, kind, full); else if (bsk == 1) RunMat<Mat<2,2,double>>(p, x, kind, full);
                    else if (bsk == 2) RunMat<Mat<3,3,double>>(p, x, kind, false); else RunMat<double,true>(p, x, kind, false);
                  }
                int k = int(pairs.size()) - 1; while (k >= 0 && ++idx[k] == (int)opts[k].size()) idx[k--] = 0;
                if (k < 0) break;
              }
          });
        });
}

// a matrix that is not distributed at all: the split must represent it as well
VF_PART(D05, sequential)
{
  for (int N = 1; N <= 3; N++)
    emit(str("N", N), [=]() {
      Entries<double> e; Dense A = Zero(N);
      for (int i = 0; i < N; i++) for (int j = 0; j < N; j++) { A[i][j] = MV(0, i, j, 0, 0, 1); e[{ i, j }] = A[i][j]; }
      vf::Explore ex; ex.opt.n = 1;
      ex([&](int) {
        auto sp = MakeSp<double>(N, N, e); auto H = make_shared<HybridMatrix<double>>(sp);
        Dense M = ToDenseOp(*H->GetM()); for (int i = 0; i < N; i++) vf::check(Close(M[i], A[i]), "local part", "");
        vf::check(!H->HasGLocal() && !H->HasGGlobal(), "structure", "");
        auto px = make_shared<VVector<double>>(N), py = make_shared<VVector<double>>(N); auto & x = *px; auto & y = *py; for (int i = 0; i < N; i++) x(i) = i + 1; y = 0; auto cv = H->CreateVector(); vf::check((int)cv.FVDouble().Size() == N, "vector", "");
        H->Mult(x, y); VD w = MulV(A, GetLoc(x)); vf::check(Close(GetLoc(y), w), "product", S(GetLoc(y)));
      });
    });
}


// matrices assembled from elements (bars, triangles, quads of a strip of up to 10 unknowns), every assignment of elements to processes
VF_PART(D05, elements)
{
  typedef std::vector<VI> Elms;
  std::vector<std::pair<string,Elms>> meshes = {
    { "path", { {0,1},{1,2},{2,3},{3,4},{4,5} } },
    { "fan", { {0,1,2},{0,2,3},{0,3,4},{0,4,5},{0,5,1} } },
    { "strip", { {0,1,2},{1,2,3},{2,3,4},{3,4,5},{4,5,6} } },
    { "quads", { {0,1,2,3},{2,3,4,5},{4,5,6,7},{6,7,8,9} } },
    { "chords", { {0,1,4,5},{0,1},{0,2},{1,3},{2,3,6} } } };
  for (auto & me : meshes)
    for (int W = 2; W <= 3; W++)
      for (int type = 0; type < 2; type++)
        {
          if (type && W == 3 && !vf::thorough) continue;
          auto el = me.second; int ne = el.size(); int64_t tot = 1; for (int i = 0; i < ne; i++) tot *= W;
          for (int64_t c = 0; c < tot; c++)
            {
              VI own(ne); int64_t k = c; bool can = true; int mx = 0; for (int i = 0; i < ne; i++) { own[i] = k % W; k /= W; if (own[i] > mx) can = false; mx = std::max(mx, own[i] + 1); }
              if (type && !can) continue;
              int t = type;
              emit(str(me.first, "/W", W, "/type", t, "/", S(own)), [=]() {
                Part p; p.W = W; int N = 0; for (auto & e : el) for (int v : e) N = std::max(N, v + 1); p.mask.assign(N, 0);
                for (int i = 0; i < ne; i++) for (int v : el[i]) p.mask[v] |= 1 << own[i];
                std::map<std::pair<int,int>,std::set<int>> h; for (int i = 0; i < ne; i++) for (int a : el[i]) for (int b : el[i]) if (a < b) h[{ a, b }].insert(own[i] + 1);
                Ex x; x.N = N; for (auto & e : h) { x.edges.push_back(e.first); x.hold.push_back(VI(e.second.begin(), e.second.end())); }
                for (int kind = 0; kind < 2; kind++) if (t) RunMat<Mat<2,2,double>>(p, x, kind, false); else RunMat<double>(p, x, kind, false);
              });
            }
        }
}
