#include "simmpi.hpp"
#include <ucontext.h>
#include <sys/mman.h>
#include <cxxabi.h>
#include <cstring>
#include <map>
#include <deque>
#include <memory>
#include <algorithm>
#include <dlfcn.h>
#include <pthread.h>
#include <time.h>
#include <errno.h>
#include <core/ng_mpi.hpp>
#include <core/exception.hpp>

namespace sim
{
using namespace ngcore;
using std::string; using std::vector; using std::to_string;

std::set<uint64_t> * stateSink = nullptr;

int Chooser :: choose (int n)
{
  if (n <= 1) return 0;
  if (pos < trail.size())
    {
      auto & p = trail[pos++];
      if (p.n != n) throw Violation("nondeterminism", "choice " + to_string(pos-1) + " has " + to_string(n) + " alternatives, had " + to_string(p.n));
      return p.pick;
    }
  if (maxDepth && pos >= maxDepth) { cutoffs++; return 0; }
  trail.push_back({0, n}); pos++;
  return 0;
}
bool Chooser :: advance ()
{
  trail.resize(pos < trail.size() ? pos : trail.size());
  while (trail.size() > frozen && trail.back().pick + 1 >= trail.back().n) trail.pop_back();
  pos = 0;
  if (trail.size() <= frozen) return false;
  trail.back().pick++;
  return true;
}
string Chooser :: str () const
{ string s; for (auto & p : trail) s += to_string(p.pick) + "/" + to_string(p.n) + " "; return s; }
void Chooser :: load (const string & s)
{
  trail.clear(); pos = 0;
  size_t i = 0;
  while (i < s.size())
    {
      size_t sl = s.find('/', i); if (sl == string::npos) break;
      size_t sp = s.find(' ', sl); if (sp == string::npos) sp = s.size();
      trail.push_back({ atoi(s.substr(i, sl-i).c_str()), atoi(s.substr(sl+1, sp-sl-1).c_str()) });
      i = sp + 1;
    }
}
string Options :: str () const
{
  string s = "n=" + to_string(n);
  if (rendezvous) s += ",rendezvous"; if (eagerMax) s += ",eager<=" + to_string(eagerMax); if (late) s += ",late"; if (loose) s += ",loose";
  if (!waitany) s += ",nowaitany"; if (descending) s += ",descending"; if (interleave) s += string(",interleave") + (gated ? "-in-window(" : "(") + to_string(preempt) + (focus >= 0 ? ",rank " + to_string(focus) : string()) + ")";
  if (threads) s += ",threads"; if (spurious) s += ",spurious";
  return s;
}

// ---------------------------------------------------------------- types

struct TypeMap { size_t size = 0; ptrdiff_t lb = 0, extent = 0; vector<std::pair<ptrdiff_t,size_t>> blocks; int basic = 0; size_t align = 1; };
enum { B_CHAR = 1, B_CDOUBLE, B_BOOL, B_DOUBLE, B_FLOAT, B_INT, B_SHORT, B_U64 };
static vector<TypeMap> types;

static uintptr_t addType (TypeMap t)
{
  // merge adjacent blocks
  vector<std::pair<ptrdiff_t,size_t>> m;
  for (auto & b : t.blocks)
    { if (b.second == 0) continue; if (!m.empty() && m.back().first + (ptrdiff_t)m.back().second == b.first) m.back().second += b.second; else m.push_back(b); }
  t.blocks = m;
  types.push_back(t); return types.size() - 1;
}
static TypeMap & T (NG_MPI_Datatype d)
{ if (d.value == 0 || d.value >= types.size()) throw Violation("mpi", "invalid datatype"); return types[d.value]; }

static void pack (const void * buf, int count, const TypeMap & t, vector<char> & out)
{
  size_t o = out.size(); out.resize(o + t.size * count);
  char * p = out.data() + o;
  if (t.blocks.size() == 1 && (ptrdiff_t)t.blocks[0].second == t.extent)
    { if (t.size * count) memcpy(p, (const char*)buf + t.blocks[0].first, t.size * count); return; }
  for (int i = 0; i < count; i++)
    for (auto & b : t.blocks)
      { memcpy(p, (const char*)buf + i * t.extent + b.first, b.second); p += b.second; }
}
static void unpack (void * buf, const TypeMap & t, const char * p, size_t bytes)
{
  size_t left = bytes;
  for (int i = 0; left > 0; i++)
    {
      for (auto & b : t.blocks)
        {
          size_t k = std::min(b.second, left);
          if (k) memcpy((char*)buf + i * t.extent + b.first, p, k);
          p += k; left -= k;
          if (!left) break;
        }
      if (t.blocks.empty()) break;
    }
}
static uint64_t hashBytes (const char * p, size_t n, uint64_t h = 1469598103934665603ull)
{ for (size_t i = 0; i < n; i++) { h ^= (unsigned char)p[i]; h *= 1099511628211ull; } return h; }
static uint64_t hashBuf (const void * buf, int count, const TypeMap & t)
{
  uint64_t h = 1469598103934665603ull;
  for (int i = 0; i < count; i++)
    for (auto & b : t.blocks) h = hashBytes((const char*)buf + i * t.extent + b.first, b.second, h);
  return h;
}
static void poison (void * buf, int count, const TypeMap & t)
{
  for (int i = 0; i < count; i++)
    for (auto & b : t.blocks) memset((char*)buf + i * t.extent + b.first, 0xFF, b.second);
}

// ---------------------------------------------------------------- world

struct Comm { vector<int> ranks; bool alive = true; };       // world ranks
struct Group { vector<int> ranks; };

struct Req
{
  bool send = false, persistent = false, active = false, freed = false, dead = false;
  void * buf = nullptr; int count = 0; uintptr_t type = 0; uintptr_t comm = 0; int peer = 0, tag = 0, owner = 0;
  bool matched = false, transferred = false; int partner = -1;
  bool eager = false; vector<char> data; uint64_t hash = 0; uint64_t seq = 0;
  size_t rbytes = 0; int rsrc = 0, rtag = 0;
};

struct Coll
{
  const char * what = ""; int root = -1; uintptr_t op = 0; size_t bytes = 0; int arrived = 0, left = 0;
  vector<char> in; vector<vector<char>> data; vector<char> left_; uintptr_t newcomm = 0; uintptr_t type = 0;
  vector<size_t> cnts;
};

struct Fiber
{
  ucontext_t ctx; void * stack = nullptr; size_t stacksize = 0;
  int rank = 0; bool done = false; bool started = false;
  std::function<bool()> ready;      // empty: runnable
  std::function<void()> fn;
  bool nondet = false;              // blocked at a point with several outcomes
  char eh[2*sizeof(void*)];
  const char * at = "start";
  uint64_t progress = 0;
  // thread fibers
  bool isThread = false; bool joined = false; void * retval = nullptr; bool detached = false;
  vector<int> prio;
};

struct World
{
  Options opt; Chooser * ch = nullptr;
  vector<std::unique_ptr<Fiber>> fibers;
  ucontext_t main; char mainEh[2*sizeof(void*)];
  int cur = -1;
  vector<Comm> comms;               // handle-100
  vector<Group> groups;
  vector<Req> reqs;
  uint64_t sendSeq = 0;
  std::map<std::pair<uintptr_t,uint64_t>, std::unique_ptr<Coll>> colls;
  vector<std::map<uintptr_t,uint64_t>> collSeq;            // per rank per comm
  std::map<string, vector<uintptr_t>> createdGroups; vector<std::map<string,int>> createSeq;
  std::map<string, std::pair<int,uintptr_t>> createPending; 
  vector<vector<int>> unexpected, posted;                  // per dst rank: request ids
  bool failed = false; string fkind, fdetail;
  long steps = 0; int preemptions = 0, spurs = 0; bool il = false; int winCount = 0, winEpoch = 0;
  vector<vector<char>> local; int localRank = -1;          // contents of the rank-local memory
  // thread simulation
  struct Mtx { int owner = -1; int rec = 0; };
  std::map<void*, Mtx> mtx;
  struct Waiter { int f; bool woken; };
  std::map<void*, vector<Waiter>> cond;
  std::map<unsigned long, int> tids;
};
static World * W = nullptr;

bool active () { return W && W->cur >= 0; }
int worldRank () { return W->fibers[W->cur]->rank; }
int worldSize () { return W->opt.n; }

static void swEh (char * save, char * load)
{ char * g = (char*)__cxxabiv1::__cxa_get_globals(); memcpy(save, g, 2*sizeof(void*)); memcpy(g, load, 2*sizeof(void*)); }

// memory of which every rank has its own copy (statics of the code under test)
struct Region { char * p; size_t n; };
static vector<Region> regions;
void rankLocal (void * p, size_t n) { for (auto & r : regions) if (r.p == p) return; regions.push_back({ (char*)p, n }); }
static void saveLocal (vector<char> & b) { b.clear(); for (auto & r : regions) b.insert(b.end(), r.p, r.p + r.n); }
static void loadLocal (const vector<char> & b) { size_t o = 0; for (auto & r : regions) { memcpy(r.p, b.data() + o, r.n); o += r.n; } }
static void switchLocal (int rank)
{
  if (regions.empty() || W->localRank == rank) return;
  if (W->localRank >= 0) saveLocal(W->local[W->localRank]);
  loadLocal(W->local[rank]); W->localRank = rank;
}

static void toMain ()
{
  Fiber & f = *W->fibers[W->cur];
  swEh(f.eh, W->mainEh);
  swapcontext(&f.ctx, &W->main);
}
static void fail (const string & kind, const string & detail)
{ if (!W->failed) { W->failed = true; W->fkind = kind; W->fdetail = detail; } }
static void failNow [[noreturn]] (const string & kind, const string & detail)
{
  fail(kind, detail);
  // never return to the failing code: park forever
  Fiber & f = *W->fibers[W->cur];
  for (;;) { f.ready = [](){ return false; }; toMain(); }
}

static void tramp ()
{
  Fiber & f = *W->fibers[W->cur];
  try { f.fn(); }
  catch (Violation & v) { fail(v.kind, "rank " + to_string(f.rank) + ": " + v.what()); }
  catch (ngcore::Exception & e) { fail("exception", "rank " + to_string(f.rank) + ": " + e.What()); }
  catch (std::exception & e) { fail("exception", "rank " + to_string(f.rank) + ": " + e.what()); }
  catch (...) { fail("exception", "rank " + to_string(f.rank) + ": unknown"); }
  f.done = true;
  toMain();
}

// block until pred holds (pred evaluated by the scheduler)
static void block (const char * at, std::function<bool()> pred, bool nondet = false)
{
  Fiber & f = *W->fibers[W->cur];
  f.at = at; f.progress++;
  if (!nondet && !W->il && pred()) { W->steps++; return; }
  f.ready = std::move(pred); f.nondet = nondet;
  toMain();
  f.ready = nullptr; f.nondet = false;
}
void yieldPoint (const char * what)
{
  if (!active()) return;
  Fiber & f = *W->fibers[W->cur];
  f.at = what; f.progress++;
  W->steps++;
  if (!W->il) return;
  f.ready = nullptr;
  toMain();
}
void window (bool open)
{
  if (!active() || !W->opt.gated) return;
  int ep = W->winEpoch;
  if (++W->winCount == W->opt.n) { W->winCount = 0; W->winEpoch++; W->il = open && W->opt.interleave; }
  block("window", [ep](){ return W->winEpoch != ep; });
}

static vector<void*> stackPool;
static const size_t STK = 2u << 20;
static void * getStack ()
{
  if (!stackPool.empty()) { void * s = stackPool.back(); stackPool.pop_back(); return s; }
  void * s = mmap(nullptr, STK, PROT_READ|PROT_WRITE, MAP_PRIVATE|MAP_ANONYMOUS|MAP_NORESERVE|MAP_STACK, -1, 0);
  mprotect(s, 4096, PROT_NONE);
  return s;
}

static int addFiber (int rank, std::function<void()> fn)
{
  auto f = std::make_unique<Fiber>();
  f->rank = rank; f->fn = std::move(fn); f->stack = getStack(); f->stacksize = STK;
  memset(f->eh, 0, sizeof f->eh);
  getcontext(&f->ctx);
  f->ctx.uc_stack.ss_sp = f->stack; f->ctx.uc_stack.ss_size = STK; f->ctx.uc_link = &W->main;
  makecontext(&f->ctx, tramp, 0);
  W->fibers.push_back(std::move(f));
  return W->fibers.size() - 1;
}

static void describe (string & s)
{
  for (size_t i = 0; i < W->fibers.size(); i++)
    {
      auto & f = *W->fibers[i];
      s += " [" + string(f.isThread ? "thread of rank " : "rank ") + to_string(f.rank) + ": " + (f.done ? "done" : f.at) + "]";
    }
}

Outcome run (const Options & opt, Chooser & ch, std::function<void(int)> body)
{
  install();
  World w; W = &w; w.opt = opt; w.ch = &ch;
  w.collSeq.resize(opt.n); w.createSeq.resize(opt.n);
  w.unexpected.resize(opt.n); w.posted.resize(opt.n);
  Comm wc; for (int i = 0; i < opt.n; i++) wc.ranks.push_back(i);
  w.comms.push_back(wc);
  w.reqs.reserve(1024);
  memset(w.mainEh, 0, sizeof w.mainEh);
  vector<char> initial; saveLocal(initial); w.local.assign(opt.n, initial);
  for (int i = 0; i < opt.n; i++) addFiber(i, [i,&body](){ body(i); });

  w.il = opt.interleave && !opt.gated;
  int last = -1;
  for (;;)
    {
      if (w.failed) break;
      // enabled deterministic fibers, then nondeterministic ones
      vector<int> det, non; bool alldone = true;
      for (int k = 0; k < (int)w.fibers.size(); k++)
        {
          int i = opt.descending ? (int)w.fibers.size() - 1 - k : k;
          Fiber & f = *w.fibers[i];
          if (f.done) continue;
          if (!f.isThread || !f.detached) alldone = false;
          if (!f.ready) { det.push_back(i); continue; }
          bool r; 
          try { r = f.ready(); } catch (Violation & v) { fail(v.kind, v.what()); break; }
          if (r) (f.nondet ? non : det).push_back(i);
        }
      if (w.failed) break;
      if (alldone) break;
      if (stateSink)
        {
          uint64_t h = 88172645463325252ull;
          for (auto & f : w.fibers) { h ^= f->progress * 2 + f->done; h *= 1099511628211ull; h = hashBytes(f->at, strlen(f->at), h); }
          for (auto & q : w.unexpected) { h ^= q.size() + 17; h *= 1099511628211ull; }
          for (auto & q : w.posted) { h ^= q.size() + 31; h *= 1099511628211ull; }
          stateSink->insert(h);
        }
      int pick = -1;
      try {
        if (w.il)
          {
            vector<int> en = det; en.insert(en.end(), non.begin(), non.end());
            vector<int> others;
            if (opt.focus >= 0)
              {
                for (int i : en) if (w.fibers[i]->rank != opt.focus) others.push_back(i);
                en.erase(std::remove_if(en.begin(), en.end(), [&](int i) { return w.fibers[i]->rank != opt.focus; }), en.end());
              }
            if (!others.empty() && (en.empty() || (last >= 0 && w.fibers[last]->rank != opt.focus)))
              pick = std::find(others.begin(), others.end(), last) != others.end() ? last : others[0];
            else if (en.empty()) { }
            else if (std::find(en.begin(), en.end(), last) != en.end() && opt.preempt >= 0 && w.preemptions >= opt.preempt)
              pick = last;
            else
              {
                // alternative 0: continue with the last one
                auto it = std::find(en.begin(), en.end(), last);
                bool cont = it != en.end();
                if (cont) std::rotate(en.begin(), it, it + 1);
                if (!others.empty()) en.push_back(others[0]);
                int c = ch.choose(en.size());
                pick = en[c];
                if (cont && c > 0) w.preemptions++;
              }
          }
        else if (!det.empty())
          pick = (std::find(det.begin(), det.end(), last) != det.end()) ? last : det[0];
        else if (!non.empty())
          // all others are stuck: any of them may get its outcome first
          pick = non[opt.waitany ? ch.choose(non.size()) : 0];
      } catch (Violation & v) { fail(v.kind, v.what()); break; }
      if (pick < 0)
        { string s = "no process can make progress:"; describe(s); fail("deadlock", s); break; }
      last = pick;
      w.cur = pick; w.steps++;
      if (w.steps > opt.maxSteps) { string s = "step bound exceeded:"; describe(s); fail("livelock", s); break; }
      Fiber & f = *w.fibers[pick];
      f.started = true;
      switchLocal(f.rank);
      swEh(w.mainEh, f.eh);
      swapcontext(&w.main, &f.ctx);
      w.cur = -1;
    }
  loadLocal(initial);
  if (!w.failed)
    {
      for (int r = 0; r < opt.n; r++)
        {
          if (!w.unexpected[r].empty())
            { auto & q = w.reqs[w.unexpected[r][0]]; fail("leftover", to_string(w.unexpected[r].size()) + " message(s) to rank " + to_string(r) + " never received, first: from rank " + to_string(q.owner) + " tag " + to_string(q.tag)); }
          for (int id : w.posted[r])
            if (!w.reqs[id].freed)
              { auto & q = w.reqs[id]; fail("leftover", "receive posted by rank " + to_string(r) + " from " + to_string(q.peer) + " tag " + to_string(q.tag) + " never matched"); }
        }
      for (auto & c : w.colls) fail("collective", string("unfinished collective ") + c.second->what);
    }
  Outcome o; o.ok = !w.failed; o.kind = w.fkind; o.detail = w.fdetail; o.steps = w.steps; o.preemptions = w.preemptions;
  for (auto & f : w.fibers)
    { if (f->done || !f->started) stackPool.push_back(f->stack); }  // stacks of stuck fibers are abandoned
  W = nullptr;
  return o;
}

// ---------------------------------------------------------------- point to point

static Comm & C (NG_MPI_Comm c)
{ size_t i = c.value - 100; if (c.value < 100 || i >= W->comms.size()) throw Violation("mpi", "invalid communicator"); return W->comms[i]; }
static int commRank (Comm & c, int wr)
{ for (size_t i = 0; i < c.ranks.size(); i++) if (c.ranks[i] == wr) return i; throw Violation("mpi", "process is not a member of the communicator"); }
static int toWorld (Comm & c, int r, const char * what)
{ if (r < 0 || r >= (int)c.ranks.size()) throw Violation("mpi", string(what) + ": invalid rank " + to_string(r)); return c.ranks[r]; }

static int newReq () { W->reqs.emplace_back(); return W->reqs.size() - 1; }
static const uintptr_t RNULL = ~uintptr_t(0);
static int rid (NG_MPI_Request r)
{
  size_t i = r.value - 1000;
  if (r.value < 1000 || i >= W->reqs.size() || W->reqs[i].dead) throw Violation("mpi", "invalid request handle");
  return i;
}

static void match (int s, int r)
{
  Req & S = W->reqs[s]; Req & R = W->reqs[r];
  S.matched = R.matched = true; S.partner = r; R.partner = s;
  size_t sb = types[S.type].size * S.count, rb = types[R.type].size * R.count;
  if (sb > rb) throw Violation("mpi", "message of " + to_string(sb) + " bytes truncated to " + to_string(rb) + " (from rank " + to_string(S.owner) + " to rank " + to_string(R.owner) + " tag " + to_string(S.tag) + ")");
  R.rbytes = sb; R.rsrc = S.owner; R.rtag = S.tag;
}
static void transfer (int s, int r)
{
  Req & S = W->reqs[s]; Req & R = W->reqs[r];
  if (S.transferred) return;
  if (!S.eager)
    {
      S.data.clear(); pack(S.buf, S.count, types[S.type], S.data);
      if (hashBuf(S.buf, S.count, types[S.type]) != S.hash)
        throw Violation("buffer", "send buffer changed while the send is pending (rank " + to_string(S.owner) + " -> " + to_string(R.owner) + " tag " + to_string(S.tag) + ")");
    }
  unpack(R.buf, types[R.type], S.data.data(), S.data.size());
  S.transferred = R.transferred = true;
  vector<char>().swap(S.data);
}
static bool canComplete (int id)
{ Req & q = W->reqs[id]; if (!q.active) return true; return q.matched || (q.send && q.eager); }

static void postSend (int id)
{
  if (W->reqs[id].persistent && !W->opt.rendezvous)
    { // a buffered message outlives the request, which may be started again before the message is received
      int m = newReq(); Req & p = W->reqs[id]; Req & c = W->reqs[m];
      c.send = true; c.buf = p.buf; c.count = p.count; c.type = p.type; c.comm = p.comm; c.tag = p.tag; c.owner = p.owner; c.peer = p.peer;
      p.active = true; p.eager = true; p.matched = p.transferred = false; p.partner = -1; p.hash = hashBuf(p.buf, p.count, types[p.type]);
      postSend(m); W->reqs[m].active = false; W->reqs[m].dead = true;
      return;
    }
  Req & q = W->reqs[id];
  q.active = true; q.matched = q.transferred = false; q.partner = -1; q.seq = W->sendSeq++;
  q.hash = hashBuf(q.buf, q.count, types[q.type]);
  q.eager = !W->opt.rendezvous || types[q.type].size * q.count <= W->opt.eagerMax;
  if (q.eager) { q.data.clear(); pack(q.buf, q.count, types[q.type], q.data); }
  int dst = q.peer;
  auto & po = W->posted[dst];
  for (size_t k = 0; k < po.size(); k++)
    {
      Req & r = W->reqs[po[k]];
      if (r.comm == q.comm && (r.peer == q.owner || r.peer == -1) && (r.tag == q.tag || r.tag == -1))
        {
          int rr = po[k]; po.erase(po.begin() + k);
          match(id, rr);
          if (!W->opt.late && q.eager) transfer(id, rr);
          return;
        }
    }
  W->unexpected[dst].push_back(id);
}
static void postRecv (int id)
{
  Req & q = W->reqs[id];
  q.active = true; q.matched = q.transferred = false; q.partner = -1;
  if (W->opt.late) poison(q.buf, q.count, types[q.type]);
  auto & un = W->unexpected[q.owner];
  for (size_t k = 0; k < un.size(); k++)
    {
      Req & s = W->reqs[un[k]];
      if (s.comm == q.comm && (s.owner == q.peer || q.peer == -1) && (s.tag == q.tag || q.tag == -1))
        {
          int ss = un[k]; un.erase(un.begin() + k);
          match(ss, id);
          if (!W->opt.late) transfer(ss, id);
          return;
        }
    }
  W->posted[q.owner].push_back(id);
}
// finish a completable request
static void finish (int id, NG_MPI_Request * h)
{
  {
    Req & q = W->reqs[id];
    if (!q.active) return;
    if (q.send)
      {
        if (q.matched && !q.transferred && !q.eager) transfer(id, q.partner);
        else if (hashBuf(q.buf, q.count, types[q.type]) != q.hash)
          throw Violation("buffer", "send buffer changed while the send is pending (rank " + to_string(q.owner) + " -> " + to_string(q.peer) + " tag " + to_string(q.tag) + ")");
      }
    else
      { if (!q.transferred) transfer(q.partner, id); }
  }
  Req & q = W->reqs[id];
  q.active = false;
  if (!q.persistent) { q.dead = true; if (h) h->value = RNULL; }
}
static void setStatus (NG_MPI_Status * st, int src, int tag, size_t bytes)
{ if (st) { st->data[0] = src; st->data[1] = tag; st->data[2] = bytes; } }

#define WRAP_BEGIN if (!active()) return 0; try {
#define WRAP_END } catch (Violation & v) { failNow(v.kind, "rank " + to_string(worldRank()) + ": " + v.what()); } return 0;

static int mk (bool send, bool persistent, void * b, int n, NG_MPI_Datatype t, int peer, int tag, NG_MPI_Comm c, const char * what)
{
  Comm & cm = C(c); T(t);
  if (n < 0) throw Violation("mpi", string(what) + ": negative count");
  int id = newReq(); Req & q = W->reqs[id];
  q.send = send; q.persistent = persistent; q.buf = b; q.count = n; q.type = t.value; q.comm = c.value; q.tag = tag;
  q.owner = worldRank(); commRank(cm, q.owner);
  q.peer = (!send && peer == -1) ? -1 : toWorld(cm, peer, what);
  if (!send && peer == -1) throw Violation("unsupported", "ANY_SOURCE");
  return id;
}
static int f_Isend (void * b, int n, NG_MPI_Datatype t, int dst, int tag, NG_MPI_Comm c, NG_MPI_Request * r)
{ WRAP_BEGIN yieldPoint("Isend"); int id = mk(true, false, b, n, t, dst, tag, c, "Isend"); postSend(id); r->value = id + 1000; WRAP_END }
static int f_Irecv (void * b, int n, NG_MPI_Datatype t, int src, int tag, NG_MPI_Comm c, NG_MPI_Request * r)
{ WRAP_BEGIN yieldPoint("Irecv"); int id = mk(false, false, b, n, t, src, tag, c, "Irecv"); postRecv(id); r->value = id + 1000; WRAP_END }
static int f_Send (void * b, int n, NG_MPI_Datatype t, int dst, int tag, NG_MPI_Comm c)
{
  WRAP_BEGIN yieldPoint("Send"); int id = mk(true, false, b, n, t, dst, tag, c, "Send"); postSend(id);
  block("Send", [id](){ return canComplete(id); }); finish(id, nullptr); WRAP_END
}
static int f_Recv (void * b, int n, NG_MPI_Datatype t, int src, int tag, NG_MPI_Comm c, NG_MPI_Status * st)
{
  WRAP_BEGIN yieldPoint("Recv"); int id = mk(false, false, b, n, t, src, tag, c, "Recv"); postRecv(id);
  block("Recv", [id](){ return canComplete(id); }); finish(id, nullptr);
  Req & q = W->reqs[id]; setStatus(st, commRank(C(c), q.rsrc), q.rtag, q.rbytes); WRAP_END
}
static int f_Send_init (void * b, int n, NG_MPI_Datatype t, int dst, int tag, NG_MPI_Comm c, NG_MPI_Request * r)
{ WRAP_BEGIN r->value = mk(true, true, b, n, t, dst, tag, c, "Send_init") + 1000; WRAP_END }
static int f_Recv_init (void * b, int n, NG_MPI_Datatype t, int src, int tag, NG_MPI_Comm c, NG_MPI_Request * r)
{ WRAP_BEGIN r->value = mk(false, true, b, n, t, src, tag, c, "Recv_init") + 1000; WRAP_END }
static int f_Startall (int n, NG_MPI_Request * r)
{
  WRAP_BEGIN yieldPoint("Startall");
  for (int i = 0; i < n; i++)
    {
      int id = rid(r[i]); Req & q = W->reqs[id];
      if (!q.persistent) throw Violation("mpi", "Startall on a non-persistent request");
      if (q.active) throw Violation("mpi", "Startall on an active request");
      if (q.send) postSend(id); else postRecv(id);
    }
  WRAP_END
}
static int f_Request_free (NG_MPI_Request * r)
{
  WRAP_BEGIN
  if (r->value == RNULL) throw Violation("mpi", "Request_free of a null request");
  int id = rid(*r); Req & q = W->reqs[id];
  q.freed = true;
  if (q.active && q.send && !q.eager)
    { // contents must stay valid until delivered; nobody can tell when, so the latest read is now at the earliest: keep request alive
      // the coarse level solve of the library NGSolve (MasterInverse) reuses the buffer of such a message for the answer to it; not ours to judge
      if (q.tag == 1110 && !q.transferred) { q.data.clear(); pack(q.buf, q.count, types[q.type], q.data); q.eager = true; }
    }
  r->value = RNULL; WRAP_END
}
static int f_Wait (NG_MPI_Request * r, NG_MPI_Status * st)
{
  WRAP_BEGIN yieldPoint("Wait"); if (r->value == RNULL) return 0;
  int id = rid(*r);
  block("Wait", [id](){ return canComplete(id); });
  finish(id, r);
  Req & q = W->reqs[id]; if (!q.send) setStatus(st, commRank(C(q.comm), q.rsrc), q.rtag, q.rbytes);
  WRAP_END
}
static int f_Waitall (int n, NG_MPI_Request * r, NG_MPI_Status * st)
{
  WRAP_BEGIN yieldPoint("Waitall");
  vector<int> ids;
  for (int i = 0; i < n; i++) if (r[i].value != RNULL) ids.push_back(rid(r[i]));
  block("Waitall", [&ids](){ for (int id : ids) if (!canComplete(id)) return false; return true; });
  for (int i = 0; i < n; i++) if (r[i].value != RNULL) finish(rid(r[i]), r + i);
  WRAP_END
}
static int f_Waitany (int n, NG_MPI_Request * r, int * idx, NG_MPI_Status * st)
{
  WRAP_BEGIN yieldPoint("Waitany");
  vector<int> act;
  for (int i = 0; i < n; i++) if (r[i].value != RNULL && W->reqs[rid(r[i])].active) act.push_back(i);
  if (act.empty()) { *idx = -32766; return 0; }
  vector<int> ids; for (int i : act) ids.push_back(rid(r[i]));
  block("Waitany", [&ids](){ for (int id : ids) if (canComplete(id)) return true; return false; }, act.size() > 1);
  vector<int> can; for (int i : act) if (canComplete(rid(r[i]))) can.push_back(i);
  int k = can[W->opt.waitany ? W->ch->choose(can.size()) : 0];
  int id = rid(r[k]);
  finish(id, r + k);
  Req & q = W->reqs[id]; if (!q.send) setStatus(st, commRank(C(q.comm), q.rsrc), q.rtag, q.rbytes);
  *idx = k;
  WRAP_END
}
static int f_Probe (int src, int tag, NG_MPI_Comm c, NG_MPI_Status * st)
{
  WRAP_BEGIN yieldPoint("Probe");
  if (src == -1) throw Violation("unsupported", "Probe(ANY_SOURCE)");
  int me = worldRank(), ws = toWorld(C(c), src, "Probe");
  auto find = [me,ws,tag,c]() -> int {
    for (int id : W->unexpected[me]) { Req & q = W->reqs[id]; if (q.comm == c.value && q.owner == ws && (q.tag == tag || tag == -1)) return id; }
    return -1; };
  block("Probe", [&find](){ return find() >= 0; });
  Req & q = W->reqs[find()];
  setStatus(st, src, q.tag, types[q.type].size * q.count);
  WRAP_END
}
static int f_Iprobe (int, int, NG_MPI_Comm, int *, NG_MPI_Status *)
{ failNow("unsupported", "Iprobe"); }
static int f_Get_count (NG_MPI_Status * st, NG_MPI_Datatype t, int * n)
{ *n = st->data[2] / types[t.value].size; return 0; }

// ---------------------------------------------------------------- collectives

static Coll & enter (NG_MPI_Comm c, const char * what, int root, uintptr_t op, vector<char> mydata, size_t cmpBytes, int & me, std::pair<uintptr_t,uint64_t> & key)
{
  yieldPoint(what);
  Comm & cm = C(c); int wr = worldRank(); me = commRank(cm, wr);
  int n = cm.ranks.size();
  if (root != -1 && (root < 0 || root >= n)) throw Violation("mpi", string(what) + ": invalid root");
  key = { c.value, W->collSeq[wr][c.value]++ };
  auto & p = W->colls[key];
  if (!p) { p = std::make_unique<Coll>(); p->what = what; p->root = root; p->op = op; p->bytes = cmpBytes; p->in.resize(n); p->data.resize(n); p->left_.resize(n); }
  else
    {
      if (strcmp(p->what, what)) throw Violation("collective", string("mismatch: ") + what + " vs. " + p->what);
      if (p->root != root) throw Violation("collective", string(what) + ": roots differ");
      if (p->op != op) throw Violation("collective", string(what) + ": operations differ");
      if (p->bytes != cmpBytes) throw Violation("collective", string(what) + ": sizes differ (" + to_string(p->bytes) + " vs. " + to_string(cmpBytes) + " bytes)");
    }
  p->in[me] = 1; p->arrived++; p->data[me] = std::move(mydata);
  return *p;
}
static void leave (std::pair<uintptr_t,uint64_t> key, size_t n)
{ auto & p = W->colls[key]; if (++p->left == (int)n) W->colls.erase(key); }

// who: -1 needs all, otherwise needs only that rank; nobody: leaves at once
static void await (Coll & cl, const char * what, bool all, int needRoot)
{
  int n = cl.in.size();
  Coll * p = &cl;
  if (all || !W->opt.loose) block(what, [p,n](){ return p->arrived == n; });
  else if (needRoot >= 0) block(what, [p,needRoot](){ return p->in[needRoot]; });
  else block(what, [](){ return true; });
}

template<class X> static void redT (vector<char> & acc, const vector<char> & b, uintptr_t op)
{
  X * x = (X*)acc.data(); const X * y = (const X*)b.data(); size_t n = acc.size() / sizeof(X);
  for (size_t i = 0; i < n; i++)
    switch (op) { case 1: x[i] = x[i] + y[i]; break; case 2: x[i] = std::max(x[i], y[i]); break; case 3: x[i] = std::min(x[i], y[i]); break; case 4: x[i] = x[i] || y[i]; break; default: throw Violation("mpi", "bad op"); }
}
static void reduceInto (vector<char> & acc, const vector<char> & b, NG_MPI_Datatype t, uintptr_t op)
{
  switch (T(t).basic)
    {
    case B_CHAR: redT<signed char>(acc, b, op); break;
    case B_BOOL: redT<bool>(acc, b, op); break;
    case B_DOUBLE: redT<double>(acc, b, op); break;
    case B_CDOUBLE: { if (op != 1) throw Violation("mpi", "bad op"); redT<double>(acc, b, op); break; }
    case B_FLOAT: redT<float>(acc, b, op); break;
    case B_INT: redT<int>(acc, b, op); break;
    case B_SHORT: redT<short>(acc, b, op); break;
    case B_U64: redT<uint64_t>(acc, b, op); break;
    default: throw Violation("mpi", "reduction on derived type");
    }
}
static void * const INPLACE = (void*)0x7;

static vector<char> P (const void * b, int n, NG_MPI_Datatype t)
{ vector<char> v; if (n < 0) throw Violation("mpi", "negative count"); pack(b, n, T(t), v); return v; }

static int f_Barrier (NG_MPI_Comm c)
{ WRAP_BEGIN int me; std::pair<uintptr_t,uint64_t> k; Coll & cl = enter(c, "Barrier", -1, 0, {}, 0, me, k); await(cl, "Barrier", true, -1); leave(k, cl.in.size()); WRAP_END }

static int f_Bcast (void * b, int n, NG_MPI_Datatype t, int root, NG_MPI_Comm c)
{
  WRAP_BEGIN int me; std::pair<uintptr_t,uint64_t> k;
  bool isroot = commRank(C(c), worldRank()) == root;
  Coll & cl = enter(c, "Bcast", root, 0, isroot ? P(b, n, t) : vector<char>(), T(t).size * n, me, k);
  await(cl, "Bcast", false, isroot ? -1 : root);
  if (!isroot) unpack(b, T(t), cl.data[root].data(), cl.data[root].size());
  leave(k, cl.in.size()); WRAP_END
}
static int f_Allreduce (void * s, void * r, int n, NG_MPI_Datatype t, NG_MPI_Op op, NG_MPI_Comm c)
{
  WRAP_BEGIN int me; std::pair<uintptr_t,uint64_t> k;
  Coll & cl = enter(c, "Allreduce", -1, op.value, P(s == INPLACE ? r : s, n, t), T(t).size * n, me, k);
  await(cl, "Allreduce", true, -1);
  vector<char> acc = cl.data[0];
  for (size_t i = 1; i < cl.data.size(); i++) reduceInto(acc, cl.data[i], t, op.value);
  unpack(r, T(t), acc.data(), acc.size());
  leave(k, cl.in.size()); WRAP_END
}
static int f_Reduce (void * s, void * r, int n, NG_MPI_Datatype t, NG_MPI_Op op, int root, NG_MPI_Comm c)
{
  WRAP_BEGIN int me; std::pair<uintptr_t,uint64_t> k;
  Coll & cl = enter(c, "Reduce", root, op.value, P(s == INPLACE ? r : s, n, t), T(t).size * n, me, k);
  bool isroot = me == root;
  await(cl, "Reduce", isroot, -1);
  if (isroot)
    {
      vector<char> acc = cl.data[0];
      for (size_t i = 1; i < cl.data.size(); i++) reduceInto(acc, cl.data[i], t, op.value);
      unpack(r, T(t), acc.data(), acc.size());
    }
  leave(k, cl.in.size()); WRAP_END
}
static int f_Reduce_local (void * s, void * r, int n, NG_MPI_Datatype t, NG_MPI_Op op)
{ WRAP_BEGIN auto a = P(r, n, t); reduceInto(a, P(s, n, t), t, op.value); unpack(r, T(t), a.data(), a.size()); WRAP_END }
static int f_Gather (void * s, int ns, NG_MPI_Datatype ts, void * r, int nr, NG_MPI_Datatype tr, int root, NG_MPI_Comm c)
{
  WRAP_BEGIN int me; std::pair<uintptr_t,uint64_t> k;
  bool isroot = commRank(C(c), worldRank()) == root;
  vector<char> mine = (s == INPLACE) ? vector<char>() : P(s, ns, ts);
  size_t bytes = (s == INPLACE) ? T(tr).size * nr : mine.size();
  Coll & cl = enter(c, "Gather", root, 0, mine, bytes, me, k);
  await(cl, "Gather", isroot, -1);
  if (isroot)
    for (size_t i = 0; i < cl.data.size(); i++)
      if (!(s == INPLACE && (int)i == me)) 
        {
          if (cl.data[i].size() != T(tr).size * nr) throw Violation("collective", "Gather: sizes differ");
          unpack((char*)r + i * nr * T(tr).extent, T(tr), cl.data[i].data(), cl.data[i].size());
        }
  leave(k, cl.in.size()); WRAP_END
}
static int f_Gatherv (void * s, int ns, NG_MPI_Datatype ts, void * r, int * nr, int * dis, NG_MPI_Datatype tr, int root, NG_MPI_Comm c)
{
  WRAP_BEGIN int me; std::pair<uintptr_t,uint64_t> k;
  vector<char> mine = (s == INPLACE) ? vector<char>() : P(s, ns, ts);
  Coll & cl = enter(c, "Gatherv", root, 0, mine, 0, me, k);
  bool isroot = me == root;
  await(cl, "Gatherv", isroot, -1);
  if (isroot)
    for (size_t i = 0; i < cl.data.size(); i++)
      if (!(s == INPLACE && (int)i == me))
        {
          if (cl.data[i].size() != T(tr).size * nr[i]) throw Violation("collective", "Gatherv: sizes differ");
          unpack((char*)r + dis[i] * T(tr).extent, T(tr), cl.data[i].data(), cl.data[i].size());
        }
  leave(k, cl.in.size()); WRAP_END
}
static int f_Scatter (void * s, int ns, NG_MPI_Datatype ts, void * r, int nr, NG_MPI_Datatype tr, int root, NG_MPI_Comm c)
{
  WRAP_BEGIN int me; std::pair<uintptr_t,uint64_t> k;
  Comm & cm = C(c); int n = cm.ranks.size();
  bool isroot = commRank(cm, worldRank()) == root;
  size_t per = isroot ? T(ts).size * ns : T(tr).size * nr;
  Coll & cl = enter(c, "Scatter", root, 0, isroot ? P(s, ns * n, ts) : vector<char>(), per, me, k);
  await(cl, "Scatter", false, isroot ? -1 : root);
  if (!(isroot && r == INPLACE))
    unpack(r, T(tr), cl.data[root].data() + per * me, per);
  leave(k, cl.in.size()); WRAP_END
}
static int f_Allgather (void * s, int ns, NG_MPI_Datatype ts, void * r, int nr, NG_MPI_Datatype tr, NG_MPI_Comm c)
{
  WRAP_BEGIN int me; std::pair<uintptr_t,uint64_t> k;
  int rk = commRank(C(c), worldRank());
  vector<char> mine = (s == INPLACE) ? P((char*)r + rk * nr * T(tr).extent, nr, tr) : P(s, ns, ts);
  Coll & cl = enter(c, "Allgather", -1, 0, mine, mine.size(), me, k);
  await(cl, "Allgather", true, -1);
  for (size_t i = 0; i < cl.data.size(); i++)
    {
      if (cl.data[i].size() != T(tr).size * nr) throw Violation("collective", "Allgather: sizes differ");
      unpack((char*)r + i * nr * T(tr).extent, T(tr), cl.data[i].data(), cl.data[i].size());
    }
  leave(k, cl.in.size()); WRAP_END
}
static int f_Alltoall (void * s, int ns, NG_MPI_Datatype ts, void * r, int nr, NG_MPI_Datatype tr, NG_MPI_Comm c)
{
  WRAP_BEGIN int me; std::pair<uintptr_t,uint64_t> k;
  int n = C(c).ranks.size();
  vector<char> mine = P(s == INPLACE ? r : s, (s == INPLACE ? nr : ns) * n, s == INPLACE ? tr : ts);
  size_t per = T(tr).size * nr;
  Coll & cl = enter(c, "Alltoall", -1, 0, mine, mine.size(), me, k);
  await(cl, "Alltoall", true, -1);
  for (int i = 0; i < n; i++)
    unpack((char*)r + i * nr * T(tr).extent, T(tr), cl.data[i].data() + per * me, per);
  leave(k, n); WRAP_END
}

// ---------------------------------------------------------------- communicators

static int f_Comm_rank (NG_MPI_Comm c, int * r) { if (!active()) { *r = 0; return 0; } WRAP_BEGIN *r = commRank(C(c), worldRank()); WRAP_END }
static int f_Comm_size (NG_MPI_Comm c, int * r) { if (!active()) { *r = 1; return 0; } WRAP_BEGIN *r = C(c).ranks.size(); WRAP_END }
static int f_Comm_free (NG_MPI_Comm * c) { c->value = 99; return 0; }
static int f_Comm_group (NG_MPI_Comm c, NG_MPI_Group * g)
{ WRAP_BEGIN W->groups.push_back({ C(c).ranks }); g->value = W->groups.size() - 1 + 5000; WRAP_END }
static int f_Group_incl (NG_MPI_Group g, int n, int * rs, NG_MPI_Group * o)
{
  WRAP_BEGIN Group gg; size_t i = g.value - 5000; if (i >= W->groups.size()) throw Violation("mpi", "invalid group");
  for (int k = 0; k < n; k++) { if (rs[k] < 0 || rs[k] >= (int)W->groups[i].ranks.size()) throw Violation("mpi", "Group_incl: invalid rank"); gg.ranks.push_back(W->groups[i].ranks[rs[k]]); }
  std::set<int> u(gg.ranks.begin(), gg.ranks.end()); if (u.size() != gg.ranks.size()) throw Violation("mpi", "Group_incl: duplicate rank");
  W->groups.push_back(gg); o->value = W->groups.size() - 1 + 5000; WRAP_END
}
static int f_Comm_create_group (NG_MPI_Comm c, NG_MPI_Group g, int tag, NG_MPI_Comm * o)
{
  WRAP_BEGIN yieldPoint("Comm_create_group");
  size_t gi = g.value - 5000; if (gi >= W->groups.size()) throw Violation("mpi", "invalid group");
  vector<int> rs = W->groups[gi].ranks;
  int me = worldRank();
  if (std::find(rs.begin(), rs.end(), me) == rs.end()) throw Violation("mpi", "Comm_create_group called by a process outside the group");
  string key = to_string(c.value) + ":" + to_string(tag); for (int r : rs) key += "," + to_string(r);
  int seq = W->createSeq[me][key]++;
  key += "#" + to_string(seq);
  auto it = W->createPending.find(key);
  if (it == W->createPending.end())
    { W->comms.push_back(Comm{ rs }); it = W->createPending.emplace(key, std::make_pair(0, W->comms.size() - 1 + 100)).first; }
  it->second.first++;
  auto * st = &it->second; int n = rs.size();
  block("Comm_create_group", [st,n](){ return st->first >= n; });
  o->value = st->second;
  WRAP_END
}
static int f_Comm_create (NG_MPI_Comm c, NG_MPI_Group g, NG_MPI_Comm * o)
{
  WRAP_BEGIN int me; std::pair<uintptr_t,uint64_t> k;
  size_t gi = g.value - 5000; if (gi >= W->groups.size()) throw Violation("mpi", "invalid group");
  vector<int> rs = W->groups[gi].ranks;
  vector<char> d((char*)rs.data(), (char*)(rs.data() + rs.size()));
  Coll & cl = enter(c, "Comm_create", -1, 0, d, d.size(), me, k);
  await(cl, "Comm_create", true, -1);
  bool in = std::find(rs.begin(), rs.end(), worldRank()) != rs.end();
  if (in)
    {
      // one communicator per distinct member list
      string key = "create" + to_string(k.first) + "/" + to_string(k.second); for (int r : rs) key += "," + to_string(r);
      auto it = W->createPending.find(key);
      if (it == W->createPending.end()) { W->comms.push_back(Comm{ rs }); it = W->createPending.emplace(key, std::make_pair(0, W->comms.size() - 1 + 100)).first; }
      o->value = it->second.second;
    }
  else *o = NG_MPI_COMM_NULL;
  leave(k, cl.in.size()); WRAP_END
}

// ---------------------------------------------------------------- types

static int f_Type_contiguous (int n, NG_MPI_Datatype t, NG_MPI_Datatype * o)
{
  TypeMap b = types[t.value], r; r.size = b.size * n; r.extent = b.extent * n; r.align = b.align;
  for (int i = 0; i < n; i++) for (auto & k : b.blocks) r.blocks.push_back({ k.first + i * b.extent, k.second });
  o->value = addType(r); return 0;
}
static int f_Type_struct (int n, int * bl, NG_MPI_Aint * dis, NG_MPI_Datatype * ts, NG_MPI_Datatype * o)
{
  TypeMap r; ptrdiff_t ub = 0; size_t align = 1;
  for (int j = 0; j < n; j++)
    {
      TypeMap b = types[ts[j].value];
      for (int i = 0; i < bl[j]; i++)
        for (auto & k : b.blocks) { r.blocks.push_back({ k.first + i * b.extent + dis[j].value, k.second }); }
      r.size += b.size * bl[j];
      ub = std::max(ub, (ptrdiff_t)dis[j].value + b.extent * bl[j]);
      align = std::max(align, b.align);
    }
  r.extent = (ub + align - 1) / align * align; r.align = align;
  o->value = addType(r); return 0;
}
static int f_Type_resized (NG_MPI_Datatype t, NG_MPI_Aint lb, NG_MPI_Aint ext, NG_MPI_Datatype * o)
{ TypeMap b = types[t.value]; b.lb = lb.value; b.extent = ext.value; b.basic = 0; o->value = addType(b); return 0; }
static int f_Type_indexed (int n, int * bl, int * dis, NG_MPI_Datatype t, NG_MPI_Datatype * o)
{
  TypeMap b = types[t.value], r; ptrdiff_t ub = 0; r.align = b.align;
  for (int j = 0; j < n; j++)
    {
      for (int i = 0; i < bl[j]; i++) for (auto & k : b.blocks) r.blocks.push_back({ k.first + (dis[j] + i) * b.extent, k.second });
      r.size += b.size * bl[j]; ub = std::max(ub, (ptrdiff_t)(dis[j] + bl[j]) * b.extent);
    }
  r.extent = ub; o->value = addType(r); return 0;
}
static int f_Type_commit (NG_MPI_Datatype *) { return 0; }
static int f_Type_free (NG_MPI_Datatype *) { return 0; }
static int f_Type_size (NG_MPI_Datatype t, int * s) { *s = types[t.value].size; return 0; }
static int f_Type_get_extent (NG_MPI_Datatype t, NG_MPI_Aint * lb, NG_MPI_Aint * ext) { lb->value = types[t.value].lb; ext->value = types[t.value].extent; return 0; }

static double f_Wtime () { static double t = 0; return t += 1e-6; }
static int f_Initialized (int * f) { *f = 1; return 0; }
static int f_Query_thread (int * f) { *f = 3; return 0; }
static int f_Init (int *, char ***) { return 0; }
static int f_Init_thread (int *, char ***, int, int * p) { *p = 3; return 0; }
static int f_Finalize () { return 0; }
static int f_name (char * n, int * l) { strcpy(n, "sim"); *l = 3; return 0; }

void install ()
{
  static bool done = false; if (done) return; done = true;
  types.resize(1);
  auto basic = [&](size_t s, int b) { TypeMap t; t.size = s; t.extent = s; t.blocks = { { 0, s } }; t.basic = b; t.align = b == B_CDOUBLE ? 8 : s; return addType(t); };
  NG_MPI_CHAR.value = basic(1, B_CHAR); NG_MPI_CXX_DOUBLE_COMPLEX.value = basic(16, B_CDOUBLE); NG_MPI_C_BOOL.value = basic(1, B_BOOL);
  NG_MPI_DOUBLE.value = basic(8, B_DOUBLE); NG_MPI_FLOAT.value = basic(4, B_FLOAT); NG_MPI_INT.value = basic(4, B_INT);
  NG_MPI_SHORT.value = basic(2, B_SHORT); NG_MPI_UINT64_T.value = basic(8, B_U64); NG_MPI_DATATYPE_NULL.value = 0;
  NG_MPI_SUM.value = 1; NG_MPI_MAX.value = 2; NG_MPI_MIN.value = 3; NG_MPI_LOR.value = 4;
  NG_MPI_COMM_NULL.value = 99; NG_MPI_COMM_WORLD.value = 100;
  NG_MPI_REQUEST_NULL.value = RNULL;
  NG_MPI_STATUSES_IGNORE = nullptr; NG_MPI_STATUS_IGNORE = nullptr;
  NG_MPI_ANY_SOURCE = -1; NG_MPI_ANY_TAG = -1; NG_MPI_PROC_NULL = -2; NG_MPI_ROOT = -3; NG_MPI_IN_PLACE = INPLACE;
  NG_MPI_THREAD_MULTIPLE = 3; NG_MPI_THREAD_SINGLE = 0; NG_MPI_MAX_PROCESSOR_NAME = 16;
  NG_MPI_Wtime = f_Wtime; NG_MPI_Allgather = f_Allgather; NG_MPI_Allreduce = f_Allreduce; NG_MPI_Alltoall = f_Alltoall; NG_MPI_Barrier = f_Barrier;
  NG_MPI_Bcast = f_Bcast; NG_MPI_Comm_create = f_Comm_create; NG_MPI_Comm_create_group = f_Comm_create_group; NG_MPI_Comm_free = f_Comm_free;
  NG_MPI_Comm_group = f_Comm_group; NG_MPI_Comm_rank = f_Comm_rank; NG_MPI_Comm_size = f_Comm_size; NG_MPI_Finalize = f_Finalize;
  NG_MPI_Gather = f_Gather; NG_MPI_Gatherv = f_Gatherv; NG_MPI_Get_count = f_Get_count; NG_MPI_Get_processor_name = f_name; NG_MPI_Group_incl = f_Group_incl;
  NG_MPI_Init = f_Init; NG_MPI_Init_thread = f_Init_thread; NG_MPI_Initialized = f_Initialized; NG_MPI_Iprobe = f_Iprobe; NG_MPI_Irecv = f_Irecv;
  NG_MPI_Isend = f_Isend; NG_MPI_Probe = f_Probe; NG_MPI_Query_thread = f_Query_thread; NG_MPI_Recv = f_Recv; NG_MPI_Recv_init = f_Recv_init;
  NG_MPI_Reduce = f_Reduce; NG_MPI_Reduce_local = f_Reduce_local; NG_MPI_Request_free = f_Request_free; NG_MPI_Scatter = f_Scatter; NG_MPI_Send = f_Send;
  NG_MPI_Send_init = f_Send_init; NG_MPI_Startall = f_Startall; NG_MPI_Type_commit = f_Type_commit; NG_MPI_Type_contiguous = f_Type_contiguous;
  NG_MPI_Type_create_resized = f_Type_resized; NG_MPI_Type_create_struct = f_Type_struct; NG_MPI_Type_free = f_Type_free; NG_MPI_Type_get_extent = f_Type_get_extent;
  NG_MPI_Type_indexed = f_Type_indexed; NG_MPI_Type_size = f_Type_size; NG_MPI_Wait = f_Wait; NG_MPI_Waitall = f_Waitall; NG_MPI_Waitany = f_Waitany;
}

// ---------------------------------------------------------------- threads
// Interposed pthread primitives. Outside of a simulated rank (or with Options::threads off) they forward to libc.

static bool simT () { return W && W->cur >= 0 && W->opt.threads; }
template<class F> static F real (const char * name) { return (F)dlsym(RTLD_NEXT, name); }

static void lockMtx (void * m)
{
  auto & x = W->mtx[m]; auto * px = &x; int me = W->cur;
  if (x.owner == me) failNow("deadlock", "thread locks a mutex it already holds");
  yieldPoint("mutex_lock");
  block("mutex_lock", [px](){ return px->owner < 0; });
  px->owner = me;
}
static void unlockMtx (void * m)
{
  auto & x = W->mtx[m];
  if (x.owner != W->cur) failNow("mutex", "unlock of a mutex that is not held");
  x.owner = -1;
  yieldPoint("mutex_unlock");
}
} // namespace sim

using namespace sim;
extern "C"
{
int pthread_mutex_lock (pthread_mutex_t * m) noexcept
{
  static auto r = real<int(*)(pthread_mutex_t*)>("pthread_mutex_lock");
  if (!simT()) return r(m);
  lockMtx(m); return 0;
}
int pthread_mutex_unlock (pthread_mutex_t * m) noexcept
{
  static auto r = real<int(*)(pthread_mutex_t*)>("pthread_mutex_unlock");
  if (!simT()) return r(m);
  unlockMtx(m); return 0;
}
int pthread_cond_wait (pthread_cond_t * c, pthread_mutex_t * m)
{
  static auto r = real<int(*)(pthread_cond_t*,pthread_mutex_t*)>("pthread_cond_wait");
  if (!simT()) return r(c, m);
  int me = W->cur;
  yieldPoint("cond_wait");
  auto & x = W->mtx[m];
  if (x.owner != me) failNow("mutex", "condition wait without holding the mutex");
  x.owner = -1;
  W->cond[c].push_back({ me, false });
  bool spur = false;
  if (W->opt.spurious && W->spurs < 2) { try { spur = W->ch->choose(2) == 1; } catch (Violation & v) { failNow(v.kind, v.what()); } }
  if (spur) { W->spurs++; yieldPoint("cond_wait(spurious)"); }
  else
    block("cond_wait", [c,me](){ for (auto & w : W->cond[c]) if (w.f == me) return w.woken; return true; });
  auto & v = W->cond[c];
  for (size_t i = 0; i < v.size(); i++) if (v[i].f == me) { v.erase(v.begin() + i); break; }
  auto * px = &W->mtx[m];
  block("cond_wait(relock)", [px](){ return px->owner < 0; });
  px->owner = me;
  return 0;
}
int pthread_cond_signal (pthread_cond_t * c) noexcept
{
  static auto r = real<int(*)(pthread_cond_t*)>("pthread_cond_signal");
  if (!simT()) return r(c);
  yieldPoint("cond_signal");
  vector<int> idx; auto & v = W->cond[c];
  for (size_t i = 0; i < v.size(); i++) if (!v[i].woken) idx.push_back(i);
  if (idx.size()) { int k = 0; try { k = W->ch->choose(idx.size()); } catch (Violation & vv) { failNow(vv.kind, vv.what()); } v[idx[k]].woken = true; }
  return 0;
}
int pthread_cond_broadcast (pthread_cond_t * c) noexcept
{
  static auto r = real<int(*)(pthread_cond_t*)>("pthread_cond_broadcast");
  if (!simT()) return r(c);
  yieldPoint("cond_broadcast");
  for (auto & w : W->cond[c]) w.woken = true;
  return 0;
}
int pthread_create (pthread_t * t, const pthread_attr_t * a, void * (*fn)(void*), void * arg) noexcept
{
  static auto r = real<int(*)(pthread_t*,const pthread_attr_t*,void*(*)(void*),void*)>("pthread_create");
  if (!simT()) return r(t, a, fn, arg);
  int id = addFiber(worldRank(), nullptr);
  Fiber * f = W->fibers[id].get();
  f->isThread = true;
  f->fn = [f,fn,arg](){ f->retval = fn(arg); };
  *t = 0x51000000ul + id;
  yieldPoint("thread_create");
  return 0;
}
int pthread_join (pthread_t t, void ** ret)
{
  static auto r = real<int(*)(pthread_t,void**)>("pthread_join");
  if (!simT() || (t >> 24) != 0x51) return r(t, ret);
  Fiber * f = W->fibers[t - 0x51000000ul].get();
  yieldPoint("thread_join");
  block("thread_join", [f](){ return f->done; });
  f->joined = true;
  if (ret) *ret = f->retval;
  return 0;
}
int pthread_detach (pthread_t t) noexcept
{
  static auto r = real<int(*)(pthread_t)>("pthread_detach");
  if (!simT() || (t >> 24) != 0x51) return r(t);
  W->fibers[t - 0x51000000ul]->detached = true;
  return 0;
}
}

// ---------------------------------------------------------------- local statics of the code under test
#include <elf.h>
#include <fcntl.h>
#include <sys/stat.h>
#include <unistd.h>
extern int main (int, char **);
namespace sim
{
void * findLocal (const char * part, size_t size)
{
  int fd = open("/proc/self/exe", O_RDONLY); if (fd < 0) return nullptr;
  struct stat sb; fstat(fd, &sb);
  char * m = (char*)mmap(nullptr, sb.st_size, PROT_READ, MAP_PRIVATE, fd, 0); close(fd);
  if (m == MAP_FAILED) return nullptr;
  auto * eh = (Elf64_Ehdr*)m; auto * sh = (Elf64_Shdr*)(m + eh->e_shoff);
  Elf64_Addr mainA = 0, found = 0; int cnt = 0;
  for (int i = 0; i < eh->e_shnum; i++)
    {
      if (sh[i].sh_type != SHT_SYMTAB) continue;
      auto * sy = (Elf64_Sym*)(m + sh[i].sh_offset); size_t n = sh[i].sh_size / sizeof(Elf64_Sym); const char * str = m + sh[sh[i].sh_link].sh_offset;
      for (size_t k = 0; k < n; k++)
        {
          const char * nm = str + sy[k].st_name;
          if (!strcmp(nm, "main")) mainA = sy[k].st_value;
          if (ELF64_ST_TYPE(sy[k].st_info) == STT_OBJECT && strstr(nm, part) && !strstr(nm, "_ZGV") && (!size || sy[k].st_size == size)) { found = sy[k].st_value; cnt++; }
        }
    }
  munmap(m, sb.st_size);
  if (cnt != 1 || !mainA) return nullptr;
  return (char*)(void*)&main + (found - mainA);
}
}
