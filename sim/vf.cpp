#include "vf.hpp"
#include <sys/mman.h>
#include <sys/wait.h>
#include <sys/resource.h>
#include <sys/prctl.h>
#include <unistd.h>
#include <signal.h>
#include <fcntl.h>
#include <string.h>
#include <stdio.h>
#include <stdlib.h>
#include <time.h>
#include <map>
#include <atomic>
#include <set>
#include <fstream>
#include <iostream>
#include <core/exception.hpp>
#include <core/taskmanager.hpp>

namespace vf
{
using std::string; using std::vector;
bool thorough = false;
string argument;

static const size_t NTAB = size_t(1) << 24;      // fingerprints
static const int MAXW = 64, MAXV = 64, MAXNOTE = 96, MAXS = 24;
struct Shared
{
  std::atomic<uint64_t> evals, trans, traces, states, outcomes, cases, truncs, violations;
  char truncWhy[256];
  std::atomic<long> ticket;
  struct Wk { std::atomic<long> idx, next; std::atomic<uint64_t> beat; char id[512]; char detail[2048]; std::atomic<int> fin; } w[MAXW];
  struct Nt { std::atomic<int> used; char key[64]; std::atomic<uint64_t> n; } notes[MAXNOTE];
  struct Vi { char id[512]; char kind[64]; char text[4000]; char detail[2048]; } v[MAXV];
  std::atomic<int> ns; char samples[MAXS][600];
  std::atomic<uint64_t> tab[NTAB], tab2[NTAB];
};
static Shared * S = nullptr;
struct TimeUp { };
static double deadline = 1e300;
static double now () { timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + 1e-9 * t.tv_nsec; }
static int me = 0;

void fail (const string & kind, const string & text) { throw Fail(kind, text); }
void evals (uint64_t n) { S->evals += n; S->w[me].beat++; }
void transitions (uint64_t n) { S->trans += n; }
void traces (uint64_t n) { S->traces += n; }
static bool ins (std::atomic<uint64_t> * tab, uint64_t h)
{
  if (!h) h = 1;
  h *= 0x9E3779B97F4A7C15ull; if (!h) h = 1;
  for (size_t i = h >> 40, k = 0; k < 64; k++, i = (i + 1) & (NTAB - 1))
    {
      uint64_t c = tab[i].load(std::memory_order_relaxed);
      if (c == h) return false;
      if (!c) { if (tab[i].compare_exchange_strong(c, h)) return true; if (c == h) return false; }
    }
  return false;
}
bool state (uint64_t h) { if (ins(S->tab, h)) { S->states++; return true; } return false; }
bool outcome (uint64_t h) { if (ins(S->tab2, h)) { S->outcomes++; return true; } return false; }
void note (const string & key, uint64_t n)
{
  for (auto & x : S->notes)
    {
      int u = x.used.load();
      if (u == 2 && key == x.key) { x.n += n; return; }
      if (u == 0)
        {
          int e = 0;
          if (x.used.compare_exchange_strong(e, 1)) { strncpy(x.key, key.c_str(), 63); x.n += n; x.used = 2; return; }
        }
      while (x.used.load() == 1) ;
      if (key == x.key) { x.n += n; return; }
    }
}
void truncated (const string & why) { if (S->truncs++ == 0) strncpy(S->truncWhy, why.c_str(), 255); }
void progress (const string & d) { strncpy(S->w[me].detail, d.c_str(), 2047); S->w[me].beat++; }
uint64_t hash (const string & s) { uint64_t h = 1469598103934665603ull; for (unsigned char c : s) { h ^= c; h *= 1099511628211ull; } return h; }
uint64_t hash (uint64_t a, uint64_t b) { uint64_t h = a * 0x9E3779B97F4A7C15ull ^ (b + 0x7F4A7C15ull); h ^= h >> 29; h *= 0xBF58476D1CE4E5B9ull; return h ^ (h >> 32); }

struct Part { string prop, part; EnumFn fn; };
static vector<Part> & parts () { static vector<Part> p; return p; }
Registrar :: Registrar (const char * prop, const char * part, EnumFn fn) { parts().push_back({ prop, part, fn }); }

static string replayTrail; static bool haveReplay = false; static string replayOpt;

void Explore :: operator() (const std::function<void(int)> & body, const std::function<void()> & after, const std::function<void()> & before)
{
  sim::Chooser ch;
  if (haveReplay && replayOpt == opt.str()) { ch.load(replayTrail); ch.frozen = ch.trail.size(); }
  uint64_t runs = 0;
  std::set<uint64_t> st; sim::stateSink = &st;
  uint64_t caseh = hash(S->w[me].id);
  for (;;)
    {
      if (before) before();
      ch.restart();
      progress("options " + opt.str() + " trail " + ch.str());
      auto o = sim::run(opt, ch, body);
      evals(); transitions(o.steps); runs++;
      if (!o.ok)
        { sim::stateSink = nullptr; fail(o.kind, o.detail + " @ options " + opt.str() + " trail " + ch.str()); }
      if (after)
        {
          try { after(); }
          catch (Fail & f) { sim::stateSink = nullptr; fail(f.kind, string(f.what()) + " @ options " + opt.str() + " trail " + ch.str()); }
        }
      traces();
      if (!ch.advance()) break;
      if ((runs & 15) == 0 && now() > deadline) { sim::stateSink = nullptr; truncated("time budget, inside " + string(S->w[me].id)); throw TimeUp(); }
      if (runs >= maxRuns) { truncated("schedule budget: " + opt.str() + " after " + std::to_string(runs) + " runs in " + S->w[me].id); break; }
    }
  sim::stateSink = nullptr;
  for (auto h : st) state(hash(h, hash(caseh, hash(opt.str()))));
  note("schedules", runs);
}

vector<sim::Options> modes (int n, bool full)
{
  vector<sim::Options> v;
  sim::Options o; o.n = n;
  // buffered sends, early delivery, loose collectives
  o.loose = true; v.push_back(o);
  // rendezvous, late delivery, synchronising collectives, reversed rank order, no Waitany branching (covered by the first)
  sim::Options r; r.n = n; r.rendezvous = true; r.late = true; r.descending = true; r.waitany = !full ? false : true; v.push_back(r);
  if (full)
    {
      sim::Options e = r; e.rendezvous = false; e.loose = true; e.waitany = false; v.push_back(e);     // buffered but late
      sim::Options q = o; q.rendezvous = true; q.loose = true; q.waitany = false; v.push_back(q);       // rendezvous, early
    }
  return v;
}

static string jstr (const string & s)
{
  string o = "\"";
  for (unsigned char c : s)
    {
      if (c == '"' || c == '\\') { o += '\\'; o += c; }
      else if (c == '\n') o += "\\n";
      else if (c < 32 || c > 126) { char b[8]; snprintf(b, 8, "\\u%04x", c); o += b; }
      else o += c;
    }
  return o + "\"";
}

static void record (const string & id, const string & kind, const string & text, const string & detail)
{
  uint64_t k = S->violations++;
  if (k >= MAXV) return;
  auto & v = S->v[k];
  strncpy(v.id, id.c_str(), 511); strncpy(v.kind, kind.c_str(), 63); strncpy(v.text, text.c_str(), 3999); strncpy(v.detail, detail.c_str(), 2047);
}

static bool runOne (const string & id, const std::function<void()> & run)
{
  try { run(); return true; }
  catch (TimeUp &) { return true; }
  catch (Fail & f) { record(id, f.kind, f.what(), S->w[me].detail); }
  catch (ngcore::Exception & e) { record(id, "exception", e.What(), S->w[me].detail); }
  catch (std::exception & e) { record(id, "exception", e.what(), S->w[me].detail); }
  sim::stateSink = nullptr;
  return false;
}

static int maxViol = 8;
static void work (const vector<Part*> & ps, int wk, int nw)
{
  me = wk; long idx = -1; struct Stop { }; long mine = S->w[wk].next >= 0 ? (long)S->w[wk].next : (long)S->ticket++;
  Emit e; Part * cur = nullptr;
  e.f = [&](const string & cid, const std::function<void()> & run)
  {
    idx++;
    if (idx != mine) return;
    mine = S->ticket++; S->w[wk].next = mine;
    if (S->violations >= (uint64_t)maxViol) throw Stop();
    if (now() > deadline) { truncated("time budget"); throw Stop(); }
    auto & w = S->w[wk];
    string id = cur->part + ":" + cid;
    strncpy(w.id, id.c_str(), 511); w.detail[0] = 0; w.idx = idx; w.beat++;
    runOne(id, run);
    S->cases++;
    // samples spread over the run
    uint64_t k = S->cases;
    if ((k & (k - 1)) == 0) { int q = S->ns++; if (q < MAXS) { string s = id; if (w.detail[0]) s += " | last run: " + string(w.detail); strncpy(S->samples[q], s.c_str(), 599); } }
    struct rusage ru; if (getrusage(RUSAGE_SELF, &ru) == 0 && ru.ru_maxrss > (long)800 << 10) _exit(77);   // the code under test keeps some memory: go on in a fresh process
  };
  try { for (auto p : ps) { cur = p; p->fn(e); } } catch (Stop &) { }
  S->w[wk].fin = 1;
}

} // namespace vf

using namespace vf;
int main (int argc, char ** argv)
{
  string prop, out, replay; int nw = 8; long budget = 600; double hang = 120; bool list = false; string only; bool verbose = false;
  for (int i = 1; i < argc; i++)
    {
      string a = argv[i]; auto nx = [&]() { return string(argv[++i]); };
      if (a == "--prop") prop = nx(); else if (a == "--out") out = nx(); else if (a == "--workers") nw = stoi(nx());
      else if (a == "--budget") budget = stol(nx()); else if (a == "--hang") hang = stod(nx()); else if (a == "--thorough") thorough = true;
      else if (a == "--case") replay = nx(); else if (a == "--list") list = true; else if (a == "--part") only = nx(); else if (a == "--arg") argument = nx();
      else if (a == "--trail") { replayTrail = nx(); haveReplay = true; } else if (a == "--opt") replayOpt = nx(); else if (a == "--maxviol") maxViol = stoi(nx()); else if (a == "-v") verbose = true;
      else { fprintf(stderr, "unknown option %s\n", a.c_str()); return 3; }
    }
  S = (Shared*)mmap(nullptr, sizeof(Shared), PROT_READ|PROT_WRITE, MAP_SHARED|MAP_ANONYMOUS|MAP_NORESERVE, -1, 0);
  vector<Part*> ps;
  for (auto & p : parts()) if (p.prop == prop && (only.empty() || only == p.part)) ps.push_back(&p);
  if (ps.empty()) { fprintf(stderr, "no parts for %s\n", prop.c_str()); return 3; }
  sim::install();
  if (list)
    {
      long n = 0; Emit e; Part * cur = nullptr; bool pr = verbose; std::map<string,long> cnt;
      e.f = [&](const string & id, const std::function<void()> &) { n++; cnt[cur->part]++; if (pr) printf("%s:%s\n", cur->part.c_str(), id.c_str()); };
      for (auto p : ps) { cur = p; p->fn(e); }
      for (auto & c : cnt) printf("%s %ld\n", c.first.c_str(), c.second);
      printf("%ld cases\n", n); return 0;
    }
  if (!replay.empty())
    {
      bool found = false, ok = true; Emit e; Part * cur = nullptr;
      e.f = [&](const string & id, const std::function<void()> & run) { if (cur->part + ":" + id == replay) { found = true; strncpy(S->w[0].id, replay.c_str(), 511); ok = runOne(replay, run); } };
      for (auto p : ps) { cur = p; p->fn(e); }
      if (!found) { printf("case not found\n"); return 3; }
      if (!ok) { printf("VIOLATED kind=%s\n%s\n", S->v[0].kind, S->v[0].text); return 1; }
      printf("held (%lu executions)\n", (unsigned long)S->evals); return 0;
    }
  double t0 = now();
  vector<pid_t> pid(nw); vector<double> lastT(nw, now()); vector<uint64_t> lastB(nw, 0);
  int devnull = open("/dev/null", O_WRONLY);
  auto spawn = [&](int w)
  {
    fflush(stdout); fflush(stderr);
    pid_t p = fork();
    if (p == 0)
      {
        prctl(PR_SET_PDEATHSIG, SIGKILL);
        struct rlimit rl = { 0, 0 }; setrlimit(RLIMIT_CORE, &rl);
        struct rlimit as = { (rlim_t)6 << 30, (rlim_t)6 << 30 }; setrlimit(RLIMIT_AS, &as);
        if (!verbose) { dup2(devnull, 1); dup2(devnull, 2); }
        deadline = t0 + budget; work(ps, w, nw);
        _exit(0);
      }
    pid[w] = p; lastT[w] = now(); lastB[w] = S->w[w].beat;
  };
  for (int w = 0; w < nw; w++) { S->w[w].idx = -1; S->w[w].next = -1; spawn(w); }
  int alive = nw;
  while (alive)
    {
      usleep(3000);
      for (int w = 0; w < nw; w++)
        {
          if (pid[w] <= 0) continue;
          int st; pid_t r = waitpid(pid[w], &st, WNOHANG);
          bool dead = r == pid[w], hung = false;
          if (!dead)
            {
              uint64_t b = S->w[w].beat;
              if (b != lastB[w]) { lastB[w] = b; lastT[w] = now(); }
              else if (now() - lastT[w] > hang) { kill(pid[w], SIGKILL); waitpid(pid[w], &st, 0); dead = true; hung = true; }
            }
          if (!dead) continue;
          if (S->w[w].fin) { pid[w] = 0; alive--; continue; }
          if (!hung && WIFEXITED(st) && WEXITSTATUS(st) == 77) { spawn(w); continue; }
          string why = hung ? "no progress for " + std::to_string((int)hang) + " s" : WIFSIGNALED(st) ? "killed by signal " + std::to_string(WTERMSIG(st)) : "exit code " + std::to_string(WEXITSTATUS(st));
          record(S->w[w].id, hung ? "hang" : "crash", why + " while running " + S->w[w].detail, S->w[w].detail);
          if (S->violations >= (uint64_t)maxViol) { pid[w] = 0; alive--; continue; }
          spawn(w);
        }
    }
  string j = "{";
  auto add = [&](const string & k, const string & v) { if (j.size() > 1) j += ",\n "; j += jstr(k) + ": " + v; };
  add("property", jstr(prop)); add("cases", std::to_string(S->cases)); add("evaluations", std::to_string(S->evals)); add("transitions", std::to_string(S->trans));
  add("traces", std::to_string(S->traces)); add("states", std::to_string(S->states)); add("distinct", std::to_string(S->outcomes));
  add("truncated", std::to_string(S->truncs)); add("truncated_why", jstr(S->truncWhy)); add("wall", std::to_string(now() - t0));
  string nj = "{"; { std::map<string,uint64_t> m; for (auto & x : S->notes) if (x.used) m[x.key] = x.n; for (auto & k : m) { if (nj.size() > 1) nj += ", "; nj += jstr(k.first) + ": " + std::to_string(k.second); } }
  add("notes", nj + "}");
  string sj = "["; for (int i = 0; i < std::min((int)S->ns, MAXS); i++) { if (i) sj += ", "; sj += jstr(S->samples[i]); } add("samples", sj + "]");
  string vj = "["; for (int i = 0; i < (int)std::min<uint64_t>(S->violations, MAXV); i++) { if (i) vj += ",\n  "; auto & v = S->v[i]; vj += "{\"case\": " + jstr(v.id) + ", \"kind\": " + jstr(v.kind) + ", \"text\": " + jstr(v.text) + ", \"detail\": " + jstr(v.detail) + "}"; }
  add("violations", vj + "]"); j += "}\n";
  if (out.size()) { std::ofstream o(out); o << j; } else std::cout << j;
  return S->violations ? 1 : 0;
}
