// S04: the background thread that runs communication tasks
#include <hybrid_base_smoother.cpp>
#include <vf.hpp>
using namespace amg;
using vf::str;

enum { TASK, WAIT, WORK, IDLE_WAIT };
// a program of the calling thread: tasks with `steps` interruptible phases each
static void RunProgram (const std::vector<int> & prog, int steps, bool useGlobal, int preempt, bool spurious)
{
  vf::Explore ex; ex.opt.n = 1; ex.opt.interleave = true; ex.opt.threads = true; ex.opt.preempt = preempt; ex.opt.spurious = spurious; ex.maxRuns = 3000000;
  int finished = 0, started = 0; std::vector<int> count; std::vector<std::pair<int,int>> overlap;
  ex([&](int) {
    auto th = make_shared<BackgroundMPIThread>();
    bool inCaller = false; auto token = make_shared<int>(0); int pendingTask = -1;
    for (size_t i = 0; i < prog.size(); i++)
      {
        vf::transitions();
        if (prog[i] == TASK)
          {
            int id = count.size(); count.push_back(0); pendingTask = id;
            th->StartInThread([&, id, token]() {
              started++; count[id]++;
              vf::check(started == finished + 1, "overlap", str("task ", id, " started while another one runs"));
              vf::check(id + 1 == (int)count.size(), "stale", str("task ", id, " runs although task ", count.size() - 1, " was handed over"));
              for (int s = 0; s < steps; s++) sim::yieldPoint("task");
              finished++;
            });
          }
        else if (prog[i] == WAIT)
          {
            th->WaitForThread();
            if (pendingTask >= 0)
              {
                vf::check(count[pendingTask] == 1, "count", str("after waiting, task ", pendingTask, " has run ", count[pendingTask], " times"));
                vf::check(finished == started && finished == (int)count.size(), "incomplete", str("after waiting ", finished, " of ", count.size(), " tasks have completed"));
                vf::check(token.use_count() == 1, "lifetime", "a completed task is kept alive");
              }
          }
        else if (prog[i] == WORK) { for (int s = 0; s < 2; s++) sim::yieldPoint("local work"); }
      }
    for (size_t k = 0; k < count.size(); k++) if ((int)k != pendingTask || prog.back() == WAIT) vf::check(count[k] == 1, "count", str("task ", k, " has run ", count[k], " times"));
    th = nullptr;
    for (size_t k = 0; k < count.size(); k++) vf::check(count[k] <= 1, "count", str("task ", k, " has run ", count[k], " times"));
    vf::check(started == finished, "shutdown", "shut down while a task was running");
  }, nullptr, [&]() { finished = started = 0; count.clear(); });
  vf::note(str("preemption bound ", preempt));
}

VF_PART(S04, programs)
{
  // every program of up to L operations in which a task is handed over only after the previous one was waited for
  std::vector<std::vector<int>> progs; std::vector<int> cur;
  int L = vf::thorough ? 7 : 6;
  std::function<void(bool,int)> rec = [&](bool pending, int tasks) {
    progs.push_back(cur);
    if ((int)cur.size() == L) return;
    if (!pending && tasks < 3) { cur.push_back(TASK); rec(true, tasks + 1); cur.pop_back(); }
    cur.push_back(WAIT); rec(false, tasks); cur.pop_back();
    if (cur.empty() || cur.back() != WORK) { cur.push_back(WORK); rec(pending, tasks); cur.pop_back(); }
  };
  rec(false, 0);
  for (auto & p : progs)
    {
      string n; int tasks = 0; for (int x : p) { n += "TWL"[x]; tasks += x == TASK; }
      for (int spur = 0; spur < 2; spur++)
        for (int steps = 0; steps <= 2; steps += 2)
          {
            // all interleavings for the short ones, otherwise bounded
            int bound = p.size() <= 2 ? -1 : p.size() <= 4 ? 4 : 3; if (vf::thorough) bound = p.size() <= 3 ? -1 : p.size() <= 5 ? 5 : 4;
            if (spur) bound = bound < 0 ? 4 : bound - 1;
            if (steps && tasks == 0) continue;
            emit(str("P", n, "/steps", steps, "/spurious", spur), [=]() { RunProgram(p, steps, false, bound, spur); });
          }
    }
}

// several owners of the process-wide thread
VF_PART(S04, shared)
{
  for (int objs = 1; objs <= 2; objs++)
    for (int rounds = 1; rounds <= 2; rounds++)
      emit(str("objects", objs, "/rounds", rounds), [=]() {
        void * slot = sim::findLocal("_ZZN3amg16GetGlobMPIThreadEv", 16); if (slot) sim::rankLocal(slot, 16);
        if (!slot) { vf::note("global thread not found"); return; }
        vf::Explore ex; ex.opt.n = 1; ex.opt.interleave = true; ex.opt.threads = true; ex.opt.preempt = 3; ex.maxRuns = 3000000; std::vector<int> done;
        ex([&](int) {
          std::vector<shared_ptr<BackgroundMPIThread>> t; for (int i = 0; i < objs; i++) t.push_back(GetGlobMPIThread());
          for (auto & x : t) vf::check(x == t[0], "single", "more than one communication thread");
          for (int r = 0; r < rounds; r++) for (auto & x : t) { int n = done.size(); x->StartInThread([&]() { done.push_back(1); sim::yieldPoint("task"); done.push_back(2); }); x->WaitForThread(); vf::check((int)done.size() == n + 2, "count", str("expected ", n + 2, " effects, found ", done.size())); }
          t.clear(); ((shared_ptr<BackgroundMPIThread>*)slot)->reset();
        }, nullptr, [&]() { done.clear(); });
      });
}
