#pragma once
// In-process simulated MPI under a controlled scheduler.
//
// Ranks (and, if thread interception is on, the threads they start) are fibers of one OS thread. Every decision the MPI
// standard (or a thread scheduler) leaves open is taken by a Chooser, so a depth-first search over the choices visits
// every behaviour within the bounds.
#include <functional>
#include <string>
#include <vector>
#include <cstdint>
#include <stdexcept>
#include <set>

namespace sim
{

// one path through the tree of choices; advance() moves to the next path in DFS order
struct Chooser
{
  struct Pt { int pick, n; };
  std::vector<Pt> trail;
  size_t pos = 0;
  size_t frozen = 0;               // choices < frozen are a fixed prefix (replay)
  size_t maxDepth = 0;             // 0: unlimited; beyond it the first alternative is taken (counted)
  uint64_t cutoffs = 0;
  int choose (int n);
  bool advance ();                 // false if tree exhausted
  void restart () { pos = 0; }
  std::string str () const;
  void load (const std::string & s);
};

struct Options
{
  int  n           = 1;
  bool rendezvous  = false;  // sends complete only when matched; data is read as late as MPI permits
  size_t eagerMax  = 0;      // with rendezvous: messages up to this many bytes are buffered
  bool late        = false;  // received data appears as late as MPI permits; buffer is poisoned at post
  bool loose       = false;  // collectives synchronise only as far as MPI guarantees
  bool waitany     = true;   // enumerate Waitany outcomes (otherwise lowest index)
  bool descending  = false;  // scheduling order of ranks
  bool interleave  = false;  // every MPI call / sync operation is a scheduling point
  bool gated       = false;  // interleave only between window(true) and window(false)
  int  focus       = -1;     // interleave the fibers of this rank with each other and with 'all others run until they block'; -1: everything with everything
  int  preempt     = -1;     // bound on preemptions if interleave (-1: none)
  bool threads     = false;  // pthread calls of fibers are simulated
  bool spurious    = false;  // condition variables may wake spuriously (one per wait)
  long maxSteps    = 2000000;
  std::string str () const;
};

struct Outcome
{
  bool ok = true;
  std::string kind, detail;
  long steps = 0;        // scheduler transitions (MPI calls, sync operations)
  int  preemptions = 0;
};

struct Violation : std::runtime_error
{ std::string kind; Violation (std::string k, const std::string & d) : std::runtime_error(d), kind(std::move(k)) { } };

// fingerprints of scheduler states visited (hash of per-fiber progress and message queues)
extern std::set<uint64_t> * stateSink;

void install ();
void rankLocal (void * p, size_t n);                      // every rank gets its own copy of this memory
void * findLocal (const char * part, size_t size = 0);    // address of a static of the executable by (part of) its mangled name
Outcome run (const Options & opt, Chooser & ch, std::function<void(int)> body);

// for fiber bodies
bool active ();          // inside a simulated rank
int  worldRank ();
int  worldSize ();
void yieldPoint (const char * what);  // explicit scheduling point
void window (bool open);              // collective: start / stop interleaving (Options::gated)

} // namespace sim
