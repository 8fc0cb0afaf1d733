#pragma once
// Enumeration framework: cases are generated deterministically, distributed over forked workers, and judged by oracles
// that throw vf::Fail. A crash or hang of a worker is attributed to the case it was running.
#include <functional>
#include <string>
#include <sstream>
#include <vector>
#include <cstdint>
#include <cmath>
#include "simmpi.hpp"

namespace vf
{
typedef sim::Violation Fail;   // Fail(kind, text)

[[noreturn]] void fail (const std::string & kind, const std::string & text);
#define VFCK(c, kind, ...) do { if (!(c)) vf::fail(kind, __VA_ARGS__); } while (0)   // builds the text on failure only
inline void check (bool c, const std::string & kind, const std::string & text) { if (!c) fail(kind, text); }
template<class F> inline void checkf (bool c, const char * kind, F && f) { if (!c) { std::stringstream s; f(s); fail(kind, s.str()); } }

extern bool thorough;
extern std::string argument;  // optional selector given on the command line

// counters (shared between workers)
void evals (uint64_t n = 1);        // executions of the code under test
void transitions (uint64_t n = 1);  // operations / scheduler steps executed
void traces (uint64_t n = 1);       // traces compared with the reference model
bool state (uint64_t h);            // visited state fingerprint; true if new
bool outcome (uint64_t h);          // distinct non-trivial case/outcome fingerprint; true if new
void note (const std::string & key, uint64_t n = 1);   // named coverage counter
void truncated (const std::string & why);              // the bounded space was not covered completely
void progress (const std::string & detail);            // what is being run now (for crash reports)

uint64_t hash (const std::string & s);
uint64_t hash (uint64_t a, uint64_t b);

// ------- cases
struct Emit
{
  std::function<void(const std::string &, const std::function<void()> &)> f;
  // id must be unique and stable
  void operator() (const std::string & id, const std::function<void()> & run) { f(id, run); }
};
typedef void (*EnumFn) (Emit &);
struct Registrar { Registrar (const char * prop, const char * part, EnumFn fn); };
#define VF_PART(PROP, PART) static void enum_##PROP##_##PART (vf::Emit &); static vf::Registrar reg_##PROP##_##PART(#PROP, #PART, enum_##PROP##_##PART); static void enum_##PROP##_##PART (vf::Emit & emit)

// ------- exploration of all choices of a simulated parallel run
struct Explore
{
  sim::Options opt;
  uint64_t maxRuns = 20000;   // per call; exceeding it is reported as truncation
  // body(rank); check() after every complete run
  void operator() (const std::function<void(int)> & body, const std::function<void()> & after = nullptr, const std::function<void()> & before = nullptr);
};
// the MPI semantics variants every parallel property is explored under
std::vector<sim::Options> modes (int n, bool full = true);

// message text helper
template<class... A> std::string str (const A & ... a) { std::stringstream s; s.precision(17); ((s << a), ...); return s.str(); }

} // namespace vf
