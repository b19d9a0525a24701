// Common support for all monitors: seeds, counters, evidence, violations, watchdog, perturbation.
#ifndef HX_H_
#define HX_H_

#include <atomic>
#include <chrono>
#include <condition_variable>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <map>
#include <memory>
#include <mutex>
#include <random>
#include <set>
#include <sstream>
#include <string>
#include <thread>
#include <unordered_set>
#include <vector>

namespace hx
{
using Clock = std::chrono::steady_clock;

// ---- deterministic PRNG ------------------------------------------------------------------
struct Rng
{
  uint64_t s;
  // seeds are scrambled: streams of neighbouring seeds must not be shifted copies of each other
  explicit Rng(uint64_t seed) : s((seed ^ 0xD1B54A32D192ED03ull) * 0xA0761D6478BD642Full)
  {
    s ^= s >> 32;
    s *= 0xE7037ED1A0B428DBull;
    s ^= s >> 29;
    next();
  }
  uint64_t next()
  {
    s += 0x9E3779B97F4A7C15ull;
    uint64_t z = s;
    z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
    z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
    return z ^ (z >> 31);
  }
  // uniform in [0,n)
  uint64_t below(uint64_t n) { return n ? next() % n : 0; }
  int range(int lo, int hi) { return lo + static_cast<int>(below(static_cast<uint64_t>(hi - lo + 1))); }
  bool chance(int num, int den) { return below(den) < static_cast<uint64_t>(num); }
  template <typename T> const T& pick(const std::vector<T>& v) { return v[below(v.size())]; }
};

uint64_t Hash(const std::string& s);

// ---- run context -------------------------------------------------------------------------
// One per process. Everything is thread-safe.
struct Options
{
  uint64_t seed = 1;
  bool thorough = false;
  std::string out;       // result file (JSON)
  std::string variant;   // asan | tsan
  std::string scratch;   // private scratch directory, exists
  std::string only;      // optional: restrict to one section
};
const Options& Opt();
// n for quick; n*k for thorough. Under tsan the count is divided by tsan_div.
long Scale(long quick, long thorough_factor = 8, long tsan_div = 1);

void Eval(long n = 1);                      // cases executed
void Distinct(const std::string& key);      // a distinct and non-trivial case, keyed
void DistinctHash(uint64_t key);
void Count(const std::string& name, long n = 1);   // extra measured counters
void CountMax(const std::string& name, long v);
void Sample(const std::string& text);       // keeps a few
void Rule(const std::string& text);
void Exhaustive(const std::string& what);   // space enumerated completely
void Assume(const std::string& text);

// A violation: key = short stable identification of the failing input/site.
void Violation(const std::string& key, const std::string& detail);
bool TooMany();   // enough violations were recorded, the workload may stop
long Violations();

// The case in execution, printed when a sanitizer or a crash ends the process.
void Case(const std::string& desc);

// An expression (GNU statement expression): whether the condition holds.
#define HX_CHECK(cond, key, detail)                                  \
  ({                                                                 \
    const bool hx_ok_ = static_cast<bool>(cond);                     \
    if (!hx_ok_)                                                     \
    {                                                                \
      std::ostringstream hx_oss_;                                    \
      hx_oss_ << detail << "   [" #cond " is false]";                \
      ::hx::Violation(key, hx_oss_.str());                           \
    }                                                                \
    hx_ok_;                                                          \
  })

// ---- watchdog ----------------------------------------------------------------------------
// If Beat() is not called for `seconds`, the process reports key "hang:<label>" and exits with
// status 97: the driver runs the harness once more before it believes a hang.
void Beat();
void SetHangLimit(int seconds);
struct Section
{
  explicit Section(const std::string& name);
  ~Section();
  bool run;
  std::string name;
  Clock::time_point start;
};

// ---- schedule perturbation ---------------------------------------------------------------
// pthread_mutex_lock/unlock of the code under test and of the harness are wrapped by the linker
// (--wrap) and, when switched on, yield or sleep at random; they also record the order in which
// threads take locks, whose hash identifies the interleaving.
void PerturbOn(uint64_t seed, int one_in, int max_us);
void PerturbOff();
uint64_t InterleavingHash();   // since the last PerturbOn
long LockEvents();
void MaybeDelay();             // explicit perturbation point for hooks and callbacks
void SetThreadTag(int tag);    // stable small id of the calling thread (for the hash)

// Wait until pred() is true, polling; false when it did not happen in `seconds`.
bool WaitUntil(const std::function<bool()>& pred, double seconds = 30.0);

std::string Quote(const std::string& s);

int Main(int argc, char** argv, const std::function<void()>& body);

}  // namespace hx

#define HX_MAIN(body) int main(int argc, char** argv) { return ::hx::Main(argc, argv, body); }

#endif
