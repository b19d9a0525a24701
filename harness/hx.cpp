#include "hx.h"

#include <pthread.h>
#include <signal.h>
#include <sys/stat.h>
#include <unistd.h>
#include <fstream>

#if defined(__has_feature)
#if __has_feature(address_sanitizer) || __has_feature(thread_sanitizer)
#define HX_SAN 1
extern "C" void __sanitizer_set_death_callback(void (*cb)(void));
#endif
#endif

extern "C" int __real_pthread_mutex_lock(pthread_mutex_t* m);
extern "C" int __real_pthread_mutex_unlock(pthread_mutex_t* m);

namespace hx
{
namespace
{
Options g_opt;
// The harness's own mutex is used through the unwrapped functions.
pthread_mutex_t g_mtx = PTHREAD_MUTEX_INITIALIZER;
struct Lk
{
  Lk() { __real_pthread_mutex_lock(&g_mtx); }
  ~Lk() { __real_pthread_mutex_unlock(&g_mtx); }
};
struct Viol
{
  std::string key;
  std::string detail;
  std::string test_case;
  std::string section;
};
std::atomic<long> g_evals{0};
std::unordered_set<uint64_t>* g_distinct = new std::unordered_set<uint64_t>;
std::map<std::string, long>* g_counts = new std::map<std::string, long>;
std::vector<std::string>* g_samples = new std::vector<std::string>;
std::vector<std::string>* g_exhaustive = new std::vector<std::string>;
std::vector<std::string>* g_assume = new std::vector<std::string>;
std::vector<Viol>* g_viols = new std::vector<Viol>;
std::string* g_rule = new std::string;
std::atomic<long> g_nviol{0};
char g_case[65536];
char g_section[256];
std::atomic<long> g_beat{0};
std::atomic<int> g_hang_limit{120};
std::atomic<bool> g_done{false};
Clock::time_point g_start;

std::string JsonStr(const std::string& s)
{
  std::string r = "\"";
  for (unsigned char c : s)
  {
    if (c == '"' || c == '\\') { r += '\\'; r += static_cast<char>(c); }
    else if (c < 0x20 || c >= 0x7f)
    {
      char buf[8];
      snprintf(buf, sizeof buf, "\\u%04x", c);
      r += buf;
    }
    else r += static_cast<char>(c);
  }
  return r + "\"";
}

void WriteResult(const char* end)
{
  if (g_opt.out.empty()) return;
  Lk lk;
  std::string tmp = g_opt.out + ".tmp";
  std::ofstream o(tmp);
  o << "{\"end\":" << JsonStr(end) << ",\"seed\":" << g_opt.seed
    << ",\"variant\":" << JsonStr(g_opt.variant)
    << ",\"evaluations\":" << g_evals.load() << ",\"distinct\":[";
  bool first = true;
  for (auto h : *g_distinct) { o << (first ? "" : ",") << h; first = false; }
  o << "],\"counts\":{";
  first = true;
  for (auto& p : *g_counts) { o << (first ? "" : ",") << JsonStr(p.first) << ":" << p.second; first = false; }
  o << "},\"samples\":[";
  first = true;
  for (auto& s : *g_samples) { o << (first ? "" : ",") << JsonStr(s); first = false; }
  o << "],\"exhaustive\":[";
  first = true;
  for (auto& s : *g_exhaustive) { o << (first ? "" : ",") << JsonStr(s); first = false; }
  o << "],\"assumptions\":[";
  first = true;
  for (auto& s : *g_assume) { o << (first ? "" : ",") << JsonStr(s); first = false; }
  o << "],\"rule\":" << JsonStr(*g_rule) << ",\"case\":" << JsonStr(g_case)
    << ",\"section\":" << JsonStr(g_section) << ",\"violations\":[";
  first = true;
  for (auto& v : *g_viols)
  {
    o << (first ? "" : ",") << "{\"key\":" << JsonStr(v.key) << ",\"detail\":" << JsonStr(v.detail)
      << ",\"case\":" << JsonStr(v.test_case) << ",\"section\":" << JsonStr(v.section) << "}";
    first = false;
  }
  o << "],\"wall_s\":" << std::chrono::duration<double>(Clock::now() - g_start).count() << "}\n";
  o.close();
  rename(tmp.c_str(), g_opt.out.c_str());
}

void OnDeath()
{
  // async context: only write the case
  const char* h = "\n=== HX section: ";
  (void)!write(2, h, strlen(h));
  (void)!write(2, g_section, strlen(g_section));
  h = "\n=== HX case: ";
  (void)!write(2, h, strlen(h));
  (void)!write(2, g_case, strlen(g_case));
  (void)!write(2, "\n", 1);
}

void Watchdog()
{
  long last = -1;
  auto since = Clock::now();
  while (!g_done.load(std::memory_order_relaxed))
  {
    usleep(100000);
    long b = g_beat.load(std::memory_order_relaxed);
    auto now = Clock::now();
    if (b != last) { last = b; since = now; continue; }
    if (now - since > std::chrono::seconds(g_hang_limit.load()))
    {
      fprintf(stderr, "\n=== HX HANG no progress for %d s\n", g_hang_limit.load());
      OnDeath();
      WriteResult("hang");
      _exit(97);
    }
  }
}
}  // namespace

uint64_t Hash(const std::string& s)
{
  uint64_t h = 1469598103934665603ull;
  for (unsigned char c : s) { h ^= c; h *= 1099511628211ull; }
  return h ^ (h >> 29);
}

const Options& Opt() { return g_opt; }
long Scale(long quick, long factor, long tsan_div)
{
  long n = g_opt.thorough ? quick * factor : quick;
  if (g_opt.variant == "tsan") n = n / tsan_div;
  return n > 0 ? n : 1;
}
void Eval(long n) { g_evals.fetch_add(n, std::memory_order_relaxed); Beat(); }
void Distinct(const std::string& key) { DistinctHash(Hash(key)); }
void DistinctHash(uint64_t key)
{
  Lk lk;
  if (g_distinct->size() < 400000) g_distinct->insert(key);
}
void Count(const std::string& name, long n) { Lk lk; (*g_counts)[name] += n; }
void CountMax(const std::string& name, long v) { Lk lk; auto& x = (*g_counts)[name]; if (v > x) x = v; }
void Sample(const std::string& text)
{
  Lk lk;
  if (g_samples->size() < 12) g_samples->push_back(text.substr(0, 1500));
}
void Rule(const std::string& text) { Lk lk; *g_rule = text; }
void Exhaustive(const std::string& what) { Lk lk; g_exhaustive->push_back(what); }
void Assume(const std::string& what) { Lk lk; g_assume->push_back(what); }

void Violation(const std::string& key, const std::string& detail)
{
  Lk lk;
  ++g_nviol;
  if (g_viols->size() >= 200) return;
  g_viols->push_back({key, detail.substr(0, 6000), g_case, g_section});
  fprintf(stderr, "=== HX violation [%s] %s\n    case: %.3000s\n", key.c_str(), detail.substr(0, 3000).c_str(), g_case);
}
bool TooMany() { return g_nviol.load() >= 25; }
long Violations() { return g_nviol.load(); }

void Case(const std::string& desc)
{
  Lk lk;
  size_t n = std::min(desc.size(), sizeof(g_case) - 1);
  memcpy(g_case, desc.data(), n);
  g_case[n] = 0;
}

void Beat() { g_beat.fetch_add(1, std::memory_order_relaxed); }
void SetHangLimit(int seconds) { g_hang_limit = seconds; Beat(); }

Section::Section(const std::string& n) : run(g_opt.only.empty() || g_opt.only == n), name(n), start(Clock::now())
{
  if (TooMany()) run = false;
  Lk lk;
  snprintf(g_section, sizeof g_section, "%s", n.c_str());
}
Section::~Section()
{
  if (run)
  {
    double s = std::chrono::duration<double>(Clock::now() - start).count();
    fprintf(stderr, "[section %s: %.2f s, %ld evaluations so far]\n", name.c_str(), s, g_evals.load());
  }
  Case("");
  Beat();
}

// ---- perturbation ------------------------------------------------------------------------
namespace
{
std::atomic<int> g_one_in{0};
std::atomic<int> g_max_us{0};
std::atomic<uint64_t> g_pseed{0};
std::atomic<uint64_t> g_ihash{0};
std::atomic<long> g_lock_events{0};
std::atomic<int> g_next_tag{100};
std::atomic<uint64_t> g_epoch{0};
thread_local int t_tag = -1;
thread_local uint64_t t_rng = 0;
thread_local uint64_t t_epoch = ~0ull;

inline uint64_t TNext()
{
  auto ep = g_epoch.load(std::memory_order_relaxed);
  if (t_epoch != ep)
  {
    t_epoch = ep;
    if (t_tag < 0) t_tag = g_next_tag.fetch_add(1, std::memory_order_relaxed);
    t_rng = (g_pseed.load(std::memory_order_relaxed) + static_cast<uint64_t>(t_tag) * 7919) * 0x9E3779B97F4A7C15ull + 1;
  }
  t_rng ^= t_rng << 13;
  t_rng ^= t_rng >> 7;
  t_rng ^= t_rng << 17;
  return t_rng;
}
inline void Delay()
{
  int n = g_one_in.load(std::memory_order_relaxed);
  if (n <= 0) return;
  uint64_t r = TNext();
  if (r % static_cast<uint64_t>(n) != 0) return;
  int max_us = g_max_us.load(std::memory_order_relaxed);
  uint64_t k = (r >> 20) % 4;
  if (k < 2 || max_us <= 0) sched_yield();
  else usleep(static_cast<useconds_t>((r >> 30) % static_cast<uint64_t>(max_us) + 1));
}
inline void Record()
{
  if (g_one_in.load(std::memory_order_relaxed) <= 0) return;
  TNext();
  uint64_t h = g_ihash.load(std::memory_order_relaxed);
  g_ihash.store((h ^ static_cast<uint64_t>(t_tag)) * 1099511628211ull + 7, std::memory_order_relaxed);
  g_lock_events.fetch_add(1, std::memory_order_relaxed);
}
}  // namespace

void PerturbOn(uint64_t seed, int one_in, int max_us)
{
  g_pseed = seed;
  g_max_us = max_us;
  g_ihash = 1469598103934665603ull;
  g_lock_events = 0;
  g_next_tag = 100;
  g_epoch.fetch_add(1);
  g_one_in = one_in;
}
void PerturbOff() { g_one_in = 0; }
uint64_t InterleavingHash() { return g_ihash.load(); }
long LockEvents() { return g_lock_events.load(); }
void MaybeDelay() { Delay(); }
void SetThreadTag(int tag) { t_tag = tag; t_epoch = ~0ull; }

bool WaitUntil(const std::function<bool()>& pred, double seconds)
{
  auto limit = Clock::now() + std::chrono::duration<double>(seconds);
  int us = 20;
  while (!pred())
  {
    if (Clock::now() > limit) return pred();
    usleep(us);
    if (us < 2000) us += us / 2;
  }
  return true;
}

std::string Quote(const std::string& s) { return JsonStr(s); }

int Main(int argc, char** argv, const std::function<void()>& body)
{
  g_start = Clock::now();
  for (int i = 1; i < argc; ++i)
  {
    std::string a = argv[i];
    auto next = [&]() -> std::string { return i + 1 < argc ? argv[++i] : ""; };
    if (a == "--seed") g_opt.seed = strtoull(next().c_str(), nullptr, 10);
    else if (a == "--tier") g_opt.thorough = next() == "thorough";
    else if (a == "--out") g_opt.out = next();
    else if (a == "--variant") g_opt.variant = next();
    else if (a == "--scratch") g_opt.scratch = next();
    else if (a == "--only") g_opt.only = next();
  }
#ifdef HX_SAN
  __sanitizer_set_death_callback(OnDeath);
#endif
  signal(SIGPIPE, SIG_IGN);
  std::thread wd(Watchdog);
  try
  {
    body();
  }
  catch (const std::exception& e)
  {
    Violation("uncaught-exception", std::string("exception escaped to the harness: ") + e.what());
  }
  catch (...)
  {
    Violation("uncaught-exception", "unknown exception escaped to the harness");
  }
  g_done = true;
  wd.join();
  WriteResult("done");
  return Violations() ? 3 : 0;
}

}  // namespace hx

extern "C" int __wrap_pthread_mutex_lock(pthread_mutex_t* m)
{
  hx::Delay();
  int r = __real_pthread_mutex_lock(m);
  hx::Record();
  return r;
}
extern "C" int __wrap_pthread_mutex_unlock(pthread_mutex_t* m)
{
  int r = __real_pthread_mutex_unlock(m);
  hx::Delay();
  return r;
}
