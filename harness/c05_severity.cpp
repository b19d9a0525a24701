// Log severities: the two mappings are inverse of each other and total.
#include "hx.h"

#include <sup/oac-tree/log_severity.h>

#include <climits>

using namespace sup::oac_tree::log;
using namespace hx;

namespace
{
const std::vector<std::pair<int, std::string>> kTable = {
  {SUP_SEQ_LOG_EMERG, "EMERGENCY"}, {SUP_SEQ_LOG_ALERT, "ALERT"}, {SUP_SEQ_LOG_CRIT, "CRITICAL"}, {SUP_SEQ_LOG_ERR, "ERROR"},
  {SUP_SEQ_LOG_WARNING, "WARNING"}, {SUP_SEQ_LOG_NOTICE, "NOTICE"}, {SUP_SEQ_LOG_INFO, "INFO"}, {SUP_SEQ_LOG_DEBUG, "DEBUG"}, {SUP_SEQ_LOG_TRACE, "TRACE"}};

void Int(int v)
{
  std::string exp = v >= 0 && v < 9 ? kTable[v].second : "UNKNOWN";
  auto got = SeverityString(v);
  HX_CHECK(got == exp, "severity:text", "level " << v << " is rendered " << Quote(got) << " expected " << Quote(exp));
}
void Str(const std::string& s)
{
  int exp = NUMBER_OF_LOG_LEVELS;
  for (auto& p : kTable) if (p.second == s) exp = p.first;
  auto got = GetSeverityFromString(s);
  HX_CHECK(static_cast<int>(got) == exp, "severity:parse", "text " << Quote(s) << " gives level " << static_cast<int>(got) << " expected " << exp);
}

void Body()
{
  Rule("every level, wide and random integer ranges, every level name, all single-character edits, prefixes, "
       "extensions and case changes of names, and random strings; each value is one case");
  {
    Section s("concurrent-first-use");
    if (s.run)
    {
      std::atomic<int> go{0};
      std::vector<std::thread> th;
      for (int t = 0; t < 8; ++t)
        th.emplace_back([&, t] {
          ++go;
          while (go.load() < 8) {}
          for (int v = -2; v < 12; ++v) { if (t % 2) Int(v); else { if (v >= 0 && v < 9) Str(kTable[v].second); Str("nope"); } }
        });
      for (auto& t : th) t.join();
      Eval(8 * 14);
    }
  }
  {
    Section s("levels");
    if (s.run)
    {
      for (int i = 0; i < 9; ++i) HX_CHECK(kTable[i].first == i, "severity:syslog-number", "level " << kTable[i].second << " has number " << kTable[i].first << ", syslog order requires " << i);
      HX_CHECK(static_cast<int>(NUMBER_OF_LOG_LEVELS) == 9, "severity:count", "number of levels");
      int span = Opt().thorough ? 200000 : 30000;
      for (int v = -span; v <= span && !TooMany(); ++v) Int(v);
      Eval(2 * span + 1);
      for (int v : {INT_MIN, INT_MAX, INT_MIN + 1, INT_MAX - 1, 256, 65536, 1 << 24}) Int(v);
      Rng rng(Opt().seed);
      for (int i = 0; i < 20000 && !TooMany(); ++i) Int(static_cast<int>(rng.next()));
      Eval(20000);
      for (int i = 0; i < 9; ++i)
      {
        HX_CHECK(static_cast<int>(GetSeverityFromString(SeverityString(i))) == i, "severity:round-trip", "level " << i);
        DistinctHash(i + 1);
        Sample(std::to_string(i) + " <-> " + SeverityString(i));
      }
      Exhaustive("all levels and all integers within +-" + std::to_string(span));
    }
  }
  {
    Section s("names");
    if (s.run)
    {
      std::set<std::string> tried;
      auto t = [&](const std::string& x) { if (tried.insert(x).second) { Str(x); Eval(); Distinct(x); } };
      for (auto& p : kTable)
      {
        const auto& n = p.second;
        t(n);
        for (size_t i = 0; i <= n.size(); ++i) { t(n.substr(0, i)); t(n.substr(i)); }
        for (size_t i = 0; i < n.size(); ++i)
        {
          std::string d = n; d.erase(i, 1); t(d);
          for (int c = 0; c < 256; ++c) { std::string e = n; e[i] = static_cast<char>(c); t(e); }
        }
        for (size_t i = 0; i <= n.size(); ++i)
          for (int c = 0; c < 256; ++c) { std::string e = n; e.insert(i, 1, static_cast<char>(c)); t(e); }
        std::string lo = n; for (auto& c : lo) c = static_cast<char>(c + 32); t(lo);
        std::string cap = lo; cap[0] = n[0]; t(cap);
        t(" " + n); t(n + " "); t(n + "\n"); t(n + std::string(1, '\0')); t(n + n); t(n + "," + n);
        for (auto& q : kTable) t(n + q.second);
      }
      t(""); t("UNKNOWN"); t("EMERG"); t("CRIT"); t("ERR"); t("WARN"); t("0"); t("8"); t("9"); t("NUMBER_OF_LOG_LEVELS");
      Rng rng(Opt().seed * 3);
      for (long n = Scale(30000, 10, 3); n > 0 && !TooMany(); --n)
      {
        std::string x;
        int len = rng.range(0, 14);
        for (int i = 0; i < len; ++i) x += rng.chance(4, 5) ? static_cast<char>('A' + rng.range(0, 25)) : static_cast<char>(rng.range(0, 255));
        Str(x);
        Eval();
      }
      Exhaustive("all one-character deletions, replacements and insertions of the nine level names");
    }
  }
}
}  // namespace

HX_MAIN(Body)
