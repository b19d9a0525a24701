#ifndef STANDIN_SUP_LOG_BASIC_LOGGER_H_
#define STANDIN_SUP_LOG_BASIC_LOGGER_H_
#include <atomic>
#include <functional>
#include <string>
namespace sup { namespace log {
class BasicLogger {
public:
  using LogFunction = std::function<void(int, const std::string&, const std::string&)>;
  BasicLogger(LogFunction f, std::string source, int max_severity)
    : m_f{std::move(f)}, m_source{std::move(source)}, m_max{max_severity} {}
  BasicLogger(const BasicLogger& o) : m_f{o.m_f}, m_source{o.m_source}, m_max{o.m_max.load()} {}
  BasicLogger& operator=(const BasicLogger&) = delete;
  int SetMaxSeverity(int severity) { return m_max.exchange(severity); }
  int GetMaxSeverity() const { return m_max.load(); }
  void LogMessage(int severity, const std::string& message) const {
    if (severity <= m_max.load()) { m_f(severity, m_source, message); }
  }
private:
  LogFunction m_f;
  std::string m_source;
  std::atomic<int> m_max;
};
}}
#endif
