#ifndef STANDIN_SUP_LOG_DEFAULT_LOGGERS_H_
#define STANDIN_SUP_LOG_DEFAULT_LOGGERS_H_
#include <sup/log/basic_logger.h>
namespace sup { namespace log {
class DefaultLogger {
public:
  using LogFunction = BasicLogger::LogFunction;
  DefaultLogger(LogFunction f, const std::string& source, int max_severity)
    : m_logger{std::move(f), source, max_severity} {}
  int SetMaxSeverity(int severity) { return m_logger.SetMaxSeverity(severity); }
  void Emergency(const std::string& m) const { m_logger.LogMessage(0, m); }
  void Alert(const std::string& m) const { m_logger.LogMessage(1, m); }
  void Critical(const std::string& m) const { m_logger.LogMessage(2, m); }
  void Error(const std::string& m) const { m_logger.LogMessage(3, m); }
  void Warning(const std::string& m) const { m_logger.LogMessage(4, m); }
  void Notice(const std::string& m) const { m_logger.LogMessage(5, m); }
  void Info(const std::string& m) const { m_logger.LogMessage(6, m); }
  void Debug(const std::string& m) const { m_logger.LogMessage(7, m); }
  void Trace(const std::string& m) const { m_logger.LogMessage(8, m); }
private:
  BasicLogger m_logger;
};
std::string DefaultStdoutLogMessage(int severity, const std::string& source,
                                    const std::string& message);
// The stand-in writes to the file named by STANDIN_SYSLOG_FILE, or nowhere (never to syslog).
DefaultLogger CreateDefaultSysLogger(const std::string& source);
}}
#endif
