#ifndef STANDIN_SUP_CLI_COMMAND_LINE_PARSER_H_
#define STANDIN_SUP_CLI_COMMAND_LINE_PARSER_H_
#include <list>
#include <string>
#include <vector>
namespace sup { namespace cli {
class CommandLineOption {
public:
  explicit CommandLineOption(std::vector<std::string> names) : m_names{std::move(names)} {}
  CommandLineOption& SetParameter(bool v) { m_parameter = v; return *this; }
  CommandLineOption& SetValueName(const std::string& n) { m_value_name = n; return *this; }
  CommandLineOption& SetRequired(bool v) { m_required = v; return *this; }
  CommandLineOption& SetDefaultValue(const std::string& v) { m_default = v; m_has_default = true; return *this; }
  std::vector<std::string> m_names;
  std::string m_value_name, m_default, m_value;
  bool m_parameter = false, m_required = false, m_has_default = false, m_set = false;
};
class CommandLineParser {
public:
  void SetDescription(const std::string&, const std::string& d) { m_description = d; }
  void AddHelpOption() { m_help = true; }
  CommandLineOption& AddOption(const std::vector<std::string>& names, const std::string&) {
    m_options.emplace_back(names);
    return m_options.back();
  }
  bool Parse(int argc, char* argv[]) {
    for (int i = 1; i < argc; ++i) {
      auto* o = Find(argv[i]);
      if (o == nullptr) { return false; }
      o->m_set = true;
      if (o->m_parameter) {
        if (++i >= argc) { return false; }
        o->m_value = argv[i];
      }
    }
    for (auto& o : m_options) { if (o.m_required && !o.m_set) { return false; } }
    return true;
  }
  bool IsSet(const std::string& name) { auto* o = Find(name); return o != nullptr && o->m_set; }
  template <typename T> T GetValue(const std::string& name) {
    auto* o = Find(name);
    if (o == nullptr) { return {}; }
    return o->m_set ? o->m_value : o->m_default;
  }
  std::string GetUsageString() const { return "usage: " + m_description + "\n"; }
private:
  CommandLineOption* Find(const std::string& name) {
    for (auto& o : m_options) { for (auto& n : o.m_names) { if (n == name) { return &o; } } }
    return nullptr;
  }
  std::list<CommandLineOption> m_options;
  std::string m_description;
  bool m_help = false;
};
}}
#endif
