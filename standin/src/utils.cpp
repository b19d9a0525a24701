// Stand-in for the sup-utils parts that oac-tree uses: XML trees (on libxml2) and loggers.
#include <sup/log/default_loggers.h>
#include <sup/xml/exceptions.h>
#include <sup/xml/tree_data.h>
#include <sup/xml/tree_data_parser.h>
#include <sup/xml/tree_data_serialize.h>

#include <libxml/parser.h>
#include <libxml/tree.h>

#include <cstdlib>
#include <fstream>
#include <mutex>

namespace sup { namespace xml {
TreeData::TreeData(const std::string& n) : m_node_name{n} {}
TreeData::TreeData(const std::string& n, const std::vector<Attribute>& a, const std::string& c)
  : m_node_name{n}, m_attributes{a}, m_content{c} {}
std::string TreeData::GetNodeName() const { return m_node_name; }
bool TreeData::HasAttribute(const std::string& name) const
{
  for (auto& a : m_attributes) { if (a.first == name) { return true; } }
  return false;
}
std::string TreeData::GetAttribute(const std::string& name) const
{
  for (auto& a : m_attributes) { if (a.first == name) { return a.second; } }
  throw InvalidOperationException("no such attribute: " + name);
}
const std::vector<TreeData::Attribute>& TreeData::Attributes() const { return m_attributes; }
std::size_t TreeData::GetNumberOfAttributes() const { return m_attributes.size(); }
void TreeData::AddAttribute(const std::string& name, const std::string& value)
{
  if (HasAttribute(name)) { throw InvalidOperationException("duplicate attribute: " + name); }
  m_attributes.emplace_back(name, value);
}
void TreeData::AddChild(const TreeData& child) { m_children.push_back(child); }
const std::vector<TreeData>& TreeData::Children() const { return m_children; }
std::size_t TreeData::GetNumberOfChildren() const { return m_children.size(); }
void TreeData::SetContent(const std::string& c) { m_content = c; }
std::string TreeData::GetContent() const { return m_content; }
bool TreeData::operator==(const TreeData& o) const
{
  return m_node_name == o.m_node_name && m_attributes == o.m_attributes
         && m_content == o.m_content && m_children == o.m_children;
}
namespace {
void Ignore(void*, const char*, ...) {}
struct LibXml {
  LibXml() { xmlInitParser(); xmlSetGenericErrorFunc(nullptr, Ignore); }
};
void Init() { static LibXml init; }
std::string Str(const xmlChar* s) { return s == nullptr ? std::string{} : reinterpret_cast<const char*>(s); }
TreeData FromNode(xmlDocPtr doc, xmlNodePtr node)
{
  TreeData r(Str(node->name));
  for (xmlAttrPtr a = node->properties; a != nullptr; a = a->next) {
    xmlChar* v = xmlNodeListGetString(doc, a->children, 1);
    std::string name = a->ns != nullptr && a->ns->prefix != nullptr
      ? Str(a->ns->prefix) + ":" + Str(a->name) : Str(a->name);
    r.AddAttribute(name, Str(v));
    xmlFree(v);
  }
  for (xmlNodePtr c = node->children; c != nullptr; c = c->next) {
    if (c->type == XML_TEXT_NODE && !xmlIsBlankNode(c)) {
      xmlChar* v = xmlNodeListGetString(doc, c, 1);
      r.SetContent(Str(v));
      xmlFree(v);
    } else if (c->type == XML_ELEMENT_NODE) {
      r.AddChild(FromNode(doc, c));
    }
  }
  return r;
}
std::unique_ptr<TreeData> FromDoc(xmlDocPtr doc)
{
  if (doc == nullptr) { throw ParseException("could not parse XML"); }
  std::unique_ptr<xmlDoc, void (*)(xmlDocPtr)> guard(doc, xmlFreeDoc);
  auto root = xmlDocGetRootElement(doc);
  if (root == nullptr) { throw ParseException("empty XML document"); }
  return std::make_unique<TreeData>(FromNode(doc, root));
}
constexpr int kOptions = XML_PARSE_NOBLANKS | XML_PARSE_NOERROR | XML_PARSE_NOWARNING | XML_PARSE_NONET;
std::string Escape(const std::string& s)
{
  std::string r;
  for (char c : s) {
    switch (c) {
    case '&': r += "&amp;"; break;
    case '<': r += "&lt;"; break;
    case '>': r += "&gt;"; break;
    case '"': r += "&quot;"; break;
    case '\n': r += "&#10;"; break;
    case '\t': r += "&#9;"; break;
    case '\r': r += "&#13;"; break;
    default: r += c;
    }
  }
  return r;
}
void Write(std::string& out, const TreeData& d, int indent)
{
  out += std::string(static_cast<std::size_t>(indent), ' ') + "<" + d.GetNodeName();
  for (auto& a : d.Attributes()) { out += " " + a.first + "=\"" + Escape(a.second) + "\""; }
  if (d.Children().empty() && d.GetContent().empty()) { out += "/>\n"; return; }
  out += ">";
  if (d.Children().empty()) {
    out += Escape(d.GetContent()) + "</" + d.GetNodeName() + ">\n";
    return;
  }
  out += "\n";
  for (auto& c : d.Children()) { Write(out, c, indent + 2); }
  out += std::string(static_cast<std::size_t>(indent), ' ') + "</" + d.GetNodeName() + ">\n";
}
}  // namespace
std::unique_ptr<TreeData> TreeDataFromFile(const std::string& filename)
{
  Init();
  if (!std::ifstream(filename).good()) { throw ParseException("file not found: " + filename); }
  return FromDoc(xmlReadFile(filename.c_str(), nullptr, kOptions));
}
std::unique_ptr<TreeData> TreeDataFromString(const std::string& xml)
{
  Init();
  return FromDoc(xmlReadMemory(xml.data(), static_cast<int>(xml.size()), "string.xml", nullptr, kOptions));
}
std::string TreeDataToString(const TreeData& d)
{
  std::string out = "<?xml version=\"1.0\" encoding=\"UTF-8\"?>\n";
  Write(out, d, 0);
  return out;
}
void TreeDataToFile(const std::string& filename, const TreeData& d)
{
  std::ofstream out(filename);
  out << TreeDataToString(d);
  if (!out) { throw SerializeException("cannot write file: " + filename); }
}
}}
namespace sup { namespace log {
std::string DefaultStdoutLogMessage(int severity, const std::string& source, const std::string& message)
{
  static const char* names[] = {"EMERGENCY", "ALERT", "CRITICAL", "ERROR", "WARNING", "NOTICE",
                                "INFO", "DEBUG", "TRACE"};
  std::string s = severity >= 0 && severity < 9 ? names[severity] : "UNKNOWN";
  return "[" + source + "][" + s + "] " + message;
}
DefaultLogger CreateDefaultSysLogger(const std::string& source)
{
  return DefaultLogger([](int severity, const std::string& src, const std::string& message) {
    static std::mutex mtx;
    std::lock_guard<std::mutex> lk{mtx};
    if (const char* f = std::getenv("STANDIN_SYSLOG_FILE")) {
      std::ofstream(f, std::ios::app) << DefaultStdoutLogMessage(severity, src, message) << "\n";
    }
  }, source, 4);
}
}}
