// Stand-in JSON reading and writing for sup-dto values and types.
#include <sup/dto/anytype_helper.h>
#include <sup/dto/anyvalue_helper.h>
#include <sup/dto/json_type_parser.h>
#include <sup/dto/json_value_parser.h>

#include <charconv>
#include <cmath>
#include <fstream>
#include <sstream>

namespace sup { namespace dto {
namespace {
struct Json {
  enum Kind { Null, Bool, Int, Uint, Double, String, Array, Object } kind = Null;
  bool b = false;
  std::int64_t i = 0;
  std::uint64_t u = 0;
  double d = 0;
  std::string s;
  std::vector<Json> a;
  std::vector<std::pair<std::string, Json>> o;
};
class Reader {
public:
  explicit Reader(const std::string& t) : m_t{t} {}
  bool Read(Json& j)
  {
    Ws();
    if (!Value(j, 0)) { return false; }
    Ws();
    return m_p == m_t.size();
  }
private:
  void Ws() { while (m_p < m_t.size() && (m_t[m_p] == ' ' || m_t[m_p] == '\t' || m_t[m_p] == '\n' || m_t[m_p] == '\r')) { ++m_p; } }
  bool Lit(const char* l)
  {
    std::string s(l);
    if (m_t.compare(m_p, s.size(), s) != 0) { return false; }
    m_p += s.size();
    return true;
  }
  bool Value(Json& j, int depth)
  {
    if (depth > 500 || m_p >= m_t.size()) { return false; }
    switch (m_t[m_p]) {
    case '{': return Object(j, depth);
    case '[': return Array(j, depth);
    case '"': j.kind = Json::String; return Str(j.s);
    case 't': j.kind = Json::Bool; j.b = true; return Lit("true");
    case 'f': j.kind = Json::Bool; j.b = false; return Lit("false");
    case 'n': j.kind = Json::Null; return Lit("null");
    default: return Number(j);
    }
  }
  bool Object(Json& j, int depth)
  {
    j.kind = Json::Object;
    ++m_p;
    Ws();
    if (m_p < m_t.size() && m_t[m_p] == '}') { ++m_p; return true; }
    while (true) {
      Ws();
      std::string k;
      if (m_p >= m_t.size() || m_t[m_p] != '"' || !Str(k)) { return false; }
      Ws();
      if (m_p >= m_t.size() || m_t[m_p++] != ':') { return false; }
      Ws();
      j.o.emplace_back(k, Json{});
      if (!Value(j.o.back().second, depth + 1)) { return false; }
      Ws();
      if (m_p >= m_t.size()) { return false; }
      char c = m_t[m_p++];
      if (c == '}') { return true; }
      if (c != ',') { return false; }
    }
  }
  bool Array(Json& j, int depth)
  {
    j.kind = Json::Array;
    ++m_p;
    Ws();
    if (m_p < m_t.size() && m_t[m_p] == ']') { ++m_p; return true; }
    while (true) {
      Ws();
      j.a.emplace_back();
      if (!Value(j.a.back(), depth + 1)) { return false; }
      Ws();
      if (m_p >= m_t.size()) { return false; }
      char c = m_t[m_p++];
      if (c == ']') { return true; }
      if (c != ',') { return false; }
    }
  }
  bool Str(std::string& out)
  {
    ++m_p;
    while (m_p < m_t.size()) {
      unsigned char c = static_cast<unsigned char>(m_t[m_p++]);
      if (c == '"') { return true; }
      if (c < 0x20) { return false; }
      if (c != '\\') { out += static_cast<char>(c); continue; }
      if (m_p >= m_t.size()) { return false; }
      char e = m_t[m_p++];
      switch (e) {
      case '"': out += '"'; break;
      case '\\': out += '\\'; break;
      case '/': out += '/'; break;
      case 'b': out += '\b'; break;
      case 'f': out += '\f'; break;
      case 'n': out += '\n'; break;
      case 'r': out += '\r'; break;
      case 't': out += '\t'; break;
      case 'u': {
        if (m_p + 4 > m_t.size()) { return false; }
        unsigned v = 0;
        auto r = std::from_chars(&m_t[m_p], &m_t[m_p] + 4, v, 16);
        if (r.ptr != &m_t[m_p] + 4) { return false; }
        m_p += 4;
        if (v < 0x80) { out += static_cast<char>(v); }
        else if (v < 0x800) { out += static_cast<char>(0xC0 | (v >> 6)); out += static_cast<char>(0x80 | (v & 0x3F)); }
        else { out += static_cast<char>(0xE0 | (v >> 12)); out += static_cast<char>(0x80 | ((v >> 6) & 0x3F)); out += static_cast<char>(0x80 | (v & 0x3F)); }
        break;
      }
      default: return false;
      }
    }
    return false;
  }
  bool Number(Json& j)
  {
    std::size_t b = m_p;
    if (m_t.compare(m_p, 3, "NaN") == 0) { m_p += 3; j.kind = Json::Double; j.d = std::nan(""); return true; }
    for (auto l : {"Infinity", "Inf"}) {
      for (int neg = 0; neg < 2; ++neg) {
        std::string s = std::string(neg ? "-" : "") + l;
        if (m_t.compare(m_p, s.size(), s) == 0) {
          m_p += s.size(); j.kind = Json::Double; j.d = neg ? -HUGE_VAL : HUGE_VAL; return true;
        }
      }
    }
    bool neg = m_t[m_p] == '-';
    if (neg) { ++m_p; }
    std::size_t digits = m_p;
    while (m_p < m_t.size() && m_t[m_p] >= '0' && m_t[m_p] <= '9') { ++m_p; }
    if (m_p == digits) { return false; }
    if (m_t[digits] == '0' && m_p - digits > 1) { return false; }
    bool real = false;
    if (m_p < m_t.size() && m_t[m_p] == '.') {
      real = true;
      std::size_t f = ++m_p;
      while (m_p < m_t.size() && m_t[m_p] >= '0' && m_t[m_p] <= '9') { ++m_p; }
      if (m_p == f) { return false; }
    }
    if (m_p < m_t.size() && (m_t[m_p] == 'e' || m_t[m_p] == 'E')) {
      real = true;
      ++m_p;
      if (m_p < m_t.size() && (m_t[m_p] == '+' || m_t[m_p] == '-')) { ++m_p; }
      std::size_t f = m_p;
      while (m_p < m_t.size() && m_t[m_p] >= '0' && m_t[m_p] <= '9') { ++m_p; }
      if (m_p == f) { return false; }
    }
    const char* s = m_t.data() + b;
    const char* e = m_t.data() + m_p;
    if (!real) {
      if (neg) {
        if (std::from_chars(s, e, j.i).ec == std::errc{}) { j.kind = Json::Int; return true; }
      } else if (std::from_chars(s, e, j.u).ec == std::errc{}) { j.kind = Json::Uint; return true; }
    }
    j.kind = Json::Double;
    return std::from_chars(s, e, j.d).ec == std::errc{};
  }
  const std::string& m_t;
  std::size_t m_p = 0;
};

bool ReadFile(const std::string& filename, std::string& content)
{
  std::ifstream in(filename);
  if (!in.is_open()) { return false; }
  std::stringstream ss;
  ss << in.rdbuf();
  content = ss.str();
  return true;
}

std::string Quote(const std::string& s)
{
  std::string r = "\"";
  for (char ch : s) {
    unsigned char c = static_cast<unsigned char>(ch);
    switch (c) {
    case '"': r += "\\\""; break;
    case '\\': r += "\\\\"; break;
    case '\b': r += "\\b"; break;
    case '\f': r += "\\f"; break;
    case '\n': r += "\\n"; break;
    case '\r': r += "\\r"; break;
    case '\t': r += "\\t"; break;
    default:
      if (c < 0x20) { char buf[8]; std::snprintf(buf, sizeof buf, "\\u%04X", c); r += buf; }
      else { r += ch; }
    }
  }
  return r + "\"";
}
std::string Real(double d)
{
  if (std::isnan(d)) { return "NaN"; }
  if (std::isinf(d)) { return d < 0 ? "-Infinity" : "Infinity"; }
  char buf[64];
  auto r = std::to_chars(buf, buf + sizeof buf, d);
  std::string s(buf, r.ptr);
  if (s.find_first_of(".e") == std::string::npos) { s += ".0"; }
  return s;
}
void WriteValue(std::string& out, const AnyValue& v)
{
  switch (v.GetTypeCode()) {
  case TypeCode::Empty: out += "null"; break;
  case TypeCode::Bool: out += v.As<boolean>() ? "true" : "false"; break;
  case TypeCode::Char8: case TypeCode::Int8: case TypeCode::Int16: case TypeCode::Int32:
  case TypeCode::Int64: out += std::to_string(v.As<int64>()); break;
  case TypeCode::UInt8: case TypeCode::UInt16: case TypeCode::UInt32: case TypeCode::UInt64:
    out += std::to_string(v.As<uint64>()); break;
  case TypeCode::Float32: case TypeCode::Float64: out += Real(v.As<float64>()); break;
  case TypeCode::String: out += Quote(v.As<std::string>()); break;
  case TypeCode::Struct: {
    out += "{";
    bool first = true;
    for (auto& c : v.Children()) {
      if (!first) { out += ","; }
      first = false;
      out += Quote(c.first) + ":";
      WriteValue(out, c.second);
    }
    out += "}";
    break;
  }
  case TypeCode::Array: {
    out += "[";
    bool first = true;
    for (auto& c : v.Children()) {
      if (!first) { out += ","; }
      first = false;
      WriteValue(out, c.second);
    }
    out += "]";
    break;
  }
  }
}
void WriteType(std::string& out, const AnyType& t)
{
  if (t.GetTypeCode() == TypeCode::Empty) { out += "{\"type\":\"\"}"; return; }
  out += "{\"type\":" + Quote(t.GetTypeName());
  if (IsStructType(t)) {
    out += ",\"attributes\":[";
    bool first = true;
    for (auto& m : t.Members()) {
      if (!first) { out += ","; }
      first = false;
      out += "{" + Quote(m.first) + ":";
      WriteType(out, m.second);
      out += "}";
    }
    out += "]";
  } else if (IsArrayType(t)) {
    out += ",\"multiplicity\":" + std::to_string(t.NumberOfElements()) + ",\"element\":";
    WriteType(out, t.ElementType());
  }
  out += "}";
}
bool ToType(const Json& j, const AnyTypeRegistry& reg, AnyType& t)
{
  if (j.kind != Json::Object || j.o.empty() || j.o[0].first != "type"
      || j.o[0].second.kind != Json::String) { return false; }
  auto name = j.o[0].second.s;
  if (j.o.size() == 1) {
    if (name.empty()) { t = AnyType{}; return true; }
    if (!reg.HasType(name)) { return false; }
    t = reg.GetType(name);
    return true;
  }
  if (j.o.size() == 2 && j.o[1].first == "attributes" && j.o[1].second.kind == Json::Array) {
    t = EmptyStructType(name);
    for (auto& m : j.o[1].second.a) {
      AnyType mt;
      if (m.kind != Json::Object || m.o.size() != 1 || !ToType(m.o[0].second, reg, mt)) { return false; }
      t.AddMember(m.o[0].first, mt);
    }
    return true;
  }
  if (j.o.size() == 2 && j.o[1].first == "element") {  // unbounded array
    AnyType et;
    if (!ToType(j.o[1].second, reg, et)) { return false; }
    t = AnyType(0, et, name);
    return true;
  }
  if (j.o.size() == 3 && j.o[1].first == "multiplicity" && j.o[1].second.kind == Json::Uint
      && j.o[2].first == "element") {
    AnyType et;
    if (!ToType(j.o[2].second, reg, et)) { return false; }
    if (j.o[1].second.u > 1000000u) { return false; }
    t = AnyType(j.o[1].second.u, et, name);
    return true;
  }
  return false;
}
bool ToValue(const Json& j, AnyValue& v)
{
  switch (v.GetTypeCode()) {
  case TypeCode::Empty: return j.kind == Json::Null;
  case TypeCode::Struct:
    if (j.kind != Json::Object) { return false; }  // members may be absent: default value
    for (std::size_t i = 0; i < j.o.size(); ++i) {
      for (std::size_t k = 0; k < i; ++k) { if (j.o[k].first == j.o[i].first) { return false; } }
      AnyValue* m = nullptr;
      for (auto& c : v.Children()) { if (c.first == j.o[i].first) { m = &c.second; } }
      if (m == nullptr || !ToValue(j.o[i].second, *m)) { return false; }
    }
    return true;
  case TypeCode::Array:
    if (j.kind != Json::Array) { return false; }
    if (v.Children().empty() && !v.TypeLocked()) {  // unbounded array
      const auto elem = v.GetType().ElementType();
      for (auto& e : j.a) {
        AnyValue ev(elem);
        if (!ToValue(e, ev)) { return false; }
        v.AddElement(ev);
      }
      return true;
    }
    if (j.a.size() != v.Children().size()) { return false; }
    for (std::size_t i = 0; i < j.a.size(); ++i) {
      if (!ToValue(j.a[i], v.Children()[i].second)) { return false; }
    }
    return true;
  case TypeCode::String:
    if (j.kind != Json::String) { return false; }
    v.ConvertFrom(AnyValue(j.s));
    return true;
  case TypeCode::Bool:
    if (j.kind == Json::Bool) { v.ConvertFrom(AnyValue(j.b)); return true; }
    [[fallthrough]];  // numbers convert to bool
  default:
    if (j.kind == Json::Int) { v.ConvertFrom(AnyValue(j.i)); return true; }
    if (j.kind == Json::Uint) { v.ConvertFrom(AnyValue(j.u)); return true; }
    if (j.kind == Json::Double) { v.ConvertFrom(AnyValue(j.d)); return true; }
    return false;
  }
}
bool TypedParse(const AnyType& t, const std::string& json, AnyValue& result)
{
  Json j;
  if (!Reader(json).Read(j)) { return false; }
  try {
    AnyValue v(t);
    if (!ToValue(j, v)) { return false; }
    result = v;
    return true;
  } catch (const MessageException&) { return false; }
}
bool FullParse(const std::string& json, const AnyTypeRegistry& reg, AnyValue& result)
{
  Json j;
  if (!Reader(json).Read(j) || j.kind != Json::Array || j.a.size() != 3) { return false; }
  const char* keys[] = {"encoding", "datatype", "instance"};
  for (std::size_t i = 0; i < 3; ++i) {
    if (j.a[i].kind != Json::Object || j.a[i].o.size() != 1 || j.a[i].o[0].first != keys[i]) { return false; }
  }
  if (j.a[0].o[0].second.s != "sup-dto/v1.0/JSON") { return false; }
  try {
    AnyType t;
    if (!ToType(j.a[1].o[0].second, reg, t)) { return false; }
    AnyValue v(t);
    if (!ToValue(j.a[2].o[0].second, v)) { return false; }
    result = v;
    return true;
  } catch (const MessageException&) { return false; }
}
}  // namespace

std::string AnyTypeToJSONString(const AnyType& t, bool) { std::string s; WriteType(s, t); return s; }
AnyType AnyTypeFromJSONString(const std::string& json)
{
  JSONAnyTypeParser p;
  if (!p.ParseString(json)) { throw ParseException("cannot parse type"); }
  return p.MoveAnyType();
}
std::string ValuesToJSONString(const AnyValue& v, bool) { std::string s; WriteValue(s, v); return s; }
std::string AnyValueToJSONString(const AnyValue& v, bool)
{
  std::string s = "[{\"encoding\":\"sup-dto/v1.0/JSON\"},{\"datatype\":";
  WriteType(s, v.GetType());
  s += "},{\"instance\":";
  WriteValue(s, v);
  return s + "}]";
}
void AnyValueToJSONFile(const AnyValue& v, const std::string& filename, bool pretty)
{
  std::ofstream out(filename);
  if (!out.is_open()) { throw SerializeException("cannot open file for writing: " + filename); }
  out << AnyValueToJSONString(v, pretty);
  out.flush();
  if (!out) { throw SerializeException("cannot write file: " + filename); }
}
AnyValue AnyValueFromJSONString(const std::string& json)
{
  JSONAnyValueParser p;
  if (!p.ParseString(json)) { throw ParseException("cannot parse value"); }
  return p.MoveAnyValue();
}
AnyValue AnyValueFromJSONFile(const std::string& filename)
{
  JSONAnyValueParser p;
  if (!p.ParseFile(filename)) { throw ParseException("cannot parse value"); }
  return p.MoveAnyValue();
}
std::string PrintAnyValue(const AnyValue& v) { return v.GetTypeName() + ": " + ValuesToJSONString(v) + "\n"; }

JSONAnyTypeParser::JSONAnyTypeParser() = default;
JSONAnyTypeParser::~JSONAnyTypeParser() = default;
bool JSONAnyTypeParser::ParseString(const std::string& json, const AnyTypeRegistry* registry)
{
  static const AnyTypeRegistry default_registry;
  Json j;
  if (!Reader(json).Read(j)) { return false; }
  try {
    AnyType t;
    if (!ToType(j, registry ? *registry : default_registry, t)) { return false; }
    m_type = t;
    return true;
  } catch (const MessageException&) { return false; }
}
bool JSONAnyTypeParser::ParseFile(const std::string& filename, const AnyTypeRegistry* registry)
{
  std::string s;
  return ReadFile(filename, s) && ParseString(s, registry);
}
AnyType JSONAnyTypeParser::MoveAnyType() { auto r = std::move(m_type); m_type = AnyType{}; return r; }

JSONAnyValueParser::JSONAnyValueParser() = default;
JSONAnyValueParser::~JSONAnyValueParser() = default;
bool JSONAnyValueParser::ParseString(const std::string& json, const AnyTypeRegistry* registry)
{
  static const AnyTypeRegistry default_registry;
  return FullParse(json, registry ? *registry : default_registry, m_value);
}
bool JSONAnyValueParser::ParseFile(const std::string& filename, const AnyTypeRegistry* registry)
{
  std::string s;
  return ReadFile(filename, s) && ParseString(s, registry);
}
bool JSONAnyValueParser::TypedParseString(const AnyType& t, const std::string& json)
{
  return TypedParse(t, json, m_value);
}
AnyValue JSONAnyValueParser::MoveAnyValue() { AnyValue r(std::move(m_value)); m_value = AnyValue{}; return r; }
}}
