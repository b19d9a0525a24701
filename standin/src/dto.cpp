// Stand-in implementation of the part of sup-dto that oac-tree uses.
#include <sup/dto/anytype_helper.h>
#include <sup/dto/anytype_registry.h>
#include <sup/dto/anyvalue_helper.h>
#include <sup/dto/anyvalue_operations.h>

#include <cmath>
#include <limits>
#include <type_traits>

namespace sup { namespace dto {
namespace {
const std::string& ScalarName(TypeCode c)
{
  static const std::string names[] = {
    kEmptyTypeName, kBooleanTypeName, kCharacter8TypeName, kInt8TypeName, kUInt8TypeName,
    kInt16TypeName, kUInt16TypeName, kInt32TypeName, kUInt32TypeName, kInt64TypeName,
    kUInt64TypeName, kFloat32TypeName, kFloat64TypeName, kStringTypeName };
  return names[static_cast<int>(c)];
}
bool IsSigned(TypeCode c)
{
  switch (c) {
  case TypeCode::Char8: case TypeCode::Int8: case TypeCode::Int16: case TypeCode::Int32:
  case TypeCode::Int64: return true;
  default: return false;
  }
}
bool IsUnsigned(TypeCode c)
{
  switch (c) {
  case TypeCode::Bool: case TypeCode::UInt8: case TypeCode::UInt16: case TypeCode::UInt32:
  case TypeCode::UInt64: return true;
  default: return false;
  }
}
bool IsFloat(TypeCode c) { return c == TypeCode::Float32 || c == TypeCode::Float64; }
bool IsNumeric(TypeCode c) { return IsSigned(c) || IsUnsigned(c) || IsFloat(c); }

// "a.b[3].c" -> first component and remainder
std::pair<std::string, std::string> StripField(const std::string& f)
{
  if (f.empty()) { return {"", ""}; }
  std::size_t end;
  if (f[0] == '[') {
    end = f.find(']');
    if (end == std::string::npos) { return {f, ""}; }
    ++end;
  } else {
    end = f.find_first_of(".[");
  }
  if (end == std::string::npos || end >= f.size()) { return {f, ""}; }
  auto first = f.substr(0, end);
  auto rest = f.substr(f[end] == '.' ? end + 1 : end);
  if (rest.empty()) { return {f, ""}; }  // trailing dot: not a valid name
  return {first, rest};
}
// returns true and the index for "[n]"
bool ArrayIndex(const std::string& f, std::size_t& idx)
{
  if (f.size() < 3 || f.front() != '[' || f.back() != ']') { return false; }
  std::size_t r = 0;
  for (std::size_t i = 1; i + 1 < f.size(); ++i) {
    if (f[i] < '0' || f[i] > '9' || r > 100000000u) { return false; }
    r = 10 * r + static_cast<std::size_t>(f[i] - '0');
  }
  idx = r;
  return true;
}
bool ValidMemberName(const std::string& name)
{
  if (name.empty()) { return false; }
  return name.find_first_of(".[] \t\n") == std::string::npos;
}
}  // namespace

// ---------------------------------------------------------------- AnyType
AnyType::AnyType() : AnyType{TypeCode::Empty} {}
AnyType::AnyType(TypeCode c) : m_code{c}, m_name{}, m_members{}, m_element{}, m_size{0}
{
  if (c == TypeCode::Array) { throw InvalidOperationException("array type needs an element type"); }
}
AnyType::AnyType(std::initializer_list<std::pair<std::string, AnyType>> members,
                 const std::string& name)
  : AnyType{TypeCode::Struct}
{
  m_name = name;
  for (auto& m : members) { AddMember(m.first, m.second); }
}
AnyType::AnyType(std::size_t size, const AnyType& elem, const std::string& name)
  : m_code{TypeCode::Array}, m_name{name}, m_members{}, m_element{new AnyType(elem)}, m_size{size}
{
  if (IsEmptyType(elem)) { throw InvalidOperationException("array element cannot be empty"); }
}
AnyType::AnyType(const AnyType& o)
  : m_code{o.m_code}, m_name{o.m_name}, m_members{o.m_members},
    m_element{o.m_element ? new AnyType(*o.m_element) : nullptr}, m_size{o.m_size}
{}
AnyType::AnyType(AnyType&&) noexcept = default;
AnyType& AnyType::operator=(const AnyType& o)
{
  if (this != &o) { AnyType c(o); *this = std::move(c); }
  return *this;
}
AnyType& AnyType::operator=(AnyType&&) noexcept = default;
AnyType::~AnyType() = default;
AnyType AnyType::MakeStruct(const std::string& name)
{
  AnyType r{TypeCode::Struct};
  r.m_name = name;
  return r;
}
std::string AnyType::GetTypeName() const
{
  if (m_code == TypeCode::Struct || m_code == TypeCode::Array) { return m_name; }
  return ScalarName(m_code);
}
AnyType& AnyType::AddMember(const std::string& name, const AnyType& type)
{
  if (m_code != TypeCode::Struct) { throw InvalidOperationException("AddMember on non-struct"); }
  if (!ValidMemberName(name)) { throw InvalidOperationException("invalid member name"); }
  for (auto& m : m_members) {
    if (m.first == name) { throw InvalidOperationException("duplicate member"); }
  }
  m_members.emplace_back(name, type);
  return *this;
}
std::vector<std::string> AnyType::MemberNames() const
{
  std::vector<std::string> r;
  for (auto& m : m_members) { r.push_back(m.first); }
  return r;
}
std::size_t AnyType::NumberOfMembers() const { return m_members.size(); }
AnyType AnyType::ElementType() const
{
  if (m_code != TypeCode::Array) { throw InvalidOperationException("ElementType of non-array"); }
  return *m_element;
}
std::size_t AnyType::NumberOfElements() const { return m_size; }
bool AnyType::HasField(const std::string& f) const
{
  try { (void)(*this)[f]; return true; } catch (const InvalidOperationException&) { return false; }
}
const AnyType& AnyType::operator[](const std::string& f) const
{
  auto p = StripField(f);
  const AnyType* t = nullptr;
  if (m_code == TypeCode::Struct) {
    for (auto& m : m_members) { if (m.first == p.first) { t = &m.second; } }
  } else if (m_code == TypeCode::Array && p.first == "[]") {
    t = m_element.get();
  }
  if (t == nullptr) { throw InvalidOperationException("unknown field: " + f); }
  return p.second.empty() ? *t : (*t)[p.second];
}
AnyType& AnyType::operator[](const std::string& f)
{
  return const_cast<AnyType&>(const_cast<const AnyType&>(*this)[f]);
}
bool AnyType::operator==(const AnyType& o) const
{
  if (m_code != o.m_code || m_name != o.m_name || m_size != o.m_size) { return false; }
  if (m_members != o.m_members) { return false; }
  if (static_cast<bool>(m_element) != static_cast<bool>(o.m_element)) { return false; }
  return !m_element || *m_element == *o.m_element;
}
AnyType EmptyStructType(const std::string& name) { return AnyType::MakeStruct(name); }
bool IsEmptyType(const AnyType& t) { return t.GetTypeCode() == TypeCode::Empty; }
bool IsStructType(const AnyType& t) { return t.GetTypeCode() == TypeCode::Struct; }
bool IsArrayType(const AnyType& t) { return t.GetTypeCode() == TypeCode::Array; }
bool IsScalarType(const AnyType& t)
{
  return !IsEmptyType(t) && !IsStructType(t) && !IsArrayType(t);
}

// ---------------------------------------------------------------- AnyTypeRegistry
AnyTypeRegistry::AnyTypeRegistry()
{
  for (int c = static_cast<int>(TypeCode::Bool); c <= static_cast<int>(TypeCode::String); ++c) {
    AnyType t{static_cast<TypeCode>(c)};
    m_types[t.GetTypeName()] = t;
  }
}
AnyTypeRegistry::~AnyTypeRegistry() = default;
void AnyTypeRegistry::RegisterType(AnyType t) { auto n = t.GetTypeName(); RegisterType(n, t); }
void AnyTypeRegistry::RegisterType(const std::string& name, AnyType t)
{
  if (name.empty()) { throw InvalidOperationException("cannot register type without name"); }
  auto it = m_types.find(name);
  if (it != m_types.end()) {
    if (it->second != t) { throw InvalidOperationException("type name already in use"); }
    return;
  }
  m_types[name] = t;
}
bool AnyTypeRegistry::HasType(const std::string& name) const { return m_types.count(name) > 0; }
AnyType AnyTypeRegistry::GetType(const std::string& name) const
{
  auto it = m_types.find(name);
  if (it == m_types.end()) { throw InvalidOperationException("unknown type: " + name); }
  return it->second;
}

// ---------------------------------------------------------------- AnyValue
AnyValue::AnyValue()
  : m_code{TypeCode::Empty}, m_locked{false}, m_name{}, m_i{0}, m_u{0}, m_d{0}, m_s{},
    m_children{}, m_element{}
{}
#define STANDIN_CTOR(T, CODE, FIELD) \
  AnyValue::AnyValue(T v) : AnyValue{} { m_code = TypeCode::CODE; FIELD = v; }
STANDIN_CTOR(boolean, Bool, m_u)
STANDIN_CTOR(char8, Char8, m_i)
STANDIN_CTOR(int8, Int8, m_i)
STANDIN_CTOR(uint8, UInt8, m_u)
STANDIN_CTOR(int16, Int16, m_i)
STANDIN_CTOR(uint16, UInt16, m_u)
STANDIN_CTOR(int32, Int32, m_i)
STANDIN_CTOR(uint32, UInt32, m_u)
STANDIN_CTOR(int64, Int64, m_i)
STANDIN_CTOR(uint64, UInt64, m_u)
STANDIN_CTOR(float32, Float32, m_d)
STANDIN_CTOR(float64, Float64, m_d)
STANDIN_CTOR(const std::string&, String, m_s)
#undef STANDIN_CTOR
AnyValue::AnyValue(const char* v) : AnyValue{} { m_code = TypeCode::String; m_s = v; }
AnyValue::AnyValue(const AnyType& t) : AnyValue{}
{
  m_code = t.GetTypeCode();
  if (m_code == TypeCode::Struct) {
    m_name = t.GetTypeName();
    for (auto& m : t.Members()) { m_children.emplace_back(m.first, AnyValue(m.second)); }
  } else if (m_code == TypeCode::Array) {
    m_name = t.GetTypeName();
    m_element.reset(new AnyType(t.ElementType()));
    for (std::size_t i = 0; i < t.NumberOfElements(); ++i) {
      m_children.emplace_back("", AnyValue(*m_element));
    }
    for (auto& c : m_children) { c.second.Lock(); }
  }
}
AnyValue::AnyValue(const AnyType& t, const AnyValue& v) : AnyValue{t} { ConvertFrom(v); }
AnyValue::AnyValue(std::initializer_list<std::pair<std::string, AnyValue>> members,
                   const std::string& name)
  : AnyValue{EmptyStructType(name)}
{
  for (auto& m : members) { AddMember(m.first, m.second); }
}
AnyValue::AnyValue(std::size_t size, const AnyType& elem, const std::string& name)
  : AnyValue{AnyType(size, elem, name)}
{}
AnyValue::AnyValue(const AnyValue& o)
  : m_code{o.m_code}, m_locked{false}, m_name{o.m_name}, m_i{o.m_i}, m_u{o.m_u}, m_d{o.m_d},
    m_s{o.m_s}, m_children{o.m_children}, m_element{o.m_element ? new AnyType(*o.m_element) : nullptr}
{
  if (m_code == TypeCode::Array) { for (auto& c : m_children) { c.second.Lock(); } }
}
AnyValue::AnyValue(AnyValue&& o) : AnyValue{}
{
  if (o.m_locked) { AssignFrom(o); return; }
  m_code = o.m_code;
  m_name = std::move(o.m_name);
  m_i = o.m_i; m_u = o.m_u; m_d = o.m_d;
  m_s = std::move(o.m_s);
  m_children = std::move(o.m_children);
  m_element = std::move(o.m_element);
  o.m_code = TypeCode::Empty;
  o.m_name.clear();
  o.m_s.clear();
  o.m_children.clear();
}
AnyValue::~AnyValue() = default;
void AnyValue::AssignFrom(const AnyValue& o)
{
  AnyValue c(o);  // o may be a descendant of this value
  m_code = c.m_code;
  m_name = std::move(c.m_name);
  m_i = c.m_i; m_u = c.m_u; m_d = c.m_d;
  m_s = std::move(c.m_s);
  auto children = std::move(c.m_children);
  m_children = std::move(children);
  m_element = std::move(c.m_element);
  if (m_code == TypeCode::Array) { for (auto& ch : m_children) { ch.second.Lock(); } }
}
AnyValue& AnyValue::operator=(const AnyValue& o)
{
  if (this == &o) { return *this; }
  if (m_locked && GetType() != o.GetType()) { ConvertFrom(o); return *this; }
  const bool locked = m_locked;
  AssignFrom(o);
  if (locked) { Lock(); }
  return *this;
}
AnyValue& AnyValue::operator=(AnyValue&& o) { return *this = static_cast<const AnyValue&>(o); }
void AnyValue::Lock()
{
  m_locked = true;
  for (auto& c : m_children) { c.second.Lock(); }
}
AnyType AnyValue::GetType() const
{
  if (m_code == TypeCode::Struct) {
    auto t = AnyType::MakeStruct(m_name);
    for (auto& c : m_children) { t.AddMember(c.first, c.second.GetType()); }
    return t;
  }
  if (m_code == TypeCode::Array) { return AnyType(m_children.size(), *m_element, m_name); }
  return AnyType(m_code);
}
std::string AnyValue::GetTypeName() const
{
  if (m_code == TypeCode::Struct || m_code == TypeCode::Array) { return m_name; }
  return ScalarName(m_code);
}
void AnyValue::ConvertFrom(const AnyValue& o)
{
  if (this == &o) { return; }
  if (m_code == TypeCode::Empty) {
    if (o.m_code == TypeCode::Empty) { return; }
    throw InvalidConversionException("cannot convert to empty");
  }
  if (IsNumeric(m_code)) {
    switch (m_code) {
    case TypeCode::Bool: m_u = o.As<boolean>(); break;
    case TypeCode::Char8: m_i = o.As<char8>(); break;
    case TypeCode::Int8: m_i = o.As<int8>(); break;
    case TypeCode::UInt8: m_u = o.As<uint8>(); break;
    case TypeCode::Int16: m_i = o.As<int16>(); break;
    case TypeCode::UInt16: m_u = o.As<uint16>(); break;
    case TypeCode::Int32: m_i = o.As<int32>(); break;
    case TypeCode::UInt32: m_u = o.As<uint32>(); break;
    case TypeCode::Int64: m_i = o.As<int64>(); break;
    case TypeCode::UInt64: m_u = o.As<uint64>(); break;
    case TypeCode::Float32: m_d = o.As<float32>(); break;
    default: m_d = o.As<float64>(); break;
    }
    return;
  }
  if (m_code == TypeCode::String) { m_s = o.As<std::string>(); return; }
  if (m_code != o.m_code || m_children.size() != o.m_children.size()) {
    throw InvalidConversionException("incompatible structure");
  }
  AnyValue result(GetType());
  for (std::size_t i = 0; i < m_children.size(); ++i) {
    if (m_children[i].first != o.m_children[i].first) {
      throw InvalidConversionException("member names differ");
    }
    result.m_children[i].second.ConvertFrom(o.m_children[i].second);
  }
  for (std::size_t i = 0; i < m_children.size(); ++i) {
    m_children[i].second = result.m_children[i].second;
  }
}
AnyValue& AnyValue::AddMember(const std::string& name, const AnyValue& v)
{
  if (m_code != TypeCode::Struct || m_locked) {
    throw InvalidOperationException("AddMember not supported");
  }
  if (!ValidMemberName(name)) { throw InvalidOperationException("invalid member name"); }
  for (auto& c : m_children) {
    if (c.first == name) { throw InvalidOperationException("duplicate member"); }
  }
  m_children.emplace_back(name, v);
  return *this;
}
std::vector<std::string> AnyValue::MemberNames() const
{
  std::vector<std::string> r;
  if (m_code == TypeCode::Struct) { for (auto& c : m_children) { r.push_back(c.first); } }
  return r;
}
std::size_t AnyValue::NumberOfMembers() const
{
  return m_code == TypeCode::Struct ? m_children.size() : 0;
}
AnyValue& AnyValue::AddElement(const AnyValue& v)
{
  if (m_code != TypeCode::Array || m_locked) {
    throw InvalidOperationException("AddElement not supported");
  }
  AnyValue e(*m_element);
  try {
    if (v.GetType() == *m_element) { e = v; } else { e.ConvertFrom(v); }
  } catch (const InvalidConversionException& ex) {
    throw InvalidOperationException(ex.what());
  }
  m_children.emplace_back("", e);
  for (auto& c : m_children) { c.second.Lock(); }
  return *this;
}
std::size_t AnyValue::NumberOfElements() const
{
  return m_code == TypeCode::Array ? m_children.size() : 0;
}
const AnyValue* AnyValue::FindField(const std::string& f) const
{
  auto p = StripField(f);
  const AnyValue* v = nullptr;
  if (m_code == TypeCode::Struct) {
    for (auto& c : m_children) { if (c.first == p.first) { v = &c.second; } }
  } else if (m_code == TypeCode::Array) {
    std::size_t idx = 0;
    if (ArrayIndex(p.first, idx) && idx < m_children.size()) { v = &m_children[idx].second; }
  }
  if (v == nullptr || p.second.empty()) { return v; }
  return v->FindField(p.second);
}
bool AnyValue::HasField(const std::string& f) const { return FindField(f) != nullptr; }
const AnyValue& AnyValue::operator[](const std::string& f) const
{
  auto v = FindField(f);
  if (v == nullptr) { throw InvalidOperationException("unknown field: " + f); }
  return *v;
}
AnyValue& AnyValue::operator[](const std::string& f)
{
  return const_cast<AnyValue&>(const_cast<const AnyValue&>(*this)[f]);
}
const AnyValue& AnyValue::operator[](std::size_t i) const
{
  return (*this)["[" + std::to_string(i) + "]"];
}
AnyValue& AnyValue::operator[](std::size_t i) { return (*this)["[" + std::to_string(i) + "]"]; }

namespace {
template <typename T>
T FromSigned(std::int64_t v)
{
  if constexpr (std::is_same_v<T, bool>) { return v != 0; }
  else if constexpr (std::is_floating_point_v<T>) { return static_cast<T>(v); }
  else if constexpr (std::is_signed_v<T>) {
    if (v < std::numeric_limits<T>::min() || v > std::numeric_limits<T>::max()) {
      throw InvalidConversionException("out of range");
    }
    return static_cast<T>(v);
  } else {
    if (v < 0 || static_cast<std::uint64_t>(v) > std::numeric_limits<T>::max()) {
      throw InvalidConversionException("out of range");
    }
    return static_cast<T>(v);
  }
}
template <typename T>
T FromUnsigned(std::uint64_t v)
{
  if constexpr (std::is_same_v<T, bool>) { return v != 0; }
  else if constexpr (std::is_floating_point_v<T>) { return static_cast<T>(v); }
  else {
    if (v > static_cast<std::uint64_t>(std::numeric_limits<T>::max())) {
      throw InvalidConversionException("out of range");
    }
    return static_cast<T>(v);
  }
}
template <typename T>
T FromDouble(double v)
{
  if constexpr (std::is_same_v<T, bool>) { return v != 0.0; }
  else if constexpr (std::is_same_v<T, double>) { return v; }
  else if constexpr (std::is_same_v<T, float>) {
    if (std::isfinite(v) && std::fabs(v) > static_cast<double>(std::numeric_limits<float>::max())) {
      throw InvalidConversionException("out of range");
    }
    return static_cast<float>(v);
  } else {
    const double lo = static_cast<double>(std::numeric_limits<T>::min());
    const double hi = std::ldexp(1.0, std::numeric_limits<T>::digits);
    if (!(v >= lo && v < hi)) { throw InvalidConversionException("out of range"); }
    return static_cast<T>(v);
  }
}
}  // namespace
#define STANDIN_AS(T) \
  template <> T AnyValue::As<T>() const { \
    if (IsSigned(m_code)) { return FromSigned<T>(m_i); } \
    if (IsUnsigned(m_code)) { return FromUnsigned<T>(m_u); } \
    if (IsFloat(m_code)) { return FromDouble<T>(m_d); } \
    throw InvalidConversionException("not a number"); \
  }
STANDIN_AS(boolean)
STANDIN_AS(char8)
STANDIN_AS(int8)
STANDIN_AS(uint8)
STANDIN_AS(int16)
STANDIN_AS(uint16)
STANDIN_AS(int32)
STANDIN_AS(uint32)
STANDIN_AS(int64)
STANDIN_AS(uint64)
STANDIN_AS(float32)
STANDIN_AS(float64)
#undef STANDIN_AS
template <> std::string AnyValue::As<std::string>() const
{
  if (m_code != TypeCode::String) { throw InvalidConversionException("not a string"); }
  return m_s;
}
template <> AnyValue AnyValue::As<AnyValue>() const { return *this; }

namespace {
CompareResult CompareNumbers(const AnyValue& l, const AnyValue& r)
{
  auto lc = l.GetTypeCode();
  auto rc = r.GetTypeCode();
  auto order = [](auto a, auto b) {
    return a < b ? CompareResult::Less : (b < a ? CompareResult::Greater
                 : (a == b ? CompareResult::Equivalent : CompareResult::Unordered));
  };
  if (IsFloat(lc) || IsFloat(rc)) { return order(l.As<float64>(), r.As<float64>()); }
  if (IsSigned(lc) && l.As<int64>() < 0) {
    if (IsSigned(rc) && r.As<int64>() < 0) { return order(l.As<int64>(), r.As<int64>()); }
    return CompareResult::Less;
  }
  if (IsSigned(rc) && r.As<int64>() < 0) { return CompareResult::Greater; }
  return order(l.As<uint64>(), r.As<uint64>());
}
}  // namespace
bool AnyValue::operator==(const AnyValue& o) const
{
  if (IsNumeric(m_code) && IsNumeric(o.m_code)) {
    if ((m_code == TypeCode::Bool) != (o.m_code == TypeCode::Bool)) { return false; }
    return CompareNumbers(*this, o) == CompareResult::Equivalent;
  }
  if (m_code != o.m_code) { return false; }
  if (m_code == TypeCode::String) { return m_s == o.m_s; }
  if (m_children.size() != o.m_children.size()) { return false; }
  for (std::size_t i = 0; i < m_children.size(); ++i) {
    if (m_children[i].first != o.m_children[i].first
        || m_children[i].second != o.m_children[i].second) { return false; }
  }
  return true;
}
AnyValue EmptyStruct(const std::string& name) { return AnyValue(EmptyStructType(name)); }
AnyValue ArrayValue(std::initializer_list<AnyValue> elements, const std::string& name)
{
  if (elements.size() == 0) { throw InvalidOperationException("ArrayValue needs elements"); }
  AnyValue r(0, elements.begin()->GetType(), name);
  for (auto& e : elements) { r.AddElement(e); }
  return r;
}
bool IsEmptyValue(const AnyValue& v) { return v.GetTypeCode() == TypeCode::Empty; }
bool IsStructValue(const AnyValue& v) { return v.GetTypeCode() == TypeCode::Struct; }
bool IsArrayValue(const AnyValue& v) { return v.GetTypeCode() == TypeCode::Array; }
bool IsScalarValue(const AnyValue& v)
{
  return !IsEmptyValue(v) && !IsStructValue(v) && !IsArrayValue(v);
}
std::ostream& operator<<(std::ostream& os, const AnyValue& v) { return os << PrintAnyValue(v); }

// ---------------------------------------------------------------- helpers and operations
bool TryConvert(AnyValue& dest, const AnyValue& src)
{
  try { dest.ConvertFrom(src); return true; } catch (const MessageException&) { return false; }
}
bool TryAssign(AnyValue& dest, const AnyValue& src)
{
  try { dest = src; return true; } catch (const MessageException&) { return false; }
}
bool TryAssignIfEmptyOrConvert(AnyValue& dest, const AnyValue& src)
{
  return IsEmptyValue(dest) ? TryAssign(dest, src) : TryConvert(dest, src);
}
CompareResult Compare(const AnyValue& l, const AnyValue& r)
{
  if (IsNumeric(l.GetTypeCode()) && IsNumeric(r.GetTypeCode())) { return CompareNumbers(l, r); }
  if (l.GetTypeCode() == TypeCode::String && r.GetTypeCode() == TypeCode::String) {
    auto c = l.As<std::string>().compare(r.As<std::string>());
    return c < 0 ? CompareResult::Less : (c > 0 ? CompareResult::Greater : CompareResult::Equivalent);
  }
  return l == r ? CompareResult::Equivalent : CompareResult::Unordered;
}
namespace {
template <typename T> void Step(AnyValue& v, bool up)
{
  auto x = v.As<T>();
  if constexpr (std::is_floating_point_v<T>) { v = static_cast<T>(up ? x + 1 : x - 1); }
  else {
    using U = std::make_unsigned_t<T>;  // two's complement wrap
    auto u = static_cast<U>(x);
    v = static_cast<T>(static_cast<U>(up ? u + 1u : u - 1u));
  }
}
bool Apply(AnyValue& v, bool up)
{
  switch (v.GetTypeCode()) {
  case TypeCode::Char8: Step<char8>(v, up); return true;
  case TypeCode::Int8: Step<int8>(v, up); return true;
  case TypeCode::UInt8: Step<uint8>(v, up); return true;
  case TypeCode::Int16: Step<int16>(v, up); return true;
  case TypeCode::UInt16: Step<uint16>(v, up); return true;
  case TypeCode::Int32: Step<int32>(v, up); return true;
  case TypeCode::UInt32: Step<uint32>(v, up); return true;
  case TypeCode::Int64: Step<int64>(v, up); return true;
  case TypeCode::UInt64: Step<uint64>(v, up); return true;
  case TypeCode::Float32: Step<float32>(v, up); return true;
  case TypeCode::Float64: Step<float64>(v, up); return true;
  case TypeCode::Struct: case TypeCode::Array: {
    AnyValue copy(v);
    for (auto& c : copy.Children()) { if (!Apply(c.second, up)) { return false; } }
    v = copy;
    return true;
  }
  default: return false;
  }
}
}  // namespace
bool Increment(AnyValue& v) { return Apply(v, true); }
bool Decrement(AnyValue& v) { return Apply(v, false); }
}}
