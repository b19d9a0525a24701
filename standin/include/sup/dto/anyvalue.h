#ifndef STANDIN_SUP_DTO_ANYVALUE_H_
#define STANDIN_SUP_DTO_ANYVALUE_H_
#include "stable_vector.h"
#include <sup/dto/anytype.h>
#include <ostream>
namespace sup { namespace dto {
class AnyValue {
public:
  AnyValue();
  AnyValue(boolean v);
  AnyValue(char8 v);
  AnyValue(int8 v);
  AnyValue(uint8 v);
  AnyValue(int16 v);
  AnyValue(uint16 v);
  AnyValue(int32 v);
  AnyValue(uint32 v);
  AnyValue(int64 v);
  AnyValue(uint64 v);
  AnyValue(float32 v);
  AnyValue(float64 v);
  AnyValue(const std::string& v);
  AnyValue(const char* v);
  explicit AnyValue(const AnyType& type);
  AnyValue(const AnyType& type, const AnyValue& value);
  AnyValue(std::initializer_list<std::pair<std::string, AnyValue>> members,
           const std::string& name = {});
  AnyValue(std::size_t size, const AnyType& elem_type, const std::string& name = {});
  AnyValue(const AnyValue&);
  AnyValue(AnyValue&&);
  AnyValue& operator=(const AnyValue&);
  AnyValue& operator=(AnyValue&&);
  ~AnyValue();

  void ConvertFrom(const AnyValue& other);
  TypeCode GetTypeCode() const { return m_code; }
  AnyType GetType() const;
  std::string GetTypeName() const;
  AnyValue& AddMember(const std::string& name, const AnyValue& value);
  std::vector<std::string> MemberNames() const;
  std::size_t NumberOfMembers() const;
  AnyValue& AddElement(const AnyValue& value);
  std::size_t NumberOfElements() const;
  bool HasField(const std::string& fieldname) const;
  AnyValue& operator[](const std::string& fieldname);
  const AnyValue& operator[](const std::string& fieldname) const;
  AnyValue& operator[](std::size_t idx);
  const AnyValue& operator[](std::size_t idx) const;
  AnyValue& operator[](const char* f) { return (*this)[std::string(f)]; }
  const AnyValue& operator[](const char* f) const { return (*this)[std::string(f)]; }
  AnyValue& operator[](int idx) { return (*this)[static_cast<std::size_t>(idx)]; }
  const AnyValue& operator[](int idx) const { return (*this)[static_cast<std::size_t>(idx)]; }
  template <typename T> T As() const;
  template <typename T> bool As(T& v) const {
    try { v = As<T>(); return true; } catch (const MessageException&) { return false; }
  }
  bool operator==(const AnyValue& other) const;
  bool operator!=(const AnyValue& other) const { return !(*this == other); }

  // stand-in internals (also used by the JSON code)
  const StableVector<std::pair<std::string, AnyValue>>& Children() const { return m_children; }
  StableVector<std::pair<std::string, AnyValue>>& Children() { return m_children; }
  bool TypeLocked() const { return m_locked; }
private:
  friend AnyValue EmptyStruct(const std::string&);
  friend AnyValue ArrayValue(std::initializer_list<AnyValue> elements, const std::string& name);
  const AnyValue* FindField(const std::string& fieldname) const;
  void Lock();
  void AssignFrom(const AnyValue& other);

  TypeCode m_code;
  bool m_locked;
  std::string m_name;
  std::int64_t m_i;
  std::uint64_t m_u;
  double m_d;
  std::string m_s;
  StableVector<std::pair<std::string, AnyValue>> m_children;
  std::unique_ptr<AnyType> m_element;
};
template <> boolean AnyValue::As<boolean>() const;
template <> char8 AnyValue::As<char8>() const;
template <> int8 AnyValue::As<int8>() const;
template <> uint8 AnyValue::As<uint8>() const;
template <> int16 AnyValue::As<int16>() const;
template <> uint16 AnyValue::As<uint16>() const;
template <> int32 AnyValue::As<int32>() const;
template <> uint32 AnyValue::As<uint32>() const;
template <> int64 AnyValue::As<int64>() const;
template <> uint64 AnyValue::As<uint64>() const;
template <> float32 AnyValue::As<float32>() const;
template <> float64 AnyValue::As<float64>() const;
template <> std::string AnyValue::As<std::string>() const;
template <> AnyValue AnyValue::As<AnyValue>() const;

AnyValue EmptyStruct(const std::string& name = {});
AnyValue ArrayValue(std::initializer_list<AnyValue> elements, const std::string& name = {});
bool IsEmptyValue(const AnyValue& v);
bool IsStructValue(const AnyValue& v);
bool IsArrayValue(const AnyValue& v);
bool IsScalarValue(const AnyValue& v);
std::ostream& operator<<(std::ostream& os, const AnyValue& v);
}}
#endif
