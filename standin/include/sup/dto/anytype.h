#ifndef STANDIN_SUP_DTO_ANYTYPE_H_
#define STANDIN_SUP_DTO_ANYTYPE_H_
#include <sup/dto/anyvalue_exceptions.h>
#include <sup/dto/basic_scalar_types.h>
#include <initializer_list>
#include <memory>
#include <string>
#include <utility>
#include <vector>
namespace sup { namespace dto {
class AnyType {
public:
  AnyType();
  AnyType(TypeCode type_code);
  AnyType(std::initializer_list<std::pair<std::string, AnyType>> members,
          const std::string& name = {});
  AnyType(std::size_t size, const AnyType& elem_type, const std::string& name = {});
  AnyType(const AnyType&);
  AnyType(AnyType&&) noexcept;
  AnyType& operator=(const AnyType&);
  AnyType& operator=(AnyType&&) noexcept;
  ~AnyType();
  TypeCode GetTypeCode() const { return m_code; }
  std::string GetTypeName() const;
  AnyType& AddMember(const std::string& name, const AnyType& type);
  std::vector<std::string> MemberNames() const;
  std::size_t NumberOfMembers() const;
  AnyType ElementType() const;
  std::size_t NumberOfElements() const;
  bool HasField(const std::string& fieldname) const;
  const AnyType& operator[](const std::string& fieldname) const;
  AnyType& operator[](const std::string& fieldname);
  bool operator==(const AnyType& other) const;
  bool operator!=(const AnyType& other) const { return !(*this == other); }
  const std::vector<std::pair<std::string, AnyType>>& Members() const { return m_members; }
  static AnyType MakeStruct(const std::string& name);
private:
  TypeCode m_code;
  std::string m_name;
  std::vector<std::pair<std::string, AnyType>> m_members;
  std::unique_ptr<AnyType> m_element;
  std::size_t m_size;
};
inline const AnyType EmptyType{TypeCode::Empty};
inline const AnyType BooleanType{TypeCode::Bool};
inline const AnyType Character8Type{TypeCode::Char8};
inline const AnyType SignedInteger8Type{TypeCode::Int8};
inline const AnyType UnsignedInteger8Type{TypeCode::UInt8};
inline const AnyType SignedInteger16Type{TypeCode::Int16};
inline const AnyType UnsignedInteger16Type{TypeCode::UInt16};
inline const AnyType SignedInteger32Type{TypeCode::Int32};
inline const AnyType UnsignedInteger32Type{TypeCode::UInt32};
inline const AnyType SignedInteger64Type{TypeCode::Int64};
inline const AnyType UnsignedInteger64Type{TypeCode::UInt64};
inline const AnyType Float32Type{TypeCode::Float32};
inline const AnyType Float64Type{TypeCode::Float64};
inline const AnyType StringType{TypeCode::String};
AnyType EmptyStructType(const std::string& name = {});
bool IsEmptyType(const AnyType& t);
bool IsStructType(const AnyType& t);
bool IsArrayType(const AnyType& t);
bool IsScalarType(const AnyType& t);
}}
#endif
