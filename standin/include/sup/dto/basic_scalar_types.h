// Stand-in for sup-dto (not installed here): only what oac-tree uses. See /verif/DESIGN.md.
#ifndef STANDIN_SUP_DTO_BASIC_SCALAR_TYPES_H_
#define STANDIN_SUP_DTO_BASIC_SCALAR_TYPES_H_
#include <cstdint>
#include <string>
namespace sup { namespace dto {
using boolean = bool;
using char8 = char;
using int8 = std::int8_t;
using uint8 = std::uint8_t;
using int16 = std::int16_t;
using uint16 = std::uint16_t;
using int32 = std::int32_t;
using uint32 = std::uint32_t;
using int64 = std::int64_t;
using uint64 = std::uint64_t;
using float32 = float;
using float64 = double;
enum class TypeCode : uint32 {
  Empty = 0, Bool, Char8, Int8, UInt8, Int16, UInt16, Int32, UInt32, Int64, UInt64,
  Float32, Float64, String, Struct, Array
};
const std::string kEmptyTypeName = "empty";
const std::string kBooleanTypeName = "bool";
const std::string kCharacter8TypeName = "char8";
const std::string kInt8TypeName = "int8";
const std::string kUInt8TypeName = "uint8";
const std::string kInt16TypeName = "int16";
const std::string kUInt16TypeName = "uint16";
const std::string kInt32TypeName = "int32";
const std::string kUInt32TypeName = "uint32";
const std::string kInt64TypeName = "int64";
const std::string kUInt64TypeName = "uint64";
const std::string kFloat32TypeName = "float32";
const std::string kFloat64TypeName = "float64";
const std::string kStringTypeName = "string";
}}
#endif
