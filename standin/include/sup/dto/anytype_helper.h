#ifndef STANDIN_SUP_DTO_ANYTYPE_HELPER_H_
#define STANDIN_SUP_DTO_ANYTYPE_HELPER_H_
#include <sup/dto/anytype.h>
#include <sup/dto/anytype_registry.h>
namespace sup { namespace dto {
std::string AnyTypeToJSONString(const AnyType& t, bool pretty = false);
AnyType AnyTypeFromJSONString(const std::string& json);
}}
#endif
