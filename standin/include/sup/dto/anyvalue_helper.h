#ifndef STANDIN_SUP_DTO_ANYVALUE_HELPER_H_
#define STANDIN_SUP_DTO_ANYVALUE_HELPER_H_
#include <sup/dto/anyvalue.h>
namespace sup { namespace dto {
std::string PrintAnyValue(const AnyValue& v);
std::string AnyValueToJSONString(const AnyValue& v, bool pretty = false);
std::string ValuesToJSONString(const AnyValue& v, bool pretty = false);
void AnyValueToJSONFile(const AnyValue& v, const std::string& filename, bool pretty = false);
AnyValue AnyValueFromJSONString(const std::string& json);
AnyValue AnyValueFromJSONFile(const std::string& filename);
bool TryConvert(AnyValue& dest, const AnyValue& src);
bool TryAssign(AnyValue& dest, const AnyValue& src);
bool TryAssignIfEmptyOrConvert(AnyValue& dest, const AnyValue& src);
}}
#endif
