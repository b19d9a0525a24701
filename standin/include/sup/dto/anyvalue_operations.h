#ifndef STANDIN_SUP_DTO_ANYVALUE_OPERATIONS_H_
#define STANDIN_SUP_DTO_ANYVALUE_OPERATIONS_H_
#include <sup/dto/anyvalue.h>
#include <sup/dto/anyvalue_helper.h>
namespace sup { namespace dto {
enum class CompareResult { Equivalent, Less, Greater, Unordered };
bool Increment(AnyValue& v);
bool Decrement(AnyValue& v);
CompareResult Compare(const AnyValue& l, const AnyValue& r);
}}
#endif
