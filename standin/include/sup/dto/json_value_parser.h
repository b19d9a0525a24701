#ifndef STANDIN_SUP_DTO_JSON_VALUE_PARSER_H_
#define STANDIN_SUP_DTO_JSON_VALUE_PARSER_H_
#include <sup/dto/anytype_registry.h>
#include <sup/dto/anyvalue.h>
namespace sup { namespace dto {
class JSONAnyValueParser {
public:
  JSONAnyValueParser();
  ~JSONAnyValueParser();
  bool ParseString(const std::string& json, const AnyTypeRegistry* registry = nullptr);
  bool ParseFile(const std::string& filename, const AnyTypeRegistry* registry = nullptr);
  bool TypedParseString(const AnyType& type, const std::string& json);
  AnyValue MoveAnyValue();
private:
  AnyValue m_value;
};
}}
#endif
