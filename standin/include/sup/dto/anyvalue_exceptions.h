#ifndef STANDIN_SUP_DTO_ANYVALUE_EXCEPTIONS_H_
#define STANDIN_SUP_DTO_ANYVALUE_EXCEPTIONS_H_
#include <exception>
#include <string>
namespace sup { namespace dto {
class MessageException : public std::exception {
public:
  explicit MessageException(std::string message) : m_message{std::move(message)} {}
  const char* what() const noexcept override { return m_message.c_str(); }
private:
  std::string m_message;
};
#define STANDIN_DTO_EXC(name) \
  class name : public MessageException { public: using MessageException::MessageException; };
STANDIN_DTO_EXC(InvalidOperationException)
STANDIN_DTO_EXC(InvalidConversionException)
STANDIN_DTO_EXC(ParseException)
STANDIN_DTO_EXC(SerializeException)
#undef STANDIN_DTO_EXC
}}
#endif
