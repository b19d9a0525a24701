#ifndef STANDIN_SUP_XML_EXCEPTIONS_H_
#define STANDIN_SUP_XML_EXCEPTIONS_H_
#include <exception>
#include <string>
namespace sup { namespace xml {
class MessageException : public std::exception {
public:
  explicit MessageException(std::string message) : m_message{std::move(message)} {}
  const char* what() const noexcept override { return m_message.c_str(); }
private:
  std::string m_message;
};
class ParseException : public MessageException { public: using MessageException::MessageException; };
class SerializeException : public MessageException { public: using MessageException::MessageException; };
class InvalidOperationException : public MessageException { public: using MessageException::MessageException; };
}}
#endif
