#ifndef STANDIN_SUP_XML_TREE_DATA_H_
#define STANDIN_SUP_XML_TREE_DATA_H_
#include <string>
#include <utility>
#include <vector>
namespace sup { namespace xml {
class TreeData {
public:
  using Attribute = std::pair<std::string, std::string>;
  explicit TreeData(const std::string& node_name);
  TreeData(const std::string& node_name, const std::vector<Attribute>& attributes,
           const std::string& content);
  std::string GetNodeName() const;
  bool HasAttribute(const std::string& name) const;
  std::string GetAttribute(const std::string& name) const;
  const std::vector<Attribute>& Attributes() const;
  std::size_t GetNumberOfAttributes() const;
  void AddAttribute(const std::string& name, const std::string& value);
  void AddChild(const TreeData& child);
  const std::vector<TreeData>& Children() const;
  std::size_t GetNumberOfChildren() const;
  void SetContent(const std::string& content);
  std::string GetContent() const;
  bool operator==(const TreeData& o) const;
  bool operator!=(const TreeData& o) const { return !(*this == o); }
private:
  std::string m_node_name;
  std::vector<Attribute> m_attributes;
  std::string m_content;
  std::vector<TreeData> m_children;
};
}}
#endif
