#ifndef STANDIN_SUP_XML_TREE_DATA_SERIALIZE_H_
#define STANDIN_SUP_XML_TREE_DATA_SERIALIZE_H_
#include <sup/xml/tree_data.h>
namespace sup { namespace xml {
std::string TreeDataToString(const TreeData& data);
void TreeDataToFile(const std::string& filename, const TreeData& data);
}}
#endif
