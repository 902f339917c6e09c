// Instantiations of the members of the XML stream elements.
#include <string>

#include "xml_stream.h"

namespace scram::xml {
template StreamElement& StreamElement::SetAttribute<int>(const char*, int&&);
template StreamElement& StreamElement::SetAttribute<double>(const char*, double&&);
template StreamElement& StreamElement::SetAttribute<bool>(const char*, bool&&);
template StreamElement& StreamElement::SetAttribute<std::size_t>(const char*, std::size_t&&);
template StreamElement& StreamElement::SetAttribute<const char*>(const char*, const char*&&);
template StreamElement& StreamElement::SetAttribute<const std::string&>(const char*, const std::string&);
template StreamElement& StreamElement::AddText<int>(int&&);
template StreamElement& StreamElement::AddText<double>(double&&);
template StreamElement& StreamElement::AddText<std::size_t>(std::size_t&&);
template StreamElement& StreamElement::AddText<bool>(bool&&);
template StreamElement& StreamElement::AddText<const char*>(const char*&&);
template StreamElement& StreamElement::AddText<const std::string&>(const std::string&);
}  // namespace scram::xml
