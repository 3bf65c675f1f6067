// document helpers for explorers that do not instantiate the type universe
#include "itype.hpp"
#include <persistence/utility.hpp>
std::string doc_text(const rapidjson::Document& d) { return persistence::document_to_string(d); }
bool text_doc(const std::string& s, rapidjson::Document& d) { d = persistence::string_to_document(s); return !d.HasParseError(); }
std::vector<IType*>& registry() { static std::vector<IType*> r; return r; }
