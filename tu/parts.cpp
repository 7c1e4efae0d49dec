// encode() and decode() of parts with std::string as the store
#include <string>
#include <variant>
#include "uri/parts.hpp"
uri::parts verif_encode(std::string& store, uri::parts const& p) { return uri::encode(store, p); }
std::variant<std::error_code, uri::parts> verif_decode(std::string& store, uri::parts const& p) { return uri::decode(store, p); }
