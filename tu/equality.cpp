// Uses of the comparison operators: the member operator!= are inline.
#include "uri/uri.hpp"
namespace verif {
bool ne (uri::parts const& a, uri::parts const& b) { return a != b; }
bool ne (struct uri::parts::path const& a, struct uri::parts::path const& b) { return a != b; }
bool ne (struct uri::parts::authority const& a, struct uri::parts::authority const& b) { return a != b; }
}
