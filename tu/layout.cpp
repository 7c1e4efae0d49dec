// Offsets of the library's types, read back from the emitted constants. Nothing here is code under test.
#include <cstddef>
#include "uri/uri.hpp"
namespace verif {
using uri::parts;
using A = struct parts::authority;
using P = struct parts::path;
#define OFF(n, T, f) extern unsigned long const off_##n; unsigned long const off_##n = offsetof (T, f);
OFF (scheme, parts, scheme)
OFF (authority, parts, authority)
OFF (path, parts, path)
OFF (query, parts, query)
OFF (fragment, parts, fragment)
OFF (userinfo, A, userinfo)
OFF (host, A, host)
OFF (port, A, port)
OFF (absolute, P, absolute)
OFF (segments, P, segments)
extern unsigned long const size_parts, size_authority, size_path;
unsigned long const size_parts = sizeof (parts);
unsigned long const size_authority = sizeof (A);
unsigned long const size_path = sizeof (P);
}
