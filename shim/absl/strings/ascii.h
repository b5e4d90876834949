#ifndef SHIM_ABSL_STRINGS_ASCII_H_
#define SHIM_ABSL_STRINGS_ASCII_H_
#include <string>
#include "absl/strings/string_view.h"
namespace absl {
inline bool ascii_islower(unsigned char c) { return c >= 'a' && c <= 'z'; }
inline bool ascii_isupper(unsigned char c) { return c >= 'A' && c <= 'Z'; }
inline bool ascii_isalpha(unsigned char c) { return ascii_islower(c) || ascii_isupper(c); }
inline bool ascii_isdigit(unsigned char c) { return c >= '0' && c <= '9'; }
inline bool ascii_isalnum(unsigned char c) { return ascii_isalpha(c) || ascii_isdigit(c); }
inline bool ascii_isspace(unsigned char c) { return c == ' ' || (c >= 9 && c <= 13); }
inline char ascii_tolower(unsigned char c) { return ascii_isupper(c) ? c + 32 : c; }
inline char ascii_toupper(unsigned char c) { return ascii_islower(c) ? c - 32 : c; }
inline std::string AsciiStrToLower(string_view s) { std::string o(s); for (char& c : o) c = ascii_tolower(c); return o; }
inline std::string AsciiStrToUpper(string_view s) { std::string o(s); for (char& c : o) c = ascii_toupper(c); return o; }
}  // namespace absl
#endif
