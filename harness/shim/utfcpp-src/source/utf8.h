// Minimal stand-in for utfcpp 4 (not installable offline): only the two
// conversions SeQuant/core/utility/string.cpp uses. Independent of SeQuant.
#ifndef VERIF_SHIM_UTF8_H
#define VERIF_SHIM_UTF8_H
#include <stdexcept>
#include <string>
#include <string_view>
namespace utf8 {
struct exception : std::runtime_error {
  using std::runtime_error::runtime_error;
};
inline std::string utf16to8(std::u16string_view s) {
  std::string out;
  for (std::size_t i = 0; i < s.size(); ++i) {
    char32_t c = s[i];
    if (c >= 0xD800 && c <= 0xDBFF) {
      if (i + 1 >= s.size() || s[i + 1] < 0xDC00 || s[i + 1] > 0xDFFF)
        throw exception("Invalid UTF-16");
      c = 0x10000 + ((c - 0xD800) << 10) + (s[++i] - 0xDC00);
    } else if (c >= 0xDC00 && c <= 0xDFFF) {
      throw exception("Invalid UTF-16");
    }
    if (c < 0x80) {
      out += char(c);
    } else if (c < 0x800) {
      out += char(0xC0 | (c >> 6));
      out += char(0x80 | (c & 0x3F));
    } else if (c < 0x10000) {
      out += char(0xE0 | (c >> 12));
      out += char(0x80 | ((c >> 6) & 0x3F));
      out += char(0x80 | (c & 0x3F));
    } else {
      out += char(0xF0 | (c >> 18));
      out += char(0x80 | ((c >> 12) & 0x3F));
      out += char(0x80 | ((c >> 6) & 0x3F));
      out += char(0x80 | (c & 0x3F));
    }
  }
  return out;
}
inline std::u16string utf8to16(std::string_view s) {
  std::u16string out;
  for (std::size_t i = 0; i < s.size();) {
    unsigned char b = s[i];
    int n = b < 0x80 ? 1 : (b >> 5) == 6 ? 2 : (b >> 4) == 14 ? 3 : (b >> 3) == 30 ? 4 : 0;
    if (n == 0 || i + n > s.size()) throw exception("Invalid UTF-8");
    char32_t c = n == 1 ? b : n == 2 ? (b & 0x1F) : n == 3 ? (b & 0x0F) : (b & 0x07);
    for (int k = 1; k < n; ++k) {
      unsigned char x = s[i + k];
      if ((x >> 6) != 2) throw exception("Invalid UTF-8");
      c = (c << 6) | (x & 0x3F);
    }
    static const char32_t lo[] = {0, 0, 0x80, 0x800, 0x10000};
    if (c < lo[n] || c > 0x10FFFF || (c >= 0xD800 && c <= 0xDFFF))
      throw exception("Invalid UTF-8");
    if (c < 0x10000) {
      out += char16_t(c);
    } else {
      c -= 0x10000;
      out += char16_t(0xD800 + (c >> 10));
      out += char16_t(0xDC00 + (c & 0x3FF));
    }
    i += n;
  }
  return out;
}
}  // namespace utf8
#endif
