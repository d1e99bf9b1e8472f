// Escaping: strings written to line based files and escapes in Turtle and SPARQL terms.
// link: -licuuc -licuio -licui18n
#include "common.h"
#ifndef PLAIN
#include "@REPO@/src/parser/RdfEscaping.cpp"
#else
#include "parser/RdfEscaping.h"
#endif
using namespace vh;

static std::string visible(const std::string& s) {
  std::string o;
  for (unsigned char ch : s) {
    char b[8];
    if (ch < 32 || ch > 126 || ch == '[' || ch == ']') snprintf(b, 8, "[%02x]", ch);
    else snprintf(b, 8, "%c", ch);
    o += b;
  }
  return o;
}
static void lines(Case& c, const std::string& s) {
  c.log(visible(s) + "\n");
  c.key(hashStr(s));
  c.trivial = s.empty();
  std::string e = RdfEscaping::escapeNewlinesAndBackslashes(s);
  c.check(e.find('\n') == std::string::npos, "escaped form contains a line break: " + visible(e));
  // exact storage, so that reading past the end is seen
  std::vector<char> exact(e.begin(), e.end());
  std::string back = RdfEscaping::unescapeNewlinesAndBackslashes(std::string_view(exact.data(), exact.size()));
  c.check(back == s, "reading back gives " + visible(back));
}
SUITE(shortStrings, true, 21845, 349525, "all strings of up to 7 characters (thorough: 9) of backslash, line break, n and a quote") {
  static const char A[] = {'\\', '\n', 'n', '"'};
  uint64_t k = c.number, len = 0, count = 1;
  while (k >= count) k -= count, count *= 4, len++;
  std::string s;
  for (uint64_t i = 0; i < len; i++) s += A[k % 4], k /= 4;
  lines(c, s);
}
SUITE(longStrings, false, 4000, 60000, "random strings of up to 200 bytes, all byte values") {
  Rng& r = c.rng;
  std::string s;
  for (size_t n = r.below(200); n > 0; n--) s += r.chance(40) ? "\\\nnrtu\\\\"[r.below(8)] : (char)r.below(256);
  lines(c, s);
}
static void utf8(std::string& o, uint32_t p) {
  if (p < 0x80) o += (char)p;
  else if (p < 0x800) o += (char)(0xc0 | p >> 6), o += (char)(0x80 | (p & 63));
  else if (p < 0x10000) o += (char)(0xe0 | p >> 12), o += (char)(0x80 | (p >> 6 & 63)), o += (char)(0x80 | (p & 63));
  else o += (char)(0xf0 | p >> 18), o += (char)(0x80 | (p >> 12 & 63)), o += (char)(0x80 | (p >> 6 & 63)), o += (char)(0x80 | (p & 63));
}
static uint32_t codePoint(Rng& r, uint32_t max) {
  static const uint32_t edge[] = {1, 9, 10, 0x22, 0x5c, 0x7f, 0x80, 0xe4, 0x7ff, 0x800, 0xd7ff, 0xe000, 0xfffd, 0xffff, 0x10000, 0x1f600, 0x10ffff};
  for (;;) {
    uint32_t p = r.chance(50) ? edge[r.below(17)] : r.in(1, max);
    if (p <= max && !(p >= 0xd800 && p < 0xe000)) return p;
  }
}
static std::string hex(Rng& r, uint32_t p, int n) {
  char b[16];
  snprintf(b, 16, n == 4 ? "%04x" : "%08x", p);
  for (char* q = b; *q; q++)
    if (r.chance(50)) *q = toupper(*q);
  return b;
}
static void numeric(Rng& r, std::string& in, std::string& out) {
  bool big = r.chance(40);
  uint32_t p = codePoint(r, big ? 0x10ffff : 0xffff);
  in += (big ? "\\U" : "\\u") + hex(r, p, big ? 8 : 4);
  utf8(out, p);
}
template <typename F>
static void decode(Case& c, const std::string& what, const std::string& in, const std::string& out, F f) {
  c.log(what + ": " + visible(in) + "\n");
  c.key(hashStr(in));
  std::vector<char> exact(in.begin(), in.end());
  try {
    std::string got = f(std::string_view(exact.data(), exact.size()));
    c.check(got == out, what + " decodes to " + visible(got) + " instead of " + visible(out));
  } catch (const std::exception& e) {
    c.fail(what + " refused, it denotes " + visible(out) + " (" + e.what() + ")");
  }
}
SUITE(literals, false, 20000, 300000, "quoted literals of up to 12 parts in all four forms of quotes, with every escape sequence") {
  Rng& r = c.rng;
  static const char E[][2] = {{'t', '\t'}, {'n', '\n'}, {'r', '\r'}, {'b', '\b'}, {'f', '\f'}, {'"', '"'}, {'\'', '\''}, {'\\', '\\'}};
  static const char* Q[] = {"\"", "'", "\"\"\"", "'''"};
  int form = r.below(4);
  std::string in = Q[form], out = "\"";
  for (size_t n = r.below(12); n > 0; n--) {
    int k = r.below(10);
    if (k < 3) {
      numeric(r, in, out);
    } else if (k < 7) {
      auto* e = E[r.below(8)];
      in += '\\', in += e[0], out += e[1];
    } else {
      std::string p;
      if (r.chance(30)) utf8(p, codePoint(r, 0x10ffff));
      else p = std::string(1, "nutr0aA \t"[r.below(9)]);
      if (p == "\"" || p == "\\" || p == "\n") p = "x";
      in += p, out += p;
    }
  }
  decode(c, "literal", in + Q[form], out + "\"", [](auto v) { return RdfEscaping::normalizeRDFLiteral(v); });
}
SUITE(iris, false, 10000, 100000, "IRIs with numeric escapes, which are decoded, and with others, which are refused") {
  Rng& r = c.rng;
  std::string in = "<", out = "<";
  bool bad = false;
  for (size_t n = r.below(8); n > 0; n--) {
    if (r.chance(40)) {
      numeric(r, in, out);
    } else if (r.chance(5)) {
      in += '\\', in += "tnrbf\"'\\"[r.below(8)], bad = true;
    } else {
      char p = "nutr0aA/:#"[r.below(10)];
      in += p, out += p;
    }
  }
  in += '>', out += '>';
  if (!bad) return decode(c, "IRI", in, out, [](auto v) { return RdfEscaping::unescapeIriref(v); });
  c.log("IRI: " + visible(in) + "\n");
  c.key(hashStr(in));
  bool refused = false;
  try {
    RdfEscaping::unescapeIriref(in);
  } catch (const std::exception& e) {
    refused = true;
  }
  c.check(refused, "IRI with a string escape accepted");
}
SUITE(localNames, false, 10000, 100000, "local names with reserved characters escaped") {
  Rng& r = c.rng;
  static const std::string R = "_~.-!$&'()*+,;=/?#@%";
  std::string in, out;
  for (size_t n = r.below(10); n > 0; n--) {
    if (r.chance(50)) {
      char p = R[r.below(R.size())];
      in += '\\', in += p, out += p;
    } else {
      char p = "nutr0aA_-."[r.below(10)];
      in += p, out += p;
    }
  }
  decode(c, "local name", in, out, [](auto v) { return RdfEscaping::unescapePrefixedIri(v); });
}
int main(int argc, char** argv) { return vh::main(argc, argv); }
