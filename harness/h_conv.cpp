// Numbers and dates as index words: real Conversions against decimal strings.
#include "util/Conversions.h"
#include "common.h"
#include "index/StringSortComparator.h"
// link: -licui18n -licuuc
using namespace vh;
using namespace ad_utility;

// A decimal number: digits before and after the dot without redundant zeros.
struct Dec {
  bool neg = false;
  std::string a, b;
  bool zero() const { return a.empty() && b.empty(); }
};
static Dec parseDec(std::string s, bool& ok) {
  Dec d;
  ok = !s.empty();
  if (s[0] == '+' || s[0] == '-') d.neg = s[0] == '-', s.erase(0, 1);
  size_t e = s.find_first_of("eE");
  long ex = 0;
  if (e != std::string::npos) ex = std::stol(s.substr(e + 1)), s = s.substr(0, e);
  size_t dot = s.find('.');
  d.a = s.substr(0, dot);
  if (dot != std::string::npos) d.b = s.substr(dot + 1);
  if ((d.a + d.b).empty() || (d.a + d.b).find_first_not_of("0123456789") != std::string::npos) ok = false;
  for (; ex > 0; ex--) {
    d.a += d.b.empty() ? '0' : d.b[0];
    if (!d.b.empty()) d.b.erase(0, 1);
  }
  for (; ex < 0; ex++) {
    d.b = (d.a.empty() ? '0' : d.a.back()) + d.b;
    if (!d.a.empty()) d.a.pop_back();
  }
  d.a.erase(0, std::min(d.a.find_first_not_of('0'), d.a.size()));
  while (!d.b.empty() && d.b.back() == '0') d.b.pop_back();
  if (d.zero()) d.neg = false;
  return d;
}
static int cmp(const Dec& x, const Dec& y) {
  if (x.neg != y.neg) return x.neg ? -1 : 1;
  int r = x.a.size() != y.a.size() ? (x.a.size() < y.a.size() ? -1 : 1) : x.a.compare(y.a) ? x.a.compare(y.a) : x.b.compare(y.b);
  r = r < 0 ? -1 : r > 0;
  return x.neg ? -r : r;
}
static std::string digits(Rng& r, size_t n) {
  std::string s;
  bool few = r.chance(50);
  for (size_t i = 0; i < n; i++) s += '0' + (few ? (r.chance(50) ? 0 : r.chance(50) ? 9 : 1) : r.below(10));
  return s;
}
static std::string randomNumber(Rng& r, bool integer) {
  std::string s = r.chance(40) ? "-" : r.chance(10) ? "+" : "";
  size_t n = r.chance(15) ? r.in(5, 13) : r.in(0, 4), m = integer ? 0 : r.chance(15) ? r.in(5, 8) : r.in(0, 4);
  std::string a = digits(r, n), b = digits(r, m);
  if (integer && a.empty()) a = "0";
  if (a.empty() && b.empty()) a = "7";
  if (integer && r.chance(10)) a = "3" + digits(r, 20);
  if (!integer && r.chance(10)) b += digits(r, 6);
  s += a;
  if (!b.empty()) s += "." + b;
  if (!integer && !a.empty() && r.chance(15)) s += (r.chance(50) ? "E" : "e") + std::string(r.chance(40) ? "-" : r.chance(30) ? "+" : "") + std::to_string(r.below(6));
  return s;
}
static std::string variant(Rng& r, const std::string& x) {
  // a neighbour: change, add or remove a digit
  std::string s = x;
  size_t end = std::min(s.find_first_of("eE"), s.size()), i = r.below(end);
  if (s[i] >= '0' && s[i] <= '9') {
    int k = r.below(4);
    if (k == 0) s[i] = '0' + r.below(10);
    if (k == 1) s.insert(i, 1, '0' + r.below(10));
    if (k == 2) s.insert(end, 1, '0' + r.below(2) * 5);
    if (k == 3 && s[i] == '0') s.insert(i, "0");
  } else if (s[i] == '-') s.erase(0, 1);
  return s;
}
static int cmpWords(const std::string& a, const std::string& b) {
  static const TripleComponentComparator cc;
  auto l = TripleComponentComparator::Level::TOTAL;
  return cc(a, b, l) ? -1 : cc(b, a, l) ? 1 : 0;
}
static void checkOrder(Case& c, const std::string& what, int want, const std::string& x, const std::string& y) {
  int got = x < y ? -1 : x > y;
  c.check(got == want, what + ": words are ordered " + std::to_string(got) + " instead of " + std::to_string(want) + "\n   " + x + "\n   " + y);
  int v = cmpWords(x, y);
  c.check(v == want, what + ": vocabulary orders the words " + std::to_string(v) + " instead of " + std::to_string(want) + "\n   " + x + "\n   " + y);
}
static void checkBack(Case& c, const std::string& s, const Dec& d, const std::string& w) {
  bool ok;
  std::string back = convertIndexWordToFloatString(w);
  Dec e = parseDec(back, ok);
  c.check(ok && cmp(d, e) == 0, "number " + s + " is read back as " + back);
  float f = convertIndexWordToFloat(w), want = std::strtof(s.c_str(), nullptr);
  c.check(f == want || std::abs(f - want) <= 1e-6f * std::abs(want), "number " + s + " has value " + std::to_string(f));
}
SUITE(numbers, false, 20000, 400000, "pairs of decimal numbers with up to 13 digits before and 14 after the dot, with leading and trailing zeros, signs and exponents, often equal or neighbours") {
  auto& r = c.rng;
  std::string s = randomNumber(r, false), t = r.chance(60) ? variant(r, s) : randomNumber(r, false);
  c.key(hashStr(s));
  c.key(hashStr(t));
  c.log(s + " and " + t + "\n");
  bool ok;
  Dec x = parseDec(s, ok), y = parseDec(t, ok);
  std::string wx = convertFloatStringToIndexWord(s), wy = convertFloatStringToIndexWord(t);
  checkOrder(c, "numbers", cmp(x, y), wx, wy);
  checkBack(c, s, x, wx);
}
static const char* types[] = {"int", "integer", "float", "double", "decimal"};
static std::string typed(Rng& r, const std::string& v, const std::string& type) {
  return "\"" + v + "\"^^" + (r.chance(50) ? "xsd:" + type : "<http://www.w3.org/2001/XMLSchema#" + type + ">");
}
SUITE(literals, false, 10000, 200000, "typed number literals of all supported types in both notations, converted to index words and back") {
  auto& r = c.rng;
  std::string ty = types[r.below(5)];
  bool integer = ty[0] == 'i';
  std::string s = randomNumber(r, integer), lit = typed(r, s, ty);
  c.key(hashStr(lit));
  c.log(lit + "\n");
  bool ok;
  Dec d = parseDec(s, ok);
  c.check(isXsdValue(lit), "not taken for a value literal");
  std::string w = convertValueLiteralToIndexWord(lit), back = convertIndexWordToValueLiteral(w);
  checkBack(c, s, d, w);
  std::string suffix = "\"^^<http://www.w3.org/2001/XMLSchema#" + (integer ? std::string("int") : ty) + ">";
  bool form = back.size() > suffix.size() + 1 && back[0] == '"' && back.compare(back.size() - suffix.size(), suffix.size(), suffix) == 0;
  c.check(form, "literal " + lit + " is shown as " + back);
  if (!form) return;
  std::string v = back.substr(1, back.size() - 1 - suffix.size());
  Dec e = parseDec(v, ok);
  c.check(ok && cmp(d, e) == 0 && (!integer || v.find('.') == std::string::npos), "literal " + lit + " is shown as " + back);
  c.check(convertValueLiteralToIndexWord(back) == w, "shown literal " + back + " has another index word");
  // the same number with another type is a different word next to it
  std::string u = types[r.below(5)];
  if (integer) {
    std::string w2 = convertValueLiteralToIndexWord(typed(r, s, u));
    c.check(w2.substr(0, w2.size() - 1) == w.substr(0, w.size() - 1), "types " + ty + " and " + u + " give different numbers");
    c.check((w2 == w) == (u == ty || u[0] == 'i'), "types " + ty + " and " + u + " are confused");
  }
  if (s[0] != '+' && s.find_first_of("eE") == std::string::npos) {
    c.check(isNumeric(s), "not taken for a number");
    std::string n = convertNumericToIndexWord(s);
    bool dot = s.find('.') != std::string::npos;
    c.check(n == convertValueLiteralToIndexWord(typed(r, s, dot ? "float" : "int")), "number without type");
  }
}
struct Date {
  long long f[6] = {0, 0, 0, 0, 0, 0};
  std::string text;
};
static std::string two(long long x) { return (x < 10 ? "0" : "") + std::to_string(x); }
static Date randomDate(Rng& r) {
  Date d;
  bool neg = r.chance(30);
  long long y = r.chance(20) ? (long long)r.below(1000000000000ull) : r.chance(50) ? 1980 + r.below(30) : r.below(2500);
  if (neg && y == 0) y = 1;
  std::string ys = std::to_string(y);
  while (ys.size() < 4) ys = "0" + ys;
  if (r.chance(5)) ys = std::to_string(y);
  int parts = r.below(4);
  d.f[0] = neg ? -y : y;
  d.text = (neg ? "-" : "") + ys;
  if (parts >= 1) d.f[1] = r.in(1, 12), d.text += "-" + two(d.f[1]);
  if (parts >= 2) d.f[2] = r.in(1, 31), d.text += "-" + two(d.f[2]);
  if (parts >= 3) {
    int t = r.below(4);
    d.f[3] = r.below(24);
    d.text += "T" + two(d.f[3]);
    if (t >= 1) d.f[4] = r.below(60), d.text += ":" + two(d.f[4]);
    if (t >= 2) d.f[5] = r.below(60), d.text += ":" + two(d.f[5]);
    if (t >= 3) d.text += "." + digits(r, r.in(1, 4));
    if (r.chance(30)) d.text += r.chance(50) ? "Z" : (r.chance(50) ? "+" : "-") + two(r.below(13)) + ":00";
  } else if (r.chance(10)) d.text += "Z";
  return d;
}
SUITE(dates, false, 15000, 300000, "pairs of dates from years to seconds with fractions and time zones, years of up to 12 digits before and after the year 0") {
  auto& r = c.rng;
  Date x = randomDate(r), y = randomDate(r);
  if (r.chance(60)) {
    // another date in the same year
    y = x;
    if (x.f[1]) {
      int k = r.in(1, x.f[2] ? 2 : 1);
      y.f[k] = r.in(1, 12);
    }
    std::string year = x.text.substr(0, x.text.find_first_of("-TZ", 1));
    y.text = year;
    if (x.f[1]) y.text += "-" + two(y.f[1]);
    if (x.f[2]) y.text += "-" + two(y.f[2]), y.text += "T" + two(y.f[3]) + ":" + two(y.f[4]) + ":" + two(y.f[5]);
    else y.f[3] = y.f[4] = y.f[5] = 0;
  }
  c.log(x.text + " and " + y.text + "\n");
  c.key(hashStr(x.text));
  c.key(hashStr(y.text));
  std::string wx = convertDateToIndexWord(x.text), wy = convertDateToIndexWord(y.text);
  int want = 0;
  for (int i = 0; i < 6 && !want; i++) want = x.f[i] < y.f[i] ? -1 : x.f[i] > y.f[i];
  checkOrder(c, "dates", want, wx, wy);
  const char* ty[] = {"dateTime", "date", "gYear", "gYearMonth"};
  std::string lit = typed(r, x.text, ty[r.below(4)]);
  c.check(convertValueLiteralToIndexWord(lit) == wx, "literal " + lit + " has another index word than its value");
  std::string back = convertIndexWordToValueLiteral(wx);
  long long g[6] = {0, 0, 0, 0, 0, 0};
  int n = std::sscanf(back.c_str(), "\"%lld-%lld-%lldT%lld:%lld:%lld\"^^<http://www.w3.org/2001/XMLSchema#dateTime>", g, g + 1, g + 2, g + 3, g + 4, g + 5);
  bool same = n == 6;
  for (int i = 0; i < 6; i++) same = same && g[i] == x.f[i];
  c.check(same, "date " + x.text + " is shown as " + back);
}
SUITE(tags, false, 2000, 20000, "language tags as words and back, predicates with language tags") {
  auto& r = c.rng;
  std::string tag, p = "<";
  for (size_t i = r.in(1, 6); i > 0; i--) tag += "abe-"[r.below(4)];
  for (size_t i = r.below(6); i > 0; i--) p += "ab:/@"[r.below(5)];
  p += ">";
  c.key(hashStr(tag + p));
  c.log(tag + " " + p + "\n");
  auto back = convertEntityUriToLangtag(convertLangtagToEntityUri(tag));
  c.check(back && *back == tag, "language tag " + tag + " is read back as " + back.value_or("nothing"));
  c.check(!convertEntityUriToLangtag(p), "a word is taken for a language tag");
  c.check(convertToLanguageTaggedPredicate(p, tag) == "@" + tag + "@" + p, "predicate with language tag");
}
static bool numeric(const std::string& s) {
  size_t i = !s.empty() && (s[0] == '-' || s[0] == '+'), dots = 0;
  for (size_t k = i; k < s.size(); k++) {
    if (s[k] == '.') {
      if (++dots > 1 || k + 1 == s.size()) return false;
    } else if (s[k] < '0' || s[k] > '9') return false;
  }
  return s.size() > i;
}
SUITE(recognized, false, 10000, 100000, "strings of up to 6 characters: which are numbers, which are value literals") {
  auto& r = c.rng;
  std::string s;
  for (size_t i = r.below(7); i > 0; i--) s += "019.-+ea\"^"[r.below(r.chance(70) ? 6 : 10)];
  if (s == "-" || s == "+") s += "1";
  c.key(hashStr(s));
  c.log(s + "\n");
  c.check(isNumeric(s) == numeric(s), "number: " + s);
  size_t q = s.rfind('"');
  bool want = s.size() > 1 && s[0] == '"' && q > 0 && s.find("^^", q) != std::string::npos;
  c.check(isXsdValue(s) == want, "value literal: " + s);
}
int main(int argc, char** argv) { return vh::main(argc, argv); }
