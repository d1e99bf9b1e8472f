// Word-packed integer lists: every list is restored and nothing outside the buffers is touched.
#include <memory>

#include "common.h"
#include "util/Simple8bCode.h"
using namespace vh;

static const uint64_t M60 = (1ull << 60) - 1;
template <typename T>
static void roundTrip(Case& c, const std::vector<uint64_t>& in, const std::string& type) {
  size_t n = in.size();
  // buffers of the documented sizes
  std::unique_ptr<T[]> plain(new T[n]);
  std::unique_ptr<uint64_t[]> enc(new uint64_t[n]);
  std::unique_ptr<T[]> dec(new T[n + 239]);
  for (size_t i = 0; i < n; i++) plain[i] = in[i];
  size_t bytes = ad_utility::Simple8bCode::encode(plain.get(), n, enc.get());
  c.check(bytes % 8 == 0 && bytes <= 8 * n, type + ": " + std::to_string(bytes) + " bytes for " + std::to_string(n) + " elements");
  if (!c.problems.empty()) return;
  for (size_t i = 0; i < n; i++) c.check(plain[i] == (T)in[i], type + ": the input is changed");
  // exactly the written words must be enough to decode
  std::unique_ptr<uint64_t[]> exact(new uint64_t[bytes / 8]);
  std::copy(enc.get(), enc.get() + bytes / 8, exact.get());
  ad_utility::Simple8bCode::decode(exact.get(), n, dec.get());
  for (size_t i = 0; i < n && c.problems.size() < 3; i++)
    c.check(dec[i] == (T)in[i], type + ": element " + std::to_string(i) + " of " + std::to_string(n) + " is " + std::to_string((uint64_t)dec[i]) + " instead of " +
                                    std::to_string((uint64_t)(T)in[i]));
}
static void show(Case& c, const std::vector<uint64_t>& v) {
  std::string s = std::to_string(v.size()) + " elements:";
  for (size_t i = 0; i < v.size();) {
    size_t j = i;
    while (j < v.size() && v[j] == v[i]) j++;
    s += " " + std::to_string(v[i]) + (j - i > 1 ? "(x" + std::to_string(j - i) + ")" : "");
    i = j;
  }
  c.log(s + "\n");
}
static void all(Case& c, const std::vector<uint64_t>& v) {
  show(c, v);
  for (auto x : v) c.key(x);
  c.key(v.size());
  uint64_t m = 0;
  for (auto x : v) m = std::max(m, x);
  roundTrip<uint64_t>(c, v, "64 bit");
  if (m < (1ull << 32)) roundTrip<uint32_t>(c, v, "32 bit");
  if (m < (1ull << 16)) roundTrip<uint16_t>(c, v, "16 bit");
  if (m < (1ull << 8)) roundTrip<uint8_t>(c, v, "8 bit");
}
static const int widths[] = {0, 1, 2, 3, 4, 5, 6, 7, 8, 10, 12, 15, 20, 30, 60};
SUITE(mixed, false, 12000, 200000, "lists of up to 600 values below 2^60 built of runs of zeros, of one width and of single large values") {
  Rng& r = c.rng;
  std::vector<uint64_t> v;
  size_t target = r.chance(50) ? r.below(40) : r.below(600);
  bool narrow = r.chance(30);
  while (v.size() < target) {
    int kind = r.below(8);
    int w = widths[r.below(narrow ? 9 : 15)];
    uint64_t top = w ? (w == 60 ? M60 : (1ull << w) - 1) : 0;
    if (kind == 0) {
      size_t n = r.chance(50) ? 118 + r.below(5) : r.chance(50) ? 238 + r.below(5) : r.below(260);
      v.insert(v.end(), n, 0);
    } else if (kind == 1) {
      v.push_back(top);
    } else if (kind == 2) {
      v.push_back(std::min(top + 1, M60));
    } else {
      for (size_t n = r.in(1, kind < 5 ? 8 : 70); n > 0; n--) v.push_back(r.chance(20) ? top : r.chance(20) ? top / 2 + 1 : r.below(top + 1));
    }
  }
  all(c, v);
}
SUITE(boundaries, true, 15 * 66 * 3, 15 * 66 * 3, "every width, a group of up to 65 largest values of that width, followed by nothing, by a larger value or by zeros") {
  int w = widths[c.number % 15];
  size_t n = c.number / 15 % 66;
  int tail = c.number / 15 / 66;
  uint64_t top = w ? (w == 60 ? M60 : (1ull << w) - 1) : 0;
  std::vector<uint64_t> v(n, top);
  if (tail == 1) v.push_back(std::min(top + 1, M60));
  if (tail == 2) v.insert(v.end(), 130, 0);
  all(c, v);
}
SUITE(zeroRuns, true, 500 * 4, 500 * 4, "runs of 0 to 499 zeros with a value before, after, both or none") {
  std::vector<uint64_t> v;
  size_t n = c.number / 4;
  if (c.number & 1) v.push_back(5);
  v.insert(v.end(), n, 0);
  if (c.number & 2) v.push_back(77);
  all(c, v);
}
int main(int argc, char** argv) { return vh::main(argc, argv); }
