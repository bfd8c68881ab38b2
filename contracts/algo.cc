// U07: algorithms, arithmetic functors, time conversion
#include "stl.h"
#include "v.h"
#include "libc.h"
#include <algorithm>
#include <cassert>
#include <cstdint>
#include <functional>
#include <iterator>
#include <list>
#include <stdexcept>
#include <string>
#include <vector>
#define THROW_RUNTIME_ERROR(x) throw std::runtime_error(x)
#include <ristra/utils/algorithm.h>
#include <ristra/utils/functional.h>
#include <ristra/utils/time_utils.h>
namespace ru = ristra::utils; using std::size_t;
template<typename T, size_t L> void inter() {
  v::bounded("range lengths up to the stated value"); size_t n = v::choose("n", 0, L), m = v::choose("m", 0, L); T a[L], b[L], a0[L], b0[L]; for (size_t i = 0; i < n; ++i) a0[i] = a[i] = v::any<T>("a"); for (size_t i = 0; i < m; ++i) b0[i] = b[i] = v::any<T>("b");
  std::vector<T> o; o.push_back(T(7)); auto it = ru::unsorted_set_intersection(a, a + n, b, b + m, std::back_inserter(o)); *it = T(9);
  v::ensure(o.front() == T(7) && o.back() == T(9), "appends to the output and returns the end"); o.pop_back(); o.erase(o.begin());
  for (size_t i = 1; i < o.size(); ++i) v::ensure(!(o[i] < o[i - 1]), "result sorted");
  auto cnt = [](const T * p, size_t k, T x) { size_t c = 0; for (size_t i = 0; i < k; ++i) c += p[i] == x; return c; };
  for (size_t i = 0; i < n; ++i) { size_t p = cnt(a0, n, a0[i]), q = cnt(b0, m, a0[i]), r = cnt(o.data(), o.size(), a0[i]); v::ensure(r == (p < q ? p : q), "every common item as often as in both"); }
  for (auto x : o) v::ensure(cnt(a0, n, x) > 0 && cnt(b0, m, x) > 0, "nothing but common items");
  for (size_t i = 0; i < n; ++i) v::eq(a[i], a0[i], "inputs unchanged"); for (size_t i = 0; i < m; ++i) v::eq(b[i], b0[i], "inputs unchanged");
}
CONTRACT(intersection_int) { inter<int, 2>(); }
CONTRACT(intersection_char) { inter<char, 2>(); }
template<typename C, size_t L> void dups() {
  using T = typename C::value_type; v::bounded("container length up to the stated value"); size_t n = v::choose("n", 0, L), k = 0; T a[L], m[L]; C c; for (size_t i = 0; i < n; ++i) { a[i] = v::any<T>("a"); c.push_back(a[i]); if (!k || !(m[k - 1] == a[i])) m[k++] = a[i]; }
  ru::remove_duplicates(c); v::ensure(c.size() == k, "one item per run of equal items"); size_t i = 0; for (auto & x : c) v::eq(x, m[i++], "items in their order");
}
CONTRACT(remove_duplicates_vec) { dups<std::vector<int>, 5>(); }
CONTRACT(remove_duplicates_list) { dups<std::list<char>, 4>(); }
CONTRACT(functional) {
  double x = v::real("x"), y = v::nz<double>("y"); int i = v::range("i", -40000, 40000), j = v::range("j", -40000, 40000); const double x0 = x, y0 = y;
  v::eq(ru::plus(x, y), x0 + y0, "plus"); v::eq(ru::minus(x, y), x0 - y0, "minus"); v::eq(ru::multiplies(x, y), x0 * y0, "multiplies"); v::eq(ru::divides(x, y), x0 / y0, "divides");
  v::ensure(ru::plus(i, j) == i + j && ru::minus(i, j) == i - j && ru::multiplies(i, j) == i * j, "integers"); v::assume(j != 0); v::ensure(ru::divides(i, j) == i / j, "integer division");
  v::eq(ru::minus(x, i), x0 - i, "mixed"); v::eq(ru::minus(i, x), i - x0, "mixed"); v::eq(ru::divides(i, y), i / y0, "mixed"); v::eq(x, x0, "unchanged"); v::eq(y, y0, "unchanged");
}
CONTRACT(dhms) {
  int64_t s = v::i64("s"); long long d = v::i64("d"); int h = v::i32("h"), m = v::i32("m"), c = v::i32("c"); ru::daysHoursMinutesSeconds(s, d, h, m, c);
  v::ensure(uint64_t(d) * 86400 + uint64_t(h) * 3600 + uint64_t(m) * 60 + uint64_t(c) == uint64_t(s), "the parts add up to the input");
  auto in = [](int x, int l) { v::ensure(x > -l, "each part is within its unit"); v::ensure(x < l, "each part is within its unit"); };
  in(h, 24); in(m, 60); in(c, 60); v::ensure(d >= -106751991167301LL, "days within range"); v::ensure(d <= 106751991167301LL, "days within range");
  if (s >= 0) { v::ensure(d >= 0, "sign of the input"); v::ensure(h >= 0, "sign of the input"); v::ensure(m >= 0, "sign of the input"); v::ensure(c >= 0, "sign of the input"); }
  else { v::ensure(d <= 0, "sign of the input"); v::ensure(h <= 0, "sign of the input"); v::ensure(m <= 0, "sign of the input"); v::ensure(c <= 0, "sign of the input"); }
}
CONTRACT(wall_time) { v::native_only("gettimeofday"); double a = ru::get_wall_time(), b = ru::get_wall_time(); v::ensure(a > 0 && b > 0 && b - a < 600 && b - a > -600, "wall time in seconds"); }
