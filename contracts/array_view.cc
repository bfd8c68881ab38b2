// U06: multi-dimensional views: index algebra, bounds, row-major iteration, element mapping, slices and sections
#include "v.h"
#include <array>
#include <cstddef>
#include <stdexcept>
#include <vector>
#include <ristra/utils/array_view.h>
namespace u = ristra::utils; using P = std::ptrdiff_t; using std::size_t;
template<int R> using ix = u::index_t<R>;

template<int R> ix<R> anyix(const char * n) { ix<R> r; for (int i = 0; i < R; ++i) r[i] = v::range(n, -1000000, 1000000); return r; }
template<int R> ix<R> shape(int lo, int hi) { ix<R> r; for (int i = 0; i < R; ++i) r[i] = v::choose("extent", lo, hi); return r; }
template<int R> ix<R> inside(const ix<R> & b) { ix<R> r; for (int i = 0; i < R; ++i) r[i] = v::within("index", 0, b[i] - 1, 1000); return r; }
template<int R> P vol(const ix<R> & b) { P p = 1; for (int i = 0; i < R; ++i) p *= b[i]; return p; }
template<int R> P lin(const ix<R> & b, const ix<R> & k) { P p = 0; for (int i = 0; i < R; ++i) p = p * b[i] + k[i]; return p; }
template<int R> ix<R> unlin(const ix<R> & b, P p) { ix<R> r; for (int i = R; i-- > 0;) { r[i] = p % b[i]; p /= b[i]; } return r; }
template<int R> bool same(const ix<R> & a, const ix<R> & b) { bool r = true; for (int i = 0; i < R; ++i) r = r && a[i] == b[i]; return r; }

#ifdef INDEX
template<int R> void index_ops() {
  ix<R> a = anyix<R>("a"), b = anyix<R>("b"), a0 = a, b0 = b; P k = v::range("k", -1000, 1000); bool le = true, ge = true, eq = true;
  for (int i = 0; i < R; ++i) { le = le & (a[i] <= b[i]); ge = ge & (a[i] >= b[i]); eq = eq & (a[i] == b[i]); }
  int op = int(v::choose("operation", 0, 9)); ix<R> r; bool isref = true;
  auto at = [&](int i) -> P { switch (op) { case 0: case 1: return a0[i] + b0[i]; case 2: case 3: return a0[i] - b0[i]; case 4: case 5: case 6: return a0[i] * k; case 7: return -a0[i]; case 8: return a0[i]; default: return a0[i] + a0[i]; } };
  switch (op) { case 0: r = a + b; break; case 1: isref = &(a += b) == &a; r = a; break; case 2: r = a - b; break; case 3: isref = &(a -= b) == &a; r = a; break; case 4: r = a * k; break; case 5: r = k * a; break;
    case 6: isref = &(a *= k) == &a; r = a; break; case 7: r = -a; break; case 8: r = +a; break; default: isref = &(a += a) == &a; r = a; }
  for (int i = 0; i < R; ++i) { v::ensure(r[i] == at(i), "index arithmetic is componentwise"); v::ensure(b[i] == b0[i], "right operand unchanged"); }
  v::ensure(isref, "compound operator returns its target"); if (op != 1 && op != 3 && op != 6 && op != 9) v::ensure(same<R>(a, a0), "left operand unchanged");
  v::ensure((a0 == b0) == eq && (a0 != b0) == !eq, "equality is componentwise"); v::ensure((a0 <= b0) == le && (a0 >= b0) == ge, "<= and >= hold when they hold in every component");
}
CONTRACT(index_1) { index_ops<1>(); } CONTRACT(index_2) { index_ops<2>(); } CONTRACT(index_3) { index_ops<3>(); }
template<int R> void index_access() {
  ix<R> a = anyix<R>("a"), b = anyix<R>("b"), a0 = a, b0 = b; const ix<R> & c = a; P d = v::range("d", 1, 1000); std::array<P, R> arr; P raw[R]; for (int i = 0; i < R; ++i) arr[i] = raw[i] = a[i];
  v::ensure(same<R>(ix<R>(arr), a) && same<R>(ix<R>(raw), a), "built from an array"); ix<R> z; for (int i = 0; i < R; ++i) v::ensure(z[i] == 0, "zero by default");
  size_t k = size_t(v::i64("component")); bool threw = false; P got = 0; try { got = c.at(k); } catch (const std::out_of_range &) { threw = true; }
  v::ensure(threw == (k >= size_t(R)), "at() rejects exactly the components beyond the rank");
  for (int i = 0; i < R; ++i) { if (!threw) v::ensure(k != size_t(i) || got == a0[i], "at() is the component"); v::ensure(c.as_array()[i] == a0[i] && c.begin()[i] == a0[i] && c.at(i) == a0[i], "components"); }
  v::ensure(c.end() - c.begin() == R && c.template get<0>() == size_t(a0[0]) && c.template get<R - 1>() == size_t(a0[R - 1]), "get and range");
  bool thr2 = false; if (v::boolean("write")) { try { a.at(k) = 5; } catch (const std::out_of_range &) { thr2 = true; } v::ensure(thr2 == (k >= size_t(R)), "at() for writing"); for (int i = 0; i < R; ++i) v::ensure(a[i] == (k == size_t(i) ? 5 : a0[i]), "only that component is written"); a = a0; }
  if constexpr (R > 1) { auto s = a.shift_left(); for (int i = 1; i < R; ++i) v::ensure(s[i - 1] == a0[i], "shift_left drops the first component"); }
  if constexpr (R == 1) { ix<1> t(a); v::ensure((++t)[0] == a0[0] + 1 && (t++)[0] == a0[0] + 1 && t[0] == a0[0] + 2 && (--t)[0] == a0[0] + 1 && (t--)[0] == a0[0] + 1 && t[0] == a0[0], "increment and decrement"); }
  a.swap(b); v::ensure(same<R>(a, b0) && same<R>(b, a0), "swap");
}
CONTRACT(index_access_1) { index_access<1>(); } CONTRACT(index_access_2) { index_access<2>(); } CONTRACT(index_access_3) { index_access<3>(); }
template<int R> void index_div() { ix<R> a; for (int i = 0; i < R; ++i) a[i] = v::range("a", -300, 300); P d = v::choose("d", -3, 3); v::assume(d != 0); ix<R> q = a / d, w = a; v::ensure(&(w /= d) == &w, "compound division returns its target"); for (int i = 0; i < R; ++i) v::ensure(q[i] == a[i] / d && w[i] == q[i], "index division is componentwise"); }
CONTRACT(index_div_2) { index_div<2>(); }
#endif

#ifdef BOUNDS
// B: any of the bounds types, with extents b and strides st
template<int R, class B> void bounds_spec(const B & bn, const ix<R> & b, const ix<R> & st, bool dense) {
  ix<R> k; for (int i = 0; i < R; ++i) k[i] = v::i64("index"); bool in = true; for (int i = 0; i < R; ++i) in = in & (k[i] >= 0) & (k[i] < b[i]);
  v::ensure(bn.contains(k) == in, "contains() holds exactly for the indices inside"); v::ensure(P(bn.size()) == vol<R>(b), "size() is the number of indices");
  v::ensure(same<R>(bn.as_index(), b) && same<R>(bn.strides(), st) && bn.stride() == st[0], "extents and strides"); v::ensure(bn.template extent<0>() == size_t(b[0]) && bn.template extent<R - 1>() == size_t(b[R - 1]), "extent<>");
  ix<R> q; P want = 0; for (int i = 0; i < R; ++i) { q[i] = v::range("q", -1000, 1000); want += q[i] * st[i]; } v::ensure(bn.linearize(q) == want, "linearize() is the sum of index times stride");
  P ts = 1; for (int i = 0; i < R; ++i) ts += (b[i] - 1) * st[i]; if (vol<R>(b) > 0) v::ensure(P(bn.total_size()) == (dense ? vol<R>(b) : ts), "total_size() is the extent in memory");
  v::ensure(bn == bn && !(bn != bn), "equal to itself");
  if constexpr (R > 1) { auto s = bn.slice(); for (int i = 1; i < R; ++i) v::ensure(s.as_index()[i - 1] == b[i] && s.strides()[i - 1] == st[i], "a slice drops the first dimension"); }
}
template<int R> ix<R> rowmajor(const ix<R> & b) { ix<R> s; P p = 1; for (int i = R; i-- > 0;) { s[i] = p; p *= b[i]; } return s; }
template<int R> u::contiguous_bounds<R> mkc(const ix<R> & b, int w) { P raw[R]; for (int i = 0; i < R; ++i) raw[i] = b[i]; if constexpr (R > 1) if (w == 1) return u::contiguous_bounds<R>(raw);   // of rank 1, that reads as the bounds of the array raw
 
  if (w == 2) { if constexpr (R == 1) return u::contiguous_bounds<1>(b[0]); else if constexpr (R == 2) return u::contiguous_bounds<2>(b[0], b[1]); else return u::contiguous_bounds<3>(b[0], b[1], b[2]); } return u::contiguous_bounds<R>(b); }
template<int R> u::strided_bounds<R> mks(const ix<R> & b, const ix<R> & s, int w) { P raw[R]; for (int i = 0; i < R; ++i) raw[i] = b[i]; if constexpr (R > 1) if (w == 1) return u::strided_bounds<R>(raw);
 
  if (w == 2) { if constexpr (R == 1) return u::strided_bounds<1>(b[0]); else if constexpr (R == 2) return u::strided_bounds<2>(b[0], b[1]); else return u::strided_bounds<3>(b[0], b[1], b[2]); } if (w == 3) return u::strided_bounds<R>(raw, s); return u::strided_bounds<R>(b, s); }
template<int R> void cb() { ix<R> b; for (int i = 0; i < R; ++i) b[i] = v::range("extent", 0, 1000); int w = R > 1 ? int(v::choose("form", 0, 2)) : 2 * int(v::choose("form", 0, 1)); bounds_spec<R>(mkc<R>(b, w), b, rowmajor<R>(b), true); }
template<int R> void sb() { ix<R> b, s; for (int i = 0; i < R; ++i) { b[i] = v::range("extent", 0, 1000); s[i] = v::range("stride", 0, 1000); } int w = R > 1 ? int(v::choose("form", 0, 3)) : 2 + int(v::choose("form", 0, 1)); bounds_spec<R>(mks<R>(b, s, w), b, w == 0 || w == 3 ? s : rowmajor<R>(b), false); }
CONTRACT(contiguous_1) { cb<1>(); } CONTRACT(contiguous_2) { cb<2>(); } CONTRACT(contiguous_3) { cb<3>(); } CONTRACT(strided_1) { sb<1>(); } CONTRACT(strided_2) { sb<2>(); } CONTRACT(strided_3) { sb<3>(); }
CONTRACT(static_3) { bounds_spec<3>(u::static_bounds<3, 4, 2>(), ix<3>{3, 4, 2}, ix<3>{8, 2, 1}, true); } CONTRACT(static_2) { bounds_spec<2>(u::static_bounds<5, 3>(), ix<2>{5, 3}, ix<2>{3, 1}, true); } CONTRACT(static_1) { bounds_spec<1>(u::static_bounds<7>(), ix<1>{7}, ix<1>{1}, true); }
CONTRACT(from_array) { int a[4], b[3][2], c[2][3][5]; switch (v::choose("which", 0, 5)) {
  case 0: bounds_spec<1>(u::contiguous_bounds<1>(a), ix<1>{4}, ix<1>{1}, true); break; case 1: bounds_spec<2>(u::contiguous_bounds<2>(b), ix<2>{3, 2}, ix<2>{2, 1}, true); break; case 2: bounds_spec<3>(u::contiguous_bounds<3>(c), ix<3>{2, 3, 5}, ix<3>{15, 5, 1}, true); break;
  case 3: bounds_spec<1>(u::strided_bounds<1>(a), ix<1>{4}, ix<1>{1}, false); break; case 4: bounds_spec<2>(u::strided_bounds<2>(b), ix<2>{3, 2}, ix<2>{2, 1}, false); break; default: bounds_spec<3>(u::strided_bounds<3>(c), ix<3>{2, 3, 5}, ix<3>{15, 5, 1}, false); } }
template<int R, int H> void bijective() {   // distinct indices have distinct offsets 0..size-1
  ix<R> b = shape<R>(1, H); u::contiguous_bounds<R> bn(b); ix<R> p, q; for (int i = 0; i < R; ++i) { p[i] = v::range("p", 0, H - 1); q[i] = v::range("q", 0, H - 1); } v::assume(bn.contains(p) && bn.contains(q));
  v::ensure(bn.linearize(p) >= 0 && bn.linearize(p) < P(bn.size()), "offsets of indices inside are below size()"); v::ensure((bn.linearize(p) == bn.linearize(q)) == same<R>(p, q), "distinct indices have distinct offsets");
}
CONTRACT(bijective_1) { bijective<1, 6>(); } CONTRACT(bijective_2) { bijective<2, 4>(); } CONTRACT(bijective_3) { bijective<3, 3>(); }
// iteration: row-major, each index once; random access agrees with counting
template<int R, class B> void walk(const B & bn, const ix<R> & b) {
  v::bounded("whole iterations and jumps: extents up to 4, 3 x 3, 2 x 2 x 2"); P n = vol<R>(b); auto it = bn.begin(); auto e = bn.end(); v::ensure(e - bn.begin() == n, "distance from begin to end is size()");
  if (v::boolean("step by step")) {
  bool post = v::boolean("post");
  for (P k = 0; k < n; ++k) { v::ensure(it != e && !(it == e), "end is not reached early"); ix<R> w = unlin<R>(b, k); v::ensure(same<R>(*it, w) && it->operator[](0) == w[0], "indices in row-major order"); auto o = it; auto r = post ? it++ : ++it; v::ensure(post ? r == o : r == it, "increment gives the position before or after"); }
  v::ensure(it == e, "end after size() steps");
  for (P k = n; k-- > 0;) { if (post) { auto o = it--; v::ensure(o - it == 1, "post-decrement gives the old position"); } else --it; v::ensure(same<R>(*it, unlin<R>(b, k)), "backwards the same indices");}
  return; }
  P i = v::choose("from", 0, n), j = v::choose("to", 0, n); auto x = bn.begin() + i; auto y = x; y += j - i; auto z = x - (i - j); auto w = (j - i) + x; auto s = bn.end(); s = x; s -= i - j;
  v::ensure(y - x == j - i && y == z && y == w && y == s, "random access: distances and jumps agree"); v::ensure(y - bn.begin() == j && bn.end() - y == n - j, "distance from both ends"); v::ensure((j == n) == (y == e) && (j == 0) == (y == bn.begin()), "jumps reach begin and end");
  if (j < n) { v::ensure(same<R>(*y, unlin<R>(b, j)), "a jump lands on that index"); v::ensure(same<R>(x[j - i], unlin<R>(b, j)), "subscript"); }
  v::ensure((x < y) == (i < j) && (x <= y) == (i <= j) && (x > y) == (i > j) && (x >= y) == (i >= j) && (x == y) == (i == j), "iterators are ordered as they iterate");
  auto c = x, d = y; c.swap(d); v::ensure(c == y && d == x, "swap");
}
// one step, for all extents: with begin() at the origin this is the induction that iteration is row-major and complete
template<int R, bool O, class B> void step(const B & bn, const ix<R> & b) {
  using I = typename B::const_iterator; ix<R> k; for (int i = 0; i < R; ++i) k[i] = v::within("k", 0, b[i] - 1, 1000000); v::ensure(bn.contains(k), "contains"); v::ensure(same<R>(*bn.begin(), ix<R>{}), "iteration begins at the origin");
  I it(bn, k), e = bn.end(); v::ensure(same<R>(*it, k) && it != e && !(it == e), "inside is before the end"); int c = R - 1; while (c >= 0 && k[c] == b[c] - 1) --c;   // the component that advances
  I o = it; bool post = v::boolean("post"); I r = post ? it++ : ++it; v::ensure(post ? r == o : r == it, "increment gives the position before or after");
  if (c < 0) v::ensure(it == e && !(it != e), "after the last index comes the end"); else { v::ensure(it != e, "end is not reached early"); for (int i = 0; i < R; ++i) v::ensure((*it)[i] == (i < c ? k[i] : i == c ? k[i] + 1 : 0), "increment moves to the next index in row-major order"); }
  v::ensure(it != o && !(it == o), "increment moves"); if (O) v::ensure(o < it && o <= it && it > o && it >= o && !(it < o) && !(it <= o), "ordered as they iterate"); I q = post ? it-- : --it; (void)q; v::ensure(it == o && same<R>(*it, k), "decrement undoes increment");
  if (!O) return;   // order of two positions: with given extents (the products are then linear)
  ix<R> m; for (int i = 0; i < R; ++i) m[i] = v::within("m", 0, b[i] - 1, 1000000); int d = 0; while (d < R && k[d] == m[d]) ++d; I z(bn, m); bool lt = d < R && k[d] < m[d], gt = d < R && k[d] > m[d];
  v::ensure((o < z) == lt && (o > z) == gt && (o <= z) == !gt && (o >= z) == !lt && (o == z) == (!lt && !gt) && (o != z) == (lt || gt), "iterators are ordered as they iterate"); v::ensure(o < e && e > o && o <= e && e >= o, "everything is before the end");
}
#define X3(n) CONTRACT(step_c##n) { ix<n> b; for (int i = 0; i < n; ++i) b[i] = v::range("extent", 1, 1000000); step<n, n == 1>(u::contiguous_bounds<n>(b), b); } CONTRACT(step_s##n) { ix<n> b, s; for (int i = 0; i < n; ++i) { b[i] = v::range("extent", 1, 1000000); s[i] = v::range("stride", 0, 1000); } step<n, n == 1>(u::strided_bounds<n>(b, s), b); }
X3(1) X3(2) X3(3) CONTRACT(step_f2) { step<2, true>(u::static_bounds<4, 3>(), ix<2>{4, 3}); } CONTRACT(step_f3) { step<3, true>(u::static_bounds<4, 1, 3>(), ix<3>{4, 1, 3}); }
CONTRACT(walk_c1) { ix<1> b = shape<1>(0, 4); walk<1>(u::contiguous_bounds<1>(b), b); } CONTRACT(walk_c2) { ix<2> b = shape<2>(0, 3); walk<2>(u::contiguous_bounds<2>(b), b); } CONTRACT(walk_c3) { ix<3> b = shape<3>(0, 2); walk<3>(u::contiguous_bounds<3>(b), b); }
CONTRACT(walk_s2) { ix<2> b = shape<2>(0, 3), s; s[0] = v::range("stride", 0, 99); s[1] = v::range("stride", 0, 99); walk<2>(u::strided_bounds<2>(b, s), b); } CONTRACT(walk_s3) { ix<3> b = shape<3>(0, 2), s{7, 5, 2}; walk<3>(u::strided_bounds<3>(b, s), b); } CONTRACT(walk_f2) { walk<2>(u::static_bounds<2, 3>(), ix<2>{2, 3}); }
#endif

#ifdef VIEWS
// V shows the elements data[off(k)] at indices k inside b
template<int R> struct sh { ix<R> b, st; P off; };
template<class V, int R> void view_spec(const V & w, int * data, const sh<R> & s) {
  ix<R> b = s.b, k = inside<R>(b); P o = s.off; for (int i = 0; i < R; ++i) o += k[i] * s.st[i]; auto * p = data + o;
  v::ensure(&w[k] == p, "[index] is that element"); v::ensure(&w.at(k) == p, "at() is that element");
  if constexpr (R == 1) v::ensure(&w(k[0]) == p, "(i) is that element"); if constexpr (R == 2) v::ensure(&w(k[0], k[1]) == p, "(i,j) is that element"); if constexpr (R == 3) v::ensure(&w(k[0], k[1], k[2]) == p, "(i,j,k) is that element");
  v::ensure(w.size() == size_t(vol<R>(b)) && w.extent() == size_t(b[0]) && w.template extent<R - 1>() == size_t(b[R - 1]) && V::rank() == R && w.data() == data + s.off, "size, extents, rank and start"); v::ensure(!w.empty() && bool(w), "a view of data is not empty");
  auto st = w.strides(); v::ensure(same<R>(st, s.st) && w.stride() == s.st[0] && same<R>(w.bounds().as_index(), b), "bounds and strides");
  ix<R> q; for (int i = 0; i < R; ++i) q[i] = v::i64("any index"); v::assume(!w.bounds().contains(q)); bool threw = false; try { (void)w.at(q); } catch (const std::out_of_range &) { threw = true; } v::ensure(threw, "at() throws for every index outside");
}
template<class V, int R> void view_walk(const V & w, int * data, const sh<R> & s) {
  v::bounded("iteration over views: extents up to 4, 3 x 3, 2 x 2 x 2"); P n = vol<R>(s.b); int way = int(v::choose("iterator", 0, 3)); P c = 0;
  auto chk = [&](auto & x, P k) { ix<R> i = unlin<R>(s.b, k); P o = s.off; for (int d = 0; d < R; ++d) o += i[d] * s.st[d]; v::ensure(&x == data + o, "iteration visits the elements in row-major order"); };
  if (way == 0) { for (auto & x : w) chk(x, c++); } if (way == 1) for (auto i = w.cbegin(); i != w.cend(); ++i) chk(*i, c++);
  if (way == 2) for (auto i = w.rbegin(); i != w.rend(); ++i) chk(*i, n - 1 - c++); if (way == 3) for (auto i = w.crbegin(); i != w.crend(); i++) chk(*i, n - 1 - c++);
  v::ensure(c == n, "every element once");
  P i = v::choose("from", 0, n), j = v::choose("to", 0, n); auto x = w.begin() + i; auto y = x; y += j - i; auto z = x - (i - j); auto t = (j - i) + x; auto q = x; q = y; q -= j - i;
  v::ensure(y - x == j - i && y == z && y == t && q == x && y - w.begin() == j && w.end() - y == n - j, "random access: distances and jumps agree"); v::ensure((x < y) == (i < j) && (x <= y) == (i <= j) && (x > y) == (i > j) && (x >= y) == (i >= j) && (x == y) == (i == j) && (x != y) == (i != j), "iterators are ordered as they iterate");
  if (j < n) { chk(*y, j); chk(*y.operator->(), j); v::ensure(x[j - i] == *y, "subscript"); } if (j < n) { auto g = y++; v::ensure(y - g == 1, "post-increment"); auto h = y--; v::ensure(h - y == 1 && y == g, "post-decrement"); ++y; --y; v::ensure(y == g, "pre-increment and decrement"); } x.swap(y);
}
static int * fill(int * d, int n) { for (int i = 0; i < n; ++i) d[i] = i; return d; }
template<int R> sh<R> dense(const ix<R> & b) { sh<R> s; s.b = b; s.off = 0; P p = 1; for (int i = R; i-- > 0;) { s.st[i] = p; p *= b[i]; } return s; }
template<int R> sh<R> sparse(const ix<R> & b) { sh<R> s; s.b = b; s.off = 3; P p = 2; for (int i = 0; i < R; ++i) { s.st[i] = p; p *= b[i]; p += 1; } return s; }   // column-major, with gaps
#define FORV(F) \
  CONTRACT(F##_contig1) { int d[64]; fill(d, 64); auto b = shape<1>(1, 4); F<1>(u::array_view<int, 1>(d, u::contiguous_bounds<1>(b)), d, dense<1>(b)); } \
  CONTRACT(F##_contig2) { int d[64]; fill(d, 64); auto b = shape<2>(1, 3); F<2>(u::array_view<int, 2>(d, u::contiguous_bounds<2>(b)), d, dense<2>(b)); } \
  CONTRACT(F##_contig3) { int d[64]; fill(d, 64); auto b = shape<3>(1, 2); F<3>(u::array_view<int, 3>(d, u::contiguous_bounds<3>(b)), d, dense<3>(b)); } \
  CONTRACT(F##_strided1) { int d[64]; fill(d, 64); auto s = sparse<1>(shape<1>(1, 4)); F<1>(u::strided_array_view<int, 1>(d + s.off, s.b, s.st), d, s); } \
  CONTRACT(F##_strided2) { int d[64]; fill(d, 64); auto s = sparse<2>(shape<2>(1, 3)); F<2>(u::strided_array_view<int, 2>(d + s.off, s.b, s.st), d, s); } \
  CONTRACT(F##_strided3) { int d[64]; fill(d, 64); auto s = sparse<3>(shape<3>(1, 2)); F<3>(u::strided_array_view<int, 3>(d + s.off, u::strided_bounds<3>(s.b, s.st)), d, s); } \
  CONTRACT(F##_static2) { int d[64]; fill(d, 64); F<2>(u::static_array_view<int, 2, 3>(d), d, dense<2>(ix<2>{2, 3})); } CONTRACT(F##_static3) { int d[64]; fill(d, 64); F<3>(u::static_array_view<int, 3, 1, 2>(d), d, dense<3>(ix<3>{3, 1, 2})); } \
  CONTRACT(F##_array) { int way = int(v::choose("from", 0, 8)); int r[2][3]; int * d = fill(&r[0][0], 6); std::vector<int> c(6); int * e = fill(c.data(), 6); ix<2> b{2, 3}; auto s = dense<2>(b); std::array<int, 6> g; int * h = fill(g.data(), 6); \
    if (way == 0) F<2>(u::array_view<int, 2>(r), d, s); if (way == 1) F<2>(u::strided_array_view<int, 2>(r), d, s); if (way == 2) F<2>(u::static_array_view<int, 2, 3>(r), d, s); if (way == 3) F<2>(u::make_array_view(r), d, s); if (way == 4) F<2>(u::make_static_array_view(r), d, s); \
    if (way == 5) F<2>(u::make_array_view(c, 2, 3), e, s); if (way == 6) F<2>(u::make_static_array_view<2, 3>(g), h, s); if (way == 7) F<1>(u::make_array_view(c), e, dense<1>(ix<1>{6})); if (way == 8) F<1>(u::strided_array_view<int>(g), h, dense<1>(ix<1>{6})); }
// views of all extents (only addresses are compared, nothing is read)
template<int R> ix<R> anyshape() { ix<R> r; for (int i = 0; i < R; ++i) r[i] = v::range("extent", 1, 1000); return r; }
template<int R> sh<R> anystrides(const ix<R> & b) { sh<R> s; s.b = b; s.off = 3; for (int i = 0; i < R; ++i) s.st[i] = v::range("stride", 0, 1000); return s; }
#define FORA(F) CONTRACT(F##_anycontig1) { int d[1]; auto b = anyshape<1>(); F<1>(u::array_view<int, 1>(d, u::contiguous_bounds<1>(b)), d, dense<1>(b)); } CONTRACT(F##_anycontig2) { int d[1]; auto b = anyshape<2>(); F<2>(u::array_view<int, 2>(d, u::contiguous_bounds<2>(b)), d, dense<2>(b)); } \
  CONTRACT(F##_anycontig3) { int d[1]; auto b = anyshape<3>(); F<3>(u::array_view<int, 3>(d, u::contiguous_bounds<3>(b)), d, dense<3>(b)); } CONTRACT(F##_anystrided1) { int d[9]; auto s = anystrides<1>(anyshape<1>()); F<1>(u::strided_array_view<int, 1>(d + s.off, s.b, s.st), d, s); } \
  CONTRACT(F##_anystrided2) { int d[9]; auto s = anystrides<2>(anyshape<2>()); F<2>(u::strided_array_view<int, 2>(d + s.off, s.b, s.st), d, s); } CONTRACT(F##_anystrided3) { int d[9]; auto s = anystrides<3>(anyshape<3>()); F<3>(u::strided_array_view<int, 3>(d + s.off, s.b, s.st), d, s); }
#define F(N) FORV(N)
template<int R, class V> void look(const V & w, int * d, const sh<R> & s) { view_spec<V, R>(w, d, s); }
template<int R, class V> void stroll(const V & w, int * d, const sh<R> & s) { view_walk<V, R>(w, d, s); }
// conversions between the kinds of views show the same elements
template<int R, class V> void convert(const V & w, int * d, const sh<R> & s) {
  int way = int(v::choose("conversion", 0, 4)); using S = u::strided_array_view<int, R>; using C = u::strided_array_view<const int, R>;
  if (way == 0) view_spec<S, R>(S(w), d, s); if (way == 1) { S t = w; view_spec<S, R>(t, d, s); } if (way == 2) { C t = S(w); view_spec<C, R>(t, d, s); } if (way == 3) { C t; t = S(w); view_spec<C, R>(t, d, s); }
  if (way == 4) { V a = w, b; v::ensure(b.empty() && !b, "a default view is empty"); b.swap(a); view_spec<V, R>(b, d, s); v::ensure(a.data() == nullptr, "swap"); b.clear(); v::ensure(b.empty() && b.data() == nullptr, "clear"); }
}
// slices and sections
template<int R, class V> void cut(const V & w, int * d, const sh<R> & s) {
  int way = int(v::choose("cut", 0, 4));
  if constexpr (R > 1) { if (way < 2) { P i = v::within("at", 0, s.b[0] - 1, 1000); auto t = way == 0 ? w[size_t(i)] : w.slice(i); sh<R - 1> q; q.off = s.off + i * s.st[0]; for (int k = 1; k < R; ++k) { q.b[k - 1] = s.b[k]; q.st[k - 1] = s.st[k]; } view_spec<decltype(t), R - 1>(t, d, q); return; }
    if (way == 2) { size_t i = size_t(v::i64("any")); v::assume(i >= size_t(s.b[0])); bool threw = false; try { (void)w.slice(i); } catch (const std::out_of_range &) { threw = true; } v::ensure(threw, "slice() throws for every position outside"); return; } }
  if (way > 2) { ix<R> o = inside<R>(s.b), l; sh<R> q = s; for (int k = 0; k < R; ++k) { q.off += o[k] * s.st[k]; q.b[k] = s.b[k] - o[k]; }
    if (way == 3) { auto t = w.section(o); view_spec<decltype(t), R>(t, d, q); } else { for (int k = 0; k < R; ++k) q.b[k] = l[k] = v::within("length", 1, s.b[k] - o[k], 1000); auto t = w.section(o, l); view_spec<decltype(t), R>(t, d, q); } return; }
  auto t = w.section(); view_spec<decltype(t), R>(t, d, s);
}
F(look) F(stroll) F(convert) F(cut) FORA(look) FORA(convert) FORA(cut)
// comparison is by elements
template<class V, class W> void cmp(const V & a, const W & b) {
  int x[6], y[6]; int n = 0, m = 0; for (auto & e : a) x[n++] = e; for (auto & e : b) y[m++] = e; bool eq = n == m; for (int i = 0; i < n && eq; ++i) eq = x[i] == y[i];
  bool lt = false, done = false; for (int i = 0; i < n && i < m && !done; ++i) if (x[i] != y[i]) { lt = x[i] < y[i]; done = true; } if (!done) lt = n < m; bool gt = !eq && !lt;
  v::ensure((a == b) == eq && (a != b) == !eq, "equal when the elements are"); v::ensure((a < b) == lt && (a >= b) == !lt && (a > b) == gt && (a <= b) == !gt, "ordered as the sequences of their elements");
}
CONTRACT(cmp_contig) { int d[8]; for (int & x : d) x = int(v::range("x", 0, 2)); int n = int(v::choose("n", 1, 2)), o = int(v::choose("o", 0, 3)); u::array_view<int, 2> a(d, {n, 2}), b(d + o, {2, 2}); cmp(a, b); }
CONTRACT(cmp_strided) { int d[8]; for (int & x : d) x = int(v::range("x", 0, 2)); ix<2> bs{2, 2}; ix<2> s{P(v::choose("s", 0, 3)), P(v::choose("t", 0, 3))}; int o = int(v::choose("o", 0, 1)); u::strided_array_view<int, 2> a(d, bs, ix<2>{2, 1}), b(d + o, bs, s); cmp(a, b); }
CONTRACT(cmp_strided_size) { int d[8]; for (int & x : d) x = int(v::range("x", 0, 2)); ix<2> p{P(v::choose("p", 0, 2)), 2}, q{2, P(v::choose("q", 1, 2))}; u::strided_array_view<int, 2> a(d, p, ix<2>{2, 1}); u::strided_array_view<const int, 2> b(d + 1, q, ix<2>{3, 2}); cmp(a, b); cmp(b, a); }
CONTRACT(cmp_ranks) { int d[8]; for (int & x : d) x = int(v::range("x", 0, 2)); u::array_view<int, 2> a(d, {2, 2}); u::array_view<int, 1> b(d + 2, {P(v::choose("n", 3, 5))}); cmp(a, b); u::strided_array_view<int, 2> e(a); u::strided_array_view<int, 1> f(b); cmp(e, f); }
CONTRACT(cmp_static) { int d[8]; for (int & x : d) x = int(v::range("x", 0, 2)); int o = int(v::choose("o", 0, 2)); u::static_array_view<int, 2, 2> a(d), b(d + o); cmp(a, b); u::static_array_view<int, 3, 1> c(d + o); cmp(a, c); u::static_array_view<const int, 2, 2> e; v::ensure(&(e = a) == &e && e.data() == d, "assignment of a view"); }
#endif
