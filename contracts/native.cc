// Native runtime of the intrinsics: replay of a recorded input, or seeded random inputs.
#include "v.h"
#include <cmath>
#include <csetjmp>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <string>
#include <vector>

extern "C" void __sanitizer_set_death_callback(void (*)());
extern "C" const char * __asan_default_options() { return "detect_leaks=0:handle_abort=1:allocator_may_return_null=1:detect_stack_use_after_return=1:check_initialization_order=0"; }
extern "C" const char * __ubsan_default_options() { return "print_stacktrace=0:halt_on_error=1"; }

namespace {
struct entry { const char * n; void (*f)(); };
std::vector<entry> & table() { static std::vector<entry> t; return t; }
struct rec { std::string kind, name; std::string val; };
std::vector<rec> script;        // replay mode
size_t pos = 0;
bool replay = false;
uint64_t rs = 1;
std::vector<rec> drawn;
const char * outfile = nullptr;
const char * current = "";
jmp_buf jb;

uint64_t rnd() { rs ^= rs << 13; rs ^= rs >> 7; rs ^= rs << 17; return rs * 0x2545F4914F6CDD1DULL; }

void dump(const char * why) {
  if (!outfile) return;
  FILE * f = fopen(outfile, "w");
  if (!f) return;
  fprintf(f, "contract %s\nwhy %s\n", current, why);
  for (auto & r : drawn) fprintf(f, "in %s %s %s\n", r.kind.c_str(), r.name.c_str(), r.val.c_str());
  fclose(f);
}
void death() { dump("sanitizer report or abnormal termination"); }

bool next(const char * kind, const char * name, std::string & v) {
  if (!replay) return false;
  if (pos >= script.size()) return false;
  v = script[pos++].val;
  (void)kind; (void)name;
  return true;
}
void note(const char * kind, const char * name, const std::string & v) { drawn.push_back({kind, name, v}); }

[[noreturn]] void skip() { longjmp(jb, 2); }
[[noreturn]] void bad(const char * m) {
  printf("NATIVE-FAIL contract=%s obligation=%s\n", current, m);
  fflush(stdout);
  dump(m);
  longjmp(jb, 1);
}
double draw_real() {
  switch (rnd() % 8) {
    case 0: return double(int(rnd() % 5)) - 2;
    case 1: return double(int(rnd() % 65)) / 32. ;
    default: return (double(int(rnd() % 1281)) - 640) / 128.;
  }
}
int64_t draw_int(int bits) {
  int64_t v;
  switch (rnd() % 6) {
    case 0: v = int64_t(rnd()); break;
    case 1: { static const int64_t k[] = {0, 1, -1, 2, INT64_MAX, INT64_MIN, 127, 128, 255, 256, 32767, 2147483647LL, -2147483648LL, 4294967295LL}; v = k[rnd() % 14]; break; }
    default: v = int64_t(rnd() % 33) - 16;
  }
  if (bits == 8) return int8_t(v);
  if (bits == 16) return int16_t(v);
  if (bits == 32) return int32_t(v);
  return v;
}
template<int B> int64_t geti(const char * n) {
  std::string s; char k[8]; snprintf(k, sizeof k, "i%d", B);
  int64_t v;
  if (next(k, n, s)) v = (int64_t)strtoull(s.c_str(), nullptr, 10);
  else v = draw_int(B);
  note(k, n, std::to_string((unsigned long long)v & (B == 64 ? ~0ULL : ((1ULL << B) - 1))));
  return v;
}
} // namespace

namespace vn { reg::reg(const char * n, void (*f)()) { table().push_back({n, f}); } }

extern "C" {
double __v_real(const char * n) {
  std::string s; double v;
  if (next("real", n, s)) v = strtod(s.c_str(), nullptr); else v = draw_real();
  char b[64]; snprintf(b, sizeof b, "%.17g", v);
  note("real", n, b);
  return v;
}
static void * sh_p; static size_t sh_n; static unsigned char sh_old[256];
void __v_shared(void * p, size_t n, int64_t, int64_t) { sh_p = p; sh_n = n; memcpy(sh_old, p, n); }
void __v_unshare(void *) {}
int64_t __v_nev() { return 1; }
void __v_ev(int64_t, void * o, void * n) { memcpy(o, sh_old, sh_n); memcpy(n, sh_p, sh_n); }
int64_t __v_evord(int64_t) { return 5; }
bool __v_seen(void *) { return false; }
int64_t __v_nlocks() { return 0; }
double __v_fresh(const char * n) { return draw_real(); }
int8_t __v_i8(const char * n) { return geti<8>(n); }
int16_t __v_i16(const char * n) { return geti<16>(n); }
int32_t __v_i32(const char * n) { return geti<32>(n); }
int64_t __v_i64(const char * n) { return geti<64>(n); }
bool __v_bool(const char * n) {
  std::string s; bool v;
  if (next("bool", n, s)) v = atoi(s.c_str()); else v = rnd() >> 40 & 1;
  note("bool", n, v ? "1" : "0");
  return v;
}
int64_t __v_choose(const char * n, int64_t lo, int64_t hi) {
  std::string s; int64_t v;
  if (next("choose", n, s)) v = atoll(s.c_str()); else v = lo + int64_t((rnd() >> 20) % uint64_t(hi - lo + 1));
  note("choose", n, std::to_string(v));
  return v;
}
int64_t __v_range(const char * n, int64_t lo, int64_t hi) {
  std::string s; int64_t v;
  if (next("range", n, s)) v = atoll(s.c_str());
  else {
    uint64_t r = rnd() >> 16, w = uint64_t(hi - lo);
    if (w == ~0ULL) v = draw_int(64);
    else if (rnd() % 8 == 0) { int64_t k[4] = {lo, hi, 0, 1}; v = k[r % 4]; if (v < lo || v > hi) v = lo; }
    else if (w > 64 && rnd() % 2) { v = int64_t(r % 33) - 16; if (v < lo || v > hi) v = lo + int64_t(r % (w + 1)); }
    else v = lo + int64_t(r % (w + 1));
  }
  note("range", n, std::to_string(v));
  return v;
}
void __v_assume(bool c) { if (!c) skip(); }
void __v_nonzero(double x) { if (std::fabs(x) < 1e-3) skip(); }
void __v_assert(bool c, const char * m) { if (!c) bad(m); }
static void cmp(double a, double b, double tol, const char * m) {
  if (a == b || (a != a && b != b)) return;
  double s = 1 + std::fmax(std::fabs(a), std::fabs(b));
  if (std::isfinite(a) && std::isfinite(b) && std::fabs(a - b) <= tol * s) return;
  char t[512]; snprintf(t, sizeof t, "%s (%.17g vs %.17g)", m, a, b);
  bad(t);
}
void __v_eq(double a, double b, const char * m) { cmp(a, b, 1e-6, m); }
void __v_feq(double a, double b, const char * m) { cmp(a, b, 2e-3, m); }
void __v_cover(const char *) {}
void __v_bounded(const char *) {}
void __v_native_only(const char *) {}
void __v_fail(const char * m) { bad(m); }
}

// usage: prog replay FILE OUT | prog random SEED COUNT OUT [contract...]
int main(int argc, char ** argv) {
  if (argc == 2 && !strcmp(argv[1], "list")) { for (auto & e : table()) puts(e.n); return 0; }
  if (argc < 3) return 3;
  setvbuf(stdout, nullptr, _IOLBF, 0);
  __sanitizer_set_death_callback(death);
  if (!strcmp(argv[1], "replay")) {
    replay = true;
    outfile = argc > 3 ? argv[3] : nullptr;
    FILE * f = fopen(argv[2], "r");
    if (!f) return 3;
    static char line[4096]; std::string c;
    while (fgets(line, sizeof line, f)) {
      char a[64], b[1024], d[1024];
      if (sscanf(line, "contract %1000s", b) == 1) c = b;
      else if (sscanf(line, "in %60s %1000s %1000s", a, b, d) == 3) script.push_back({a, b, d});
    }
    fclose(f);
    for (auto & e : table()) if (c == e.n) {
      current = e.n;
      int r = setjmp(jb);
      if (r == 0) {
        try { e.f(); } catch (...) { printf("NATIVE-FAIL contract=%s obligation=uncaught exception\n", current); dump("uncaught exception"); return 1; }
        printf("REPLAY-OK\n");
        return 0;
      }
      if (r == 2) { printf("REPLAY-PRECONDITION\n"); return 2; }
      return 1;
    }
    return 3;
  }
  uint64_t seed = strtoull(argv[2], nullptr, 10);
  static long count; count = atol(argv[3]);
  outfile = argc > 4 ? argv[4] : nullptr;
  static int rc; rc = 0;
  static size_t i; static long k, ok, skipped;
  for (i = 0; i < table().size(); ++i) {
    auto & e = table()[i];
    if (argc > 5) { bool in = false; for (int j = 5; j < argc; ++j) in = in || !strcmp(argv[j], e.n); if (!in) continue; }
    current = e.n; ok = skipped = 0;
    for (k = 0; k < count || (ok < count / 8 && k < count * 20); ++k) {
      rs = (seed * 1000003 + i * 7919 + k + 1) * 0x9E3779B97F4A7C15ULL | 1;
      for (int w = 0; w < 8; ++w) rnd();
      drawn.clear();
      int r = setjmp(jb);
      if (r == 0) {
        try { table()[i].f(); ++ok; } catch (...) { printf("NATIVE-FAIL contract=%s obligation=uncaught exception\n", current); dump("uncaught exception"); r = 1; }
        if (r == 0) continue;
      }
      if (r == 2) { ++skipped; continue; }
      rc = 1; break;
    }
    printf("NATIVE contract=%s ok=%ld skipped=%ld\n", current, ok, skipped);
    if (rc) return rc;
  }
  return 0;
}
