// Native replay: loads the harness compiled to machine code from the same
// crates and runs one entry with concrete inputs.
// usage: runner SO ENTRY < lines "name value"
// output: "obs NAME VALUE" ..., then "end return|assert TAG|assume|missing ..."
#include <boost/multiprecision/cpp_int.hpp>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <csignal>
#include <csetjmp>
#include <dlfcn.h>
#include <iostream>
#include <map>
#include <string>
#include <unistd.h>
#include <sys/resource.h>
typedef boost::multiprecision::cpp_int Z;
static std::map<std::string, Z> vals;
static std::map<std::string, int> cnt;
static sigjmp_buf tryBuf; static bool trying = false;
static Z next(const char *n, size_t len) { std::string s(n, len); std::string f = s + "#" + std::to_string(cnt[s]++); auto it = vals.find(f); return it == vals.end() ? Z(0) : it->second; }
static void fin(const std::string &s) { printf("end %s\n", s.c_str()); fflush(stdout); _exit(0); }
static Z rd(const uint64_t *p, unsigned L) { Z r = 0; for (int i = L - 1; i >= 0; i--) r = (r << 64) | p[i]; return r; }
static void wr(uint64_t *p, unsigned L, Z v) { for (unsigned i = 0; i < L; i++) { p[i] = (uint64_t)(v & 0xffffffffffffffffull); v >>= 64; } }
extern "C" {
uint64_t sx_u64(const char *n, size_t l, uint64_t lo, uint64_t hi) { if (lo == hi) return lo; Z v = next(n, l); uint64_t x = (uint64_t)v; if (x < lo || x > hi) fin("assume range " + std::string(n, l)); return x; }
void sx_bytes(const char *n, size_t l, uint8_t *p, size_t k) { Z v = next(n, l); for (size_t i = 0; i < k; i++) { p[i] = (uint8_t)(v & 255); v >>= 8; } }
uint64_t sx_choose(const char *n, size_t l, uint64_t k) { if (k <= 1) return 0; Z v = next(n, l); uint64_t x = (uint64_t)v; if (x >= k) fin("assume choose"); return x; }
void sx_assume(bool c) { if (!c) fin("assume"); }
void sx_assert(bool c, const char *t, size_t l) { if (!c) fin("assert " + std::string(t, l)); }
void sx_cover(const char *t, size_t l) { printf("cover %.*s\n", (int)l, t); }
void sx_observe(const char *n, size_t l, uint64_t v) { printf("obs %.*s %llu\n", (int)l, n, (unsigned long long)v); }
// 1 if f(p) panicked (the code aborts on panic)
uint64_t sx_try(void (*f)(void *), void *p) { if (sigsetjmp(tryBuf, 1)) { trying = false; return 1; } trying = true; f(p); trying = false; return 0; }
uint64_t sx_concretize(uint64_t v) { return v; }
uint64_t sx_ite(bool c, uint64_t a, uint64_t b) { return c ? a : b; }
void sx_fork(uint64_t) {}
void sx_end() { fin("return"); }
void sx_fresh(const char *n, size_t l, uint64_t L, uint64_t *o) { wr(o, L, next(n, l)); }
uint64_t sx_wide(uint64_t op, uint64_t L, const uint64_t *a, const uint64_t *b, const uint64_t *c, uint64_t *o) {
  Z x = rd(a, L), y = b ? rd(b, L) : Z(0), z = c ? rd(c, L) : Z(0), lim = Z(1) << (64 * L), r;
  switch (op) {
    case 0: r = x + y; wr(o, L, r % lim); return r < lim;
    case 1: if (x < y) { wr(o, L, (x + lim - y) % lim); return 0; } wr(o, L, x - y); return 1;
    case 2: if (z == 0) { wr(o, L, lim - 1); return 0; } r = x * y / z; wr(o, L, r % lim); return r < lim;
    case 3: return x < y; case 4: return x == y;
    case 5: wr(o, L, y == 0 ? Z(lim - 1) : Z(x / y)); return 1;
    case 6: if (z == 0) { wr(o, L, lim - 1); return 0; } r = (x * y + z - 1) / z; wr(o, L, r % lim); return r < lim;
    case 7: r = x * y; wr(o, L, r % lim); return r < lim;
    case 8: r = sqrt(Z(x * y)); wr(o, L, r % lim); return r < lim; }
  fin("badop"); return 0; }
}
static void onsig(int) { if (trying) siglongjmp(tryBuf, 1); const char *m = "end panic\n"; write(1, m, strlen(m)); _exit(0); }
int main(int argc, char **argv) {
  std::string n, v; while (std::cin >> n >> v) vals[n] = Z(v);
  setvbuf(stdout, nullptr, _IONBF, 0);
  struct rlimit rl{0, 0}; setrlimit(RLIMIT_CORE, &rl);
  freopen("/dev/null", "w", stderr);
  void *h = dlopen(argv[1], RTLD_NOW | RTLD_GLOBAL); if (!h) { printf("end dlopen %s\n", dlerror()); return 3; }
  auto f = (void (*)())dlsym(h, argv[2]); if (!f) { printf("end noentry\n"); return 3; }
  for (int s : {SIGABRT, SIGILL, SIGSEGV, SIGBUS, SIGFPE, SIGTRAP}) signal(s, onsig);
  f(); fin("return"); }
