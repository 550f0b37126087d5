// Bounded concrete cross-check driver: argv = entry seed tier. Each test evaluates the contract's
// definition (written independently of the code) on generated inputs of the real function.
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <csignal>
#include <cstdarg>
#include <string>
#include <vector>
#include <map>
#include <functional>
#include <random>
#include <unistd.h>
extern "C" void __sanitizer_set_death_callback(void (*)(void));
static char nv_cur[8192]; static long nv_cases; static int nv_fails; static std::string nv_entry;
static std::mt19937_64 nv_rng; static bool nv_thorough;
static void nv_flush() { printf("C %ld\n", nv_cases); fflush(stdout); }
static void nv_death() { printf("D mem,ub %s\n", nv_cur); nv_flush(); }
static void nv_sig(int s) { char b[8400]; int n = snprintf(b, sizeof b, "D %s signal %d: %s\nC %ld\n", s == SIGALRM ? "term" : "mem,ub,exc,term", s, nv_cur, nv_cases); (void)!write(1, b, n); _exit(3); }
static void nv_in(const char* f, ...) { va_list a; va_start(a, f); vsnprintf(nv_cur, sizeof nv_cur, f, a); va_end(a); ++nv_cases; }
static void nv_fail(const char* tag, const char* f, ...) {
  if (++nv_fails > 20) return;
  char b[4096]; va_list a; va_start(a, f); vsnprintf(b, sizeof b, f, a); va_end(a);
  printf("F %s %s; input: %s\n", tag, b, nv_cur); fflush(stdout);
}
#define REQ(tag, c, ...) do { if (!(c)) nv_fail(tag, __VA_ARGS__); } while (0)
static std::string nv_q(const std::string& s) { std::string r = "\""; char b[8]; for (unsigned char c : s) { if (c >= 32 && c < 127 && c != '"' && c != '\\') r += char(c); else { snprintf(b, 8, "\\x%02x", c); r += b; } if (r.size() > 600) { r += "..."; break; } } return r + "\""; }
static size_t nv_r(size_t n) { return n ? nv_rng() % n : 0; }
static std::map<std::string, std::function<void()>>& nv_tab() { static std::map<std::string, std::function<void()>> t; return t; }
struct NvReg { NvReg(const char* n, std::function<void()> f) { nv_tab()[n] = f; } };
#define TEST(name) static void t_##name(); static NvReg r_##name(#name, t_##name); static void t_##name()
// random bytes from a small alphabet (collisions matter), sometimes arbitrary
static std::string nv_bytes(size_t n, const char* alpha = nullptr) {
  std::string s; for (size_t i = 0; i < n; ++i) { char c; if (alpha) c = alpha[nv_r(strlen(alpha))]; else switch (nv_r(4)) { case 0: c = "ab"[nv_r(2)]; break; case 1: c = " \n=/"[nv_r(4)]; break; default: c = char(nv_r(256)); } s += c; } return s; }
// every string over alpha of length <= n
static void nv_all(const std::string& alpha, size_t n, const std::function<void(const std::string&)>& f, std::string cur = "") {
  f(cur); if (cur.size() < n) for (char c : alpha) nv_all(alpha, n, f, cur + c); }
#ifndef NV_SETUP
#define NV_SETUP
#endif
int main(int argc, char** argv) {
  if (argc < 2) { for (auto& p : nv_tab()) puts(p.first.c_str()); return 0; }
  nv_entry = argv[1]; nv_rng.seed((argc > 2 ? atol(argv[2]) : 1) * 1000003 + std::hash<std::string>()(nv_entry) % 100003); nv_thorough = argc > 3 && !strcmp(argv[3], "thorough");
  __sanitizer_set_death_callback(nv_death);
  for (int s : {SIGALRM, SIGABRT, SIGFPE, SIGILL}) signal(s, nv_sig);
  alarm(nv_thorough ? 300 : 60);
  NV_SETUP
  auto i = nv_tab().find(nv_entry);
  if (i == nv_tab().end()) { printf("N\n"); return 0; }
  i->second();
  nv_flush();
  return 0;
}
