// Threads with a handle each on the same storage: run under ThreadSanitizer (replay of refuted reference count obligations).
#include "String.cpp"
#include "ReferenceCountedArray.cpp"
#include "Array.h"
#include <atomic>
#include <cstdio>
#include <cstdlib>
#include <thread>
#include <vector>
using namespace bd;
typedef void (*Act)(String&);
static thread_local volatile size_t sink;
static const char TEXT[] = "some text that the threads share, long enough";
#define OP(n, ...) static void n(String& s) { __VA_ARGS__ }
OP(drop, sink = s.length();)
OP(readdrop, char c = *s.cbegin(); sink = c;)
OP(copy, String t(s); sink = t.length();)
OP(slice, String t(static_cast<const String&>(s)(1, 3)); sink = t.length();)
OP(assign, String t("x"); t = s; s = t;)
OP(append, s += "more"; sink = *s.cbegin();)
OP(write_, s[0] = 'Q'; sink = *s.cbegin();)
OP(erase_, s = String("other");)
OP(clear_, s.clear(); s += 'a';)
OP(cstr, sink = s.c_str()[0];)
OP(reserve_, s.reserve(200); s += 'b';)
OP(mut, *s.begin() = 'z';)
static const struct { const char* n; Act f; } ACTS[] = {{"drop", drop}, {"read and drop", readdrop}, {"copy", copy}, {"slice", slice}, {"assign", assign},
  {"append", append}, {"write", write_}, {"assign another text", erase_}, {"clear and append", clear_}, {"c_str", cstr}, {"reserve and append", reserve_}, {"write through begin()", mut}};
static void pair(int a, int b, int rounds) {
  printf("H thread 1: %s; thread 2: %s; each drops its handle afterwards\n", ACTS[a].n, ACTS[b].n); fflush(stdout);
  for (int r = 0; r < rounds; ++r) {
    String base(TEXT); String *x = new String(base), *y = new String(base); bool keep = r & 1; if (!keep) base = String("q");
    std::atomic<int> go(0);
    auto run = [&go](String* s, Act f) { ++go; while (go.load(std::memory_order_relaxed) < 2) {} f(*s); delete s; };
    std::thread t(run, x, ACTS[a].f), u(run, y, ACTS[b].f); t.join(); u.join();
    if (keep && (base.rcount() != 1 || strcmp(base.c_str(), TEXT))) { printf("F the third handle has count %d and reads \"%.60s\"\n", (int)base.rcount(), base.cbegin()); fflush(stdout); _Exit(3); }
  }
}
int main(int argc, char** argv) {
  int rounds = atoi(argv[1]), n = sizeof ACTS / sizeof *ACTS;
  // many copies at once first: lost updates of the counter
  { String base(TEXT); std::vector<std::thread> t; printf("H 8 threads copy the same string 20000 times\n"); fflush(stdout);
    for (int i = 0; i < 8; ++i) t.emplace_back([&base] { for (int k = 0; k < 20000; ++k) { String c(base); sink = c.length(); } });
    for (auto& x : t) x.join();
    if (base.rcount() != 1) { printf("F the count is %d afterwards\n", (int)base.rcount()); fflush(stdout); _Exit(3); } }
  for (int a = 0; a < n; ++a) for (int b = a; b < n; ++b) pair(a, b, rounds);
  printf("D\n"); return 0;
}
