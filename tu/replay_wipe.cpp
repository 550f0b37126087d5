#include "wipe.cpp"
#include "native.h"
#include <new>
// the storage is looked at on its way to the allocator
static const void* watch; static std::string* seen; static size_t watch_n; static bool freed;
static void look(void* p) { if (p && p == watch) { freed = true; seen->assign((const char*)p, watch_n); } }
void* operator new(size_t n) { void* p = malloc(n ? n : 1); if (!p) throw std::bad_alloc(); return p; }
void operator delete(void* p) noexcept { look(p); free(p); }
void operator delete(void* p, size_t) noexcept { look(p); free(p); }
// build a handle over a buffer of capacity >= cap, holding len bytes seen from off; every byte set to the fill pattern
TEST(e_wipe) {
  const unsigned char pat[4] = {0x00, 0x5a, 0xff, 0x33};
  for (size_t cap : {1, 2, 3, 7, 16, 17, 33, 64, 200}) for (size_t len : {size_t(0), size_t(1), cap / 2, cap ? cap - 1 : 0}) for (size_t off : {size_t(0), len / 2, len}) for (int others = 0; others < 2; ++others) {
    nv_in("capacity %zu, length %zu, offset %zu, %d other handles", cap, len, off, others);
    std::vector<std::string> got; bool ok = true;
    for (unsigned char c : pat) {
      alignas(String) static char mem[sizeof(String)], mem2[sizeof(String)];
      String* s = new (mem) String(); s->reserve(cap); std::string fill(len, char(c)); for (char x : fill) *s += x;
      for (size_t i = 0; i < off; ++i) ++*s;
      char* b = const_cast<char*>(s->real_begin()); size_t n = s->capacity(); memset(b, c, n);
      String* o = others ? new (mem2) String(*s) : nullptr;
      std::string r; watch = b; watch_n = n; seen = &r; freed = false;
      e_wipe(s);
      if (others) { watch = nullptr; if (freed) { nv_fail("mem", "storage still in use released"); ok = false; break; } std::string v(b, n); if (v != std::string(n, char(c))) nv_fail("wipe,perm,val", "storage of another handle was changed"); o->~String(); continue; }
      watch = nullptr; if (!freed) { nv_fail("leak,wipe", "storage not released"); ok = false; break; }
      got.push_back(r);
    }
    if (ok && !others) { size_t n = got[0].size(); for (size_t i = 0; i < n; ++i) { bool kept = true; for (int k = 0; k < 4; ++k) if (i >= got[k].size() || (unsigned char)got[k][i] != pat[k]) kept = false; if (kept) { nv_fail("wipe", "byte %zu of %zu still holds its contents when the storage is released", i, n); break; } } }
  }
}
