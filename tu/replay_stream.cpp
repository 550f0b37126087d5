#include "stream.cpp"
#include "native.h"
#include <fcntl.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <set>
// system calls run for real inside the scratch directory, except the ones the driver makes fail
static unsigned long failmask; static int ncall; static bool traced; static std::vector<std::string> failed; static std::set<int> fds; static std::map<void*, size_t> maps; static std::set<int> mine;
static bool failing(const char* k) { if (!traced) return false; bool f = ncall < 60 && (failmask >> ncall & 1); ++ncall; if (f) failed.push_back(k); return f; }
extern "C" {
int __real_open(const char*, int, ...); int __real_close(int); off_t __real_lseek(int, off_t, int); int __real_ftruncate(int, off_t); void* __real_mmap(void*, size_t, int, int, int, off_t); int __real_munmap(void*, size_t);
int __wrap_open(const char* p, int fl, ...) { va_list a; va_start(a, fl); int m = va_arg(a, int); va_end(a); if (failing("open")) { errno = EIO; return -1; } int r = __real_open(p, fl, m); if (traced && r >= 0) fds.insert(r); return r; }
int __wrap_close(int fd) { bool f = failing("close"); if (traced && !fds.erase(fd)) { REQ("file", false, "close of a descriptor it does not own"); if (mine.count(fd)) return -1; } int r = __real_close(fd); if (f) { errno = EIO; return -1; } return r; }
off_t __wrap_lseek(int fd, off_t o, int w) { if (failing("lseek")) return -1; return __real_lseek(fd, o, w); }
int __wrap_ftruncate(int fd, off_t n) { if (failing("ftruncate")) return -1; return __real_ftruncate(fd, n); }
void* __wrap_mmap(void* a, size_t n, int p, int f, int fd, off_t o) { if (failing("mmap")) return MAP_FAILED; void* r = __real_mmap(a, n, p, f, fd, o); if (traced && r != MAP_FAILED) maps[r] = n; return r; }
int __wrap_munmap(void* a, size_t n) { bool f = failing("munmap"); if (traced) { auto i = maps.find(a); REQ("file", i != maps.end() && i->second == n, "munmap of %zu bytes", n); if (i != maps.end()) { n = i->second; maps.erase(i); } } int r = __real_munmap(a, n); return f ? -1 : r; }
ssize_t __real_write(int, const void*, size_t); ssize_t __real_read(int, void*, size_t);
ssize_t __wrap_write(int fd, const void* b, size_t n) { if (failing("write")) return -1; if (traced && n > 1 && nv_r(3) == 0) n = 1 + nv_r(n); return __real_write(fd, b, n); }
ssize_t __wrap_read(int fd, void* b, size_t n) { if (failing("read")) return -1; if (traced && n > 1 && nv_r(3) == 0) n = 1 + nv_r(n); return __real_read(fd, b, n); }
}
static std::string S_(const String& s) { return std::string(s.begin(), s.length()); }
struct Mod { std::string d; size_t pos = 0; };
static std::string out_of(void (*f)(String*, Stream*), Stream* s) { alignas(String) char m[sizeof(String)]; f((String*)m, s); std::string r = S_(*(String*)m); ((String*)m)->~String(); return r; }
static void same(const char* tag, Stream& s, const Mod& m) { std::string v = S_(s.str); REQ(tag, v == m.d, "stream holds %s, expected %s", nv_q(v).c_str(), nv_q(m.d).c_str()); REQ(tag, s.tell() == m.pos && e_st_length(&s) == v.size(), "cursor at %zu, expected %zu", s.tell(), m.pos); }
static std::string slurp(const char* n) { std::string r; FILE* f = fopen(n, "rb"); if (!f) return "<none>"; char b[4096]; size_t k; while ((k = fread(b, 1, sizeof b, f))) r.append(b, k); fclose(f); return r; }
static void spit(const char* n, const std::string& s) { FILE* f = fopen(n, "wb"); fwrite(s.data(), 1, s.size(), f); fclose(f); }
static std::string data() { switch (nv_r(6)) { case 0: return ""; case 1: return nv_bytes(nv_r(40), "ab\n"); case 2: return nv_bytes(1020 + nv_r(10), "xy\n"); case 3: return nv_bytes(4090 + nv_r(10)); default: return nv_bytes(nv_r(12)); } }
static void history(int ops, bool files) {
  alignas(Stream) static char mem[sizeof(Stream)]; Stream* s = (Stream*)mem; Mod m; std::string h;
  switch (nv_r(4)) { case 0: e_st_ctor(s); h = "ctor"; break; case 1: { int n = int(nv_r(40)) - 4; if (nv_r(9) == 0) n = 3000; e_st_ctor_int(s, n); h = "ctor(" + std::to_string(n) + ")"; break; }
    case 2: { m.d = data(); String o(m.d.data(), m.d.size()); e_st_ctor_str(s, &o); h = "ctor " + nv_q(m.d); REQ("stream", S_(o) == m.d, "source changed"); break; }
    default: { m.d = data(); String o(m.d.data(), m.d.size()); e_st_ctor_strr(s, &o); h = "ctor&& " + nv_q(m.d); } }
  same("stream", *s, m); String keep(s->str); std::string keepv = m.d;
  for (int i = 0; i < ops; ++i) {
    int op = files ? 20 + nv_r(4) : nv_r(16); char b[200];
    if (files && nv_r(4) == 0) op = 4 + nv_r(8);
    if (op <= 3) { std::string x = data(); String o(x.data(), x.size()); h += std::string("; puts") + std::to_string(op) + nv_q(x); nv_in("%s", h.c_str()); bool thrown = false;
      try { if (op == 0) e_st_puts(s, &o); else if (op == 1) e_st_putsr(s, &o); else if (op == 2) e_st_shl(s, &o); else e_st_shlr(s, &o); } catch (std::out_of_range&) { thrown = true; }
      if (m.pos > m.d.size()) { REQ("stream", thrown || x.empty(), "writing beyond the data accepted"); }
      else { REQ("stream", !thrown, "write rejected"); if (m.pos + x.size() > m.d.size()) m.d.resize(m.pos + x.size()); m.d.replace(m.pos, x.size(), x); m.pos += x.size(); }
      if (!thrown && m.pos > m.d.size()) m.pos += x.size(); if (op == 0 || op == 2) REQ("stream", S_(o) == x, "source changed"); }
    else if (op <= 7) { size_t left = m.pos < m.d.size() ? m.d.size() - m.pos : 0, n = nv_r(5) ? nv_r(left + 3) : nv_r(2) ? size_t(-1) : 99999999; char d = op == 5 ? "a\n\x01\xff"[nv_r(4)] : op >= 6 ? '\n' : 0; size_t lim = n;
      snprintf(b, sizeof b, "; %s(%zd,%d)", op == 4 ? "read" : op == 5 ? "read" : "getline", n, d); if (op == 7) { lim = -1; snprintf(b, sizeof b, "; getline()"); } if (op == 6 && n == 99999999) lim = -1; h += b; nv_in("%s", h.c_str());
      alignas(String) char rm[sizeof(String)]; String* r = (String*)rm; if (op == 4) { if (nv_r(2)) e_st_read0(r, s, n); else e_st_read(r, s, n, 0); } else if (op == 5) e_st_read(r, s, n, d); else if (op == 6) e_st_getline(r, s, n); else e_st_getline0(r, s);
      std::string got = S_(*r); r->~String(); size_t k = std::min(lim, left); if (d) for (size_t j = 0; j < k; ++j) if (m.d[m.pos + j] == d) { k = j + 1; break; }
      std::string want = k ? m.d.substr(m.pos, k) : ""; REQ("stream", got == want, "returned %s, expected %s", nv_q(got).c_str(), nv_q(want).c_str()); m.pos += k; }
    else if (op <= 10) { int w = nv_r(8) ? nv_r(3) : 3 + nv_r(5), o = nv_r(3) ? int(nv_r(m.d.size() + 4)) - 2 : nv_r(2) ? int(nv_rng()) : nv_r(2) ? 2147483647 : -2147483647 - 1; long cap = s->capacity(), p = m.pos, t = w == 0 ? o : w == 1 ? p + o : w == 2 ? cap - o : p; t = t < 0 ? 0 : t > cap ? cap : t; snprintf(b, sizeof b, "; seek(%d,%d)", o, w); h += b; nv_in("%s", h.c_str());
      int r = e_st_seek(s, o, w); m.pos = t; REQ("stream", r == int(t), "seek returned %d, expected %ld", r, t); }
    else if (op == 11) { h += "; truncate"; nv_in("%s", h.c_str()); e_st_truncate(s); if (m.pos < m.d.size()) m.d.resize(m.pos); }
    else if (op == 12) { if (nv_r(3)) { size_t n = nv_r(3000); snprintf(b, sizeof b, "; reserve(%zu)", n); h += b; nv_in("%s", h.c_str()); e_st_reserve(s, n); REQ("stream", s->capacity() >= n, "capacity"); } else { h += "; clear"; nv_in("%s", h.c_str()); e_st_clear(s); m = Mod(); } }
    else if (op == 13) { h += "; peek/str"; nv_in("%s", h.c_str()); std::string p = out_of(e_st_peek, s), w = m.pos < m.d.size() ? m.d.substr(m.pos) : ""; REQ("stream", p == w, "peek %s", nv_q(p).c_str()); REQ("stream", out_of((void (*)(String*, Stream*))e_st_str, s) == m.d, "str"); REQ("stream", e_st_not(s) == m.d.empty(), "operator!"); }
    else if (op == 14) { h += "; copy+modify copy"; nv_in("%s", h.c_str()); alignas(Stream) char cm[sizeof(Stream)]; Stream* c = (Stream*)cm; e_st_ctor_copy(c, s); same("stream", *c, m); String z("zz"); try { c->puts(z); } catch (std::out_of_range&) {} c->~Stream(); }
    else if (op == 15) { h += "; swap/assign/move"; nv_in("%s", h.c_str()); alignas(Stream) char cm[sizeof(Stream)]; Stream* c = (Stream*)cm; Mod n; n.d = data(); String o(n.d.data(), n.d.size()); e_st_ctor_str(c, &o); if (nv_r(2)) { e_st_swap(s, c); same("stream", *c, m); m = n; } else { e_st_assign(c, s); same("stream", *c, m); } e_st_dtor(c); if (nv_r(2)) { e_st_ctor_move(c, s); same("stream", *c, m); e_st_dtor(s); e_st_ctor_move(s, c); e_st_dtor(c); } }
    else { failed.clear(); fds.clear(); maps.clear(); ncall = 0; failmask = nv_r(2) ? 0 : nv_r(4) ? 1ul << nv_r(5) : nv_rng(); bool byname = op & 1; std::string old = data(); spit("f", old); int fd = byname ? -1 : __real_open("f", O_RDWR); mine.clear(); if (fd >= 0) mine.insert(fd); if (fd >= 0 && nv_r(2)) __real_lseek(fd, nv_r(10), SEEK_SET); String nm("f");
      snprintf(b, sizeof b, "; %s%s failures=%lu", op < 22 ? "load" : "write", byname ? "(name)" : "(fd)", failmask & 255); h += b; h += " file=" + nv_q(old).substr(0, 60); nv_in("%s", h.c_str());
      bool gone = byname && op < 22 && nv_r(8) == 0; if (gone) { unlink("f"); }
      traced = true; int r = op == 20 ? e_st_load(s, fd) : op == 21 ? e_st_loadf(s, &nm) : op == 22 ? e_st_write(s, fd) : e_st_writef(s, &nm, 0600); traced = false;
      REQ("file", fds.empty(), "descriptor left open"); REQ("file", maps.empty(), "mapping left behind"); for (int x : fds) __real_close(x); for (auto& x : maps) __real_munmap(x.first, x.second);
      bool bad = false, soft = false; for (auto& k : failed) if (op < 22 && (k == "munmap" || k == "close")) soft = true; else bad = true; if (gone) bad = true;
      if (bad) REQ("file", r != 0, "failure of %s not reported", failed.empty() ? "open" : failed[0].c_str()); else if (!soft) REQ("file", r == 0, "failed without a failing call");
      if (op < 22) { if (r == 0) { m.d = old; m.pos = 0; same("file", *s, m); REQ("file", !s->loading, "still loading"); } else { m.d = S_(s->str); m.pos = s->tell(); REQ("file", !s->loading, "still loading after a failure"); } }
      else { same("file", *s, m); if (r == 0) { std::string n = slurp("f"); REQ("file", n == m.d, "file holds %s, expected %s", nv_q(n).c_str(), nv_q(m.d).c_str()); } }
      if (fd >= 0) __real_close(fd); unlink("f"); }
    same("stream", *s, m); if (nv_fails > 5) break;
  }
  REQ("stream", S_(keep) == keepv, "string the stream was built from changed"); e_st_dtor(s);
}
static void many14() { for (int i = 0; i < (nv_thorough ? 30000 : 3500) && nv_fails < 5; ++i) history(1 + nv_r(8), false); }
static void many15() { for (int i = 0; i < (nv_thorough ? 20000 : 2500) && nv_fails < 5; ++i) history(1 + nv_r(4), true); }
#define T14(n) TEST(n) { many14(); }
T14(e_st_ctor) T14(e_st_ctor_str) T14(e_st_ctor_strr) T14(e_st_ctor_copy) T14(e_st_ctor_move) T14(e_st_ctor_int) T14(e_st_assign) T14(e_st_swap) T14(e_st_dtor) T14(e_st_puts) T14(e_st_putsr) T14(e_st_shl) T14(e_st_shlr)
T14(e_st_read) T14(e_st_read0) T14(e_st_getline) T14(e_st_getline0) T14(e_st_peek) T14(e_st_str) T14(e_st_seek) T14(e_st_truncate) T14(e_st_clear) T14(e_st_reserve) T14(e_st_tell) T14(e_st_length) T14(e_st_capacity) T14(e_st_not)
TEST(e_st_load) { many15(); } TEST(e_st_loadf) { many15(); } TEST(e_st_write) { many15(); } TEST(e_st_writef) { many15(); }
