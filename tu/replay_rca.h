// Concrete replay driver for reference counted containers: builds operand states directly, calls one
// entry wrapper on the real code and reports the observable outcome. Included after the entries.
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <csignal>
#include <dlfcn.h>
#include <malloc.h>
#include <unistd.h>
#include <new>
#include <stdexcept>
#include <iostream>
#include <sstream>
#include <vector>
#include <set>
#ifdef RCA_CLASS
// registry of living elements
static std::set<uintptr_t>* g_alive;
static void lf(const char* m) { printf("L %s\n", m); }
static void mark(const void* p, size_t n) { for (size_t i = 0; i < n; ++i) g_alive->insert((uintptr_t)p + i * sizeof(T)); }
static void unmark(const void* p, size_t bytes, bool rep) { static bool busy; if (busy) return; struct G { G() { busy = true; } ~G() { busy = false; } } guard; auto i = g_alive->lower_bound((uintptr_t)p), j = i; while (j != g_alive->end() && *j < (uintptr_t)p + bytes) ++j; if (i != j && rep) lf("storage released while elements in it live"); g_alive->erase(i, j); }
#else
#define mark(p, n)
#define unmark(p, n, r)
#endif
static long g_live = 0, g_fail = -1; static bool g_track = false; static long g_id = 0;
static std::set<void*>* g_set;
static void* dnew(size_t n) {
  if (g_track) { if (n > (64u << 20)) throw std::bad_alloc(); if (g_fail == 0) { g_fail = -1; throw std::bad_alloc(); } if (g_fail > 0) --g_fail; }
  bool tr = g_track; g_track = false; void* p = malloc(n ? n : 1); g_track = tr; if (!p) throw std::bad_alloc();
  memset(p, 0xCB, n);
  if (g_track) { g_track = false; g_set->insert(p); g_track = true; }
  return p;
}
static void ddel(void* p) { if (p && g_set) { bool t = g_track; g_track = false; g_set->erase(p); unmark(p, malloc_usable_size(p), true); g_track = t; } free(p); }
void* operator new(size_t n) { return dnew(n); }
void* operator new[](size_t n) { return dnew(n); }
void operator delete(void* p) noexcept { ddel(p); }
void operator delete[](void* p) noexcept { ddel(p); }
void operator delete(void* p, size_t) noexcept { ddel(p); }
void operator delete[](void* p, size_t) noexcept { ddel(p); }
struct Slot { OBJ* o; bool uninit; int alias; };
static void raw(OBJ* o, AREF* ref, size_t off, size_t len) { new (o) OBJ(); o->Ref = ref; o->offset = off; o->sublen = len; o->my_hash = 0; }
static AREF* mkref(size_t cap, const unsigned char* d) {
  AREF* r = new AREF();
  r->size = cap; r->buf = cap ? (T*)operator new(cap * sizeof(T)) : nullptr; r->refs = 0;
  if (cap) memcpy((void*)r->buf, d, cap * sizeof(T));
  mark(r->buf, cap);
  return r;
}
static std::vector<unsigned char> unhex(const std::string& s) { std::vector<unsigned char> v; if (s == "-") return v;
  for (size_t i = 0; i + 1 < s.size(); i += 2) v.push_back((unsigned char)strtol(s.substr(i, 2).c_str(), 0, 16)); return v; }
static void hex(const void* p, size_t n) { const unsigned char* c = (const unsigned char*)p; if (!n) printf("-"); for (size_t i = 0; i < n; ++i) printf("%02x", c[i]); }
static void term() {
  int k = 3;
  if (auto e = std::current_exception()) { try { std::rethrow_exception(e); } catch (std::out_of_range&) { k = 1; } catch (std::bad_alloc&) { k = 2; } catch (std::length_error&) { k = 2; } catch (...) {} }
  printf("T %ld %d\n", g_id, k); fflush(stdout); _exit(77);
}
static bool okinv(OBJ* o) {
  if (!o->Ref) return o->offset == 0 && o->sublen == 0;
  if (!o->Ref->buf) return o->Ref->size == 0 && o->offset == 0 && o->sublen == 0;
  return o->offset <= o->Ref->size && o->sublen <= o->Ref->size - o->offset;
}
#ifdef RCA_CLASS
struct NoTrack { bool t; NoTrack() : t(g_track) { g_track = false; } ~NoTrack() { g_track = t; } };
extern "C" void el_born(const void* p) noexcept { NoTrack n; if (!g_alive->insert((uintptr_t)p).second) lf("an element is constructed over a living one"); }
extern "C" void el_use(const void* p) noexcept { NoTrack n; if (!g_alive->count((uintptr_t)p)) lf("an element is used while it does not live"); }
extern "C" void el_die(const void* p) noexcept { NoTrack n; if (!g_alive->erase((uintptr_t)p)) lf("an element is destroyed while it does not live"); }
#endif
int main() {
  std::set_terminate(term);
#ifdef RCA_CLASS
  g_alive = new std::set<uintptr_t>();
#endif
  g_set = new std::set<void*>();
  std::string line;
  while (std::getline(std::cin, line)) {
    std::istringstream in(line);
    std::string fn; long failat; int view; size_t ns;
    in >> g_id >> fn >> failat >> view >> ns;
    printf("B %ld\n", g_id); fflush(stdout);
    alarm(4);
    g_set->clear();
    std::vector<Slot> sl; std::vector<OBJ*> handles, others; std::vector<std::vector<unsigned char>> orig; std::vector<AREF*> refs; std::vector<void*> frees;
    for (size_t i = 0; i < ns; ++i) {
      int rep; in >> rep;
      Slot s = { (OBJ*)malloc(sizeof(OBJ)), false, -1 };
      AREF* ref = nullptr;
      if (rep == 5) { s.uninit = true; memset((void*)s.o, 0xCD, sizeof(OBJ)); }
      else if (rep == 3) { int k; in >> k; free(s.o); s.o = sl[k].o; s.alias = k; ref = refs[k]; }
      else {
        size_t cap, off, len; int idx, oth, hf; std::string h;
        in >> idx >> cap >> off >> len >> oth >> hf >> h;
        auto d = unhex(h);
        g_track = true;
        if (rep == 1 || rep == 2) ref = mkref(rep == 1 ? 0 : cap, d.data());
        if (rep == 4) ref = refs[idx];
        g_track = false;
        raw(s.o, ref, off, len); if (ref) ++ref->refs;
        for (int k = 0; k < oth && ref; ++k) {
          OBJ* o = (OBJ*)malloc(sizeof(OBJ)); raw(o, ref, 0, ref->size); ++ref->refs; others.push_back(o); handles.push_back(o);
          orig.push_back(std::vector<unsigned char>((unsigned char*)ref->buf, (unsigned char*)(ref->buf + ref->size)));
        }
        if (hf) s.o->hash();
        handles.push_back(s.o);
      }
      sl.push_back(s); refs.push_back(ref);
    }
    size_t na; in >> na;
    std::vector<uint64_t> a; std::vector<size_t> alen; std::vector<std::pair<char*, std::vector<unsigned char>>> cbuf; std::vector<std::pair<char*, size_t>> wbuf;
    for (size_t i = 0; i < na; ++i) {
      std::string t; in >> t; char k = t[0]; std::string r = t.substr(1); uint64_t v = 0; size_t l = 0;
      if (k == 's') v = (uint64_t)sl[atoi(r.c_str())].o;
      else if (k == 'n') v = strtoull(r.c_str(), 0, 10);
      else if (k == 'b') { auto d = unhex(r); char* p = (char*)malloc(d.size()); if (d.size()) memcpy(p, d.data(), d.size()); v = (uint64_t)p; l = d.size(); cbuf.push_back({p, d}); frees.push_back(p); mark(p, l / sizeof(T)); }
      else if (k == 'm') { auto d = unhex(r); char* p = (char*)malloc(d.size()); memcpy(p, d.data(), d.size()); v = (uint64_t)p; l = d.size(); frees.push_back(p); mark(p, l / sizeof(T)); }
      else if (k == 'e') { int j = atoi(r.c_str()); v = a[j] + alen[j]; }
      else if (k == 'w' || k == 'u') { l = strtoull(r.c_str(), 0, 10); char* p = (char*)malloc(l); memset(p, 0xAA, l); v = (uint64_t)p; wbuf.push_back({p, l}); frees.push_back(p); if (k == 'w') { mark(p, l / sizeof(T)); } }
      else if (k == 'i') { int j; unsigned long x; sscanf(r.c_str(), "%d:%lu", &j, &x); v = (uint64_t)(sl[j].o->Ref->buf + sl[j].o->offset + x); }
      else if (k == 'l') { auto d = unhex(r); char* p = (char*)malloc(d.size()); if (d.size()) memcpy(p, d.data(), d.size()); uint64_t* q = (uint64_t*)malloc(16); q[0] = (uint64_t)p; q[1] = d.size() / sizeof(T); v = (uint64_t)q; cbuf.push_back({p, d}); frees.push_back(p); frees.push_back(q); mark(p, d.size() / sizeof(T)); }
      a.push_back(v); alen.push_back(l);
    }
    a.resize(6);
    auto f = (uint64_t (*)(uint64_t, uint64_t, uint64_t, uint64_t, uint64_t, uint64_t))dlsym(RTLD_DEFAULT, fn.c_str());
    if (!f) { printf("X %ld\n", g_id); return 3; }
    int status = 0; uint64_t ret = 0;
    g_fail = failat; g_track = true;
    try { ret = f(a[0], a[1], a[2], a[3], a[4], a[5]); }
    catch (std::out_of_range&) { status = 1; } catch (std::bad_alloc&) { status = 2; } catch (std::length_error&) { status = 2; } catch (...) { status = 3; }
    g_track = false; g_fail = -1;
    bool dtor = fn == "e_dtor" && status == 0;
    if (dtor) handles.erase(std::find(handles.begin(), handles.end(), sl[0].o));
    printf("R %ld %d %llu\n", g_id, status, (unsigned long long)ret);
    for (auto& s : sl) if (s.uninit && status == 0 && s.alias < 0) handles.push_back(s.o);
    bool bad = false;
    for (auto& s : sl) {
      if (s.alias >= 0) { printf("A %d\n", s.alias); continue; }
      if ((s.uninit && status) || (dtor && &s == &sl[0])) { printf("D\n"); continue; }
      if (!okinv(s.o)) { printf("I\n"); bad = true; continue; }
      OBJ* o = s.o;
      size_t own = 0; for (auto h : handles) if (h->Ref == o->Ref) ++own;
      printf("S %llu %llu %zu %zu ", (unsigned long long)(o->Ref && o->Ref->buf ? (uint64_t)(o->Ref->buf + o->offset) : 0), (unsigned long long)(o->Ref ? o->Ref->size : 0),
        o->Ref ? (size_t)(int)o->Ref->refs : 0, o->Ref ? own : 0);
      hex(o->Ref && o->Ref->buf ? o->Ref->buf + o->offset : nullptr, o->sublen * sizeof(T));
      // cached hash against the hash of a fresh object with the same elements
      OBJ t; raw(&t, mkref(o->sublen, (const unsigned char*)(o->Ref && o->Ref->buf ? o->Ref->buf + o->offset : nullptr)), 0, o->sublen); t.Ref->refs = 1;
      size_t hf = t.hash(); size_t hc = o->my_hash;
      printf(" %zu %zu\n", hc, hf);
    }
#ifdef RCA_CLASS
    for (auto h : handles) if (okinv(h) && h->Ref && h->Ref->buf) for (size_t i = 0; i < h->Ref->size; ++i) if (!g_alive->count((uintptr_t)(h->Ref->buf + i))) { lf("a place of storage in use holds no element"); break; }
#endif
    for (auto& w : wbuf) { printf("W "); hex(w.first, w.second); printf("\n"); }
    for (auto& c : cbuf) if (c.second.size() && memcmp(c.first, c.second.data(), c.second.size())) printf("C\n");
    if (view && status == 0) { fflush(stdout); size_t n = sl[view - 1].o->sublen; printf("V "); hex((void*)ret, n + 1); printf("\n"); }
    if (fn == "e_dup" && status == 0) ::free((g_set->erase((void*)ret), (void*)ret));
    for (size_t i = 0; i < others.size(); ++i) {
      OBJ* o = others[i];
      if (!okinv(o) || !o->Ref || o->sublen * sizeof(T) != orig[i].size() || (o->sublen && memcmp((void*)(o->Ref->buf + o->offset), (void*)orig[i].data(), o->sublen * sizeof(T)))) printf("O\n");
      else { size_t own = 0; for (auto h : handles) if (h->Ref == o->Ref) ++own; if (own != (size_t)(int)o->Ref->refs) printf("Q %zu %d\n", own, (int)o->Ref->refs); }
    }
    fflush(stdout);
    if (bad) { printf("E %ld 0\n", g_id); fflush(stdout); alarm(0); continue; }
    for (auto o : handles) { o->~OBJ(); free(o); }
    for (auto p : frees) { unmark(p, malloc_usable_size(p), false); free(p); }
    printf("E %ld %zu\n", g_id, g_set->size());
    fflush(stdout); alarm(0);
  }
}
