#include "file.cpp"
#include "native.h"
#include <sys/stat.h>
// system calls are stand-ins (linked with --wrap): nothing real is touched; the failing calls are chosen by the driver
struct Ev { std::string k; bool ok; std::string a, b; long fd, arg; };
static std::vector<Ev> tr; static unsigned long failmask; static int ncall, nextfd = 1000; static std::string lastname;
static bool failing() { return ncall < 60 && (failmask >> ncall++ & 1); }
extern "C" {
int __wrap_mkstemp(char* t) { bool f = failing(); std::string o = t; size_t n = o.size();
  bool okt = n >= 6 && o.substr(n - 6) == "XXXXXX"; if (okt) for (int i = 0; i < 6; ++i) t[n - 6 + i] = "abcdef0123"[nv_r(10)];
  if (!okt) f = true;
  lastname = t; int fd = f ? -1 : nextfd++; tr.push_back({"mkstemp", !f, o, t, fd, 0}); return fd; }
int __wrap_unlink(const char* p) { bool f = failing(); tr.push_back({"unlink", !f, p, "", 0, 0}); return f ? -1 : 0; }
int __wrap_remove(const char* p) { return __wrap_unlink(p); }
int __wrap_unlinkat(int, const char* p, int) { return __wrap_unlink(p); }
int __wrap_rename(const char* a, const char* b) { bool f = failing(); tr.push_back({"rename", !f, a, b, 0, 0}); return f ? -1 : 0; }
int __wrap_link(const char* a, const char* b) { bool f = failing(); tr.push_back({"link", !f, a, b, 0, 0}); return f ? -1 : 0; }
int __wrap_close(int fd) { bool f = failing(); tr.push_back({"close", !f, "", "", fd, 0}); return f ? -1 : 0; }
int __wrap_fsync(int fd) { bool f = failing() || fd < 0; tr.push_back({"fsync", !f, "", "", fd, 0}); return f ? -1 : 0; }
int __wrap_fdatasync(int fd) { return __wrap_fsync(fd); }
int __wrap_fchmod(int fd, mode_t m) { bool f = failing() || fd < 0; tr.push_back({"fchmod", !f, "", "", fd, long(m)}); return f ? -1 : 0; }
int __wrap_chmod(const char* p, mode_t m) { bool f = failing(); tr.push_back({"chmod", !f, p, "", 0, long(m)}); return f ? -1 : 0; }
}
struct Temp { bool exists = false, open = false, modeset = false, synced = false, closed_ok = false, renamed = false; std::string name, target; long fd = -1; mode_t mode = -1;
  void ev(const Ev& e) {
    if (e.k == "fchmod") { if (open && e.fd == fd) { REQ("atomic", mode_t(e.arg) == mode, "mode %lo applied, %lo requested", e.arg, (long)mode); synced = false; modeset = e.ok; } }
    else if (e.k == "chmod") { if (exists && e.a == name) { REQ("atomic", mode_t(e.arg) == mode, "other mode applied"); modeset = e.ok; synced = false; } else REQ("atomic", false, "chmod of %s", e.a.c_str()); }
    else if (e.k == "fsync") { if (open && e.fd == fd) synced = e.ok; }
    else if (e.k == "close") { REQ("atomic", open && e.fd == fd, "close(%ld), own descriptor is %ld (%s)", e.fd, fd, open ? "open" : "not open"); if (e.fd == fd) { open = false; closed_ok = e.ok; } }
    else if (e.k == "unlink") { REQ("atomic", exists && e.a == name, "unlink(%s), own temporary file is %s (%s)", e.a.c_str(), name.c_str(), exists ? "exists" : "gone"); exists = false; }
    else if (e.k == "rename") { REQ("atomic", exists && e.a == name && e.b == target, "rename(%s,%s)", e.a.c_str(), e.b.c_str());
      REQ("atomic", mode == mode_t(-1) || modeset, "replaced the target before the mode was applied"); REQ("atomic", synced, "replaced the target before the data was flushed successfully");
      REQ("atomic", !open && closed_ok, "replaced the target before the file was closed successfully"); if (e.ok) { exists = false; renamed = true; } }
    else REQ("atomic", false, "unexpected %s", e.k.c_str()); }
  void gone(const char* w) { REQ("atomic", !open, "descriptor left open %s", w); REQ("atomic", !exists, "temporary file %s left behind %s", name.c_str(), w); } };
static std::string name() { static const char* t[] = {"a", "f.txt", "dir/a", "./x", "/abs/dir/f", "d/e/", "a//b", "/", "", "%s", "x/%d%s", ".hid", "d.d/XXXXXX"};
  switch (nv_r(8)) { case 0: { std::string s; size_t n = nv_r(12); for (size_t i = 0; i < n; ++i) s += "a/.%"[nv_r(4)]; return s; } case 1: return std::string(nv_r(3) ? 1 + nv_r(40) : 4080 + nv_r(40), 'n'); case 2: return "/" + std::string(nv_r(300), 'd') + "/" + std::string(nv_r(300), 'e'); default: return t[nv_r(sizeof t / sizeof *t)]; } }
static void history(int ops) {
  alignas(AtomicFile) static char mem[sizeof(AtomicFile)]; AtomicFile* f = (AtomicFile*)mem; Temp t; std::string h = "ctor";
  tr.clear(); e_af_ctor(f); REQ("atomic", tr.empty() && !e_af_is_open(f) && e_af_fd(f) == -1, "new object");
  for (int i = 0; i <= ops; ++i) {
    tr.clear(); ncall = 0; failmask = nv_r(3) ? 0 : nv_r(3) ? 1ul << nv_r(6) : nv_rng(); int op = i == ops ? 9 : nv_r(6);
    bool was = t.open;
    if (op <= 2) { std::string n = name(); mode_t m = nv_r(2) ? mode_t(-1) : mode_t(nv_r(512)); h += "; open(" + nv_q(n) + "," + std::to_string(int(m)) + ") failures=" + std::to_string(failmask & 255); nv_in("%s", h.c_str());
      String s(n.data(), n.size()); bool r = e_af_open(f, &s, m); int mk = 0; const Ev* e = nullptr;
      for (auto& x : tr) if (x.k == "mkstemp") { ++mk; e = &x; } else if (was && !mk) t.ev(x); else if (x.k != "fsync" && x.k != "fchmod") REQ("atomic", false, "open() called %s", x.k.c_str());
      REQ("atomic", mk == 1, "%d temporary files requested", mk);
      if (was) { REQ("atomic", !t.renamed, "previous target replaced"); t.gone("when another file is opened"); }
      t = Temp();
      if (e) { REQ("atomic", r == e->ok && e_af_is_open(f) == e->ok && e_af_fd(f) == e->fd, "result of open");
        std::string o = e->a; size_t sl = n.rfind('/'); std::string d = sl == std::string::npos ? "" : n.substr(0, sl + 1), rest;
        bool ok = o.size() > d.size() && o.compare(0, d.size(), d) == 0; if (ok) { rest = o.substr(d.size()); if (rest.compare(0, 2, "./") == 0) rest = rest.substr(2); }
        REQ("atomic", ok && !rest.empty() && rest.find('/') == std::string::npos && o.size() >= 6 && o.substr(o.size() - 6) == "XXXXXX", "temporary name %s for %s", o.c_str(), n.c_str());
        if (e->ok) { t.exists = t.open = true; t.name = e->b; t.target = n; t.fd = e->fd; t.mode = m; } }
    } else if (op == 9) { h += "; dtor failures=" + std::to_string(failmask & 255); nv_in("%s", h.c_str()); e_af_dtor(f); for (auto& x : tr) t.ev(x); if (was) { REQ("atomic", !t.renamed, "destruction replaced the target"); t.gone("after destruction"); } }
    else { bool cm = op >= 4; h += cm ? "; commit" : "; abort"; h += " failures=" + std::to_string(failmask & 255); nv_in("%s", h.c_str());
      bool r = cm ? e_af_commit(f) : e_af_abort(f), anyf = false; for (auto& x : tr) { t.ev(x); anyf |= !x.ok; }
      if (was) { t.gone(cm ? "after commit" : "after abort"); if (cm) { REQ("atomic", r == t.renamed, "commit returned %d", r); REQ("atomic", r || anyf, "failed without a failing call"); } else REQ("atomic", r && !t.renamed, "abort"); }
      else REQ("atomic", !r, "returned true without an open file");
      REQ("atomic", !e_af_is_open(f) && e_af_fd(f) == -1, "still open"); t = Temp(); }
  }
}
static void many() { for (int i = 0; i < (nv_thorough ? 60000 : 8000) && nv_fails < 5; ++i) history(1 + nv_r(5)); }
TEST(e_af_ctor) { many(); } TEST(e_af_dtor) { many(); } TEST(e_af_open) { many(); } TEST(e_af_commit) { many(); } TEST(e_af_abort) { many(); } TEST(e_af_is_open) { many(); } TEST(e_af_fd) { many(); }
