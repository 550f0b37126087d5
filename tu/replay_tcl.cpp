#include "tcl.cpp"
extern "C" int bdv_invoke(Tcl_Interp*, const char*, int, Tcl_Obj* const*) { return 0; }
extern "C" const char* bdv_fire(Tcl_Interp*, const char*, int) { return nullptr; }
static Tcl_Interp* ip();
#define NV_SETUP ip();
#include "native.h"
#include <limits>
#include <memory>
typedef std::string S;
typedef __int128 I;
static S str(const String& s) { return S(s.cbegin(), s.length()); }
static String mk(const S& s) { return String(s.data(), s.size()); }
static S istr(I v) { if (v == 0) return "0"; bool n = v < 0; unsigned __int128 u = n ? -(unsigned __int128)v : v; S r; while (u) { r.insert(r.begin(), char('0' + (int)(u % 10))); u /= 10; } return n ? "-" + r : r; }
static std::vector<I> ints() {
  std::vector<I> v; for (int w : {0, 1, 3, 7, 8, 15, 16, 31, 32, 33, 53, 62, 63, 64, 65}) for (int d = -2; d <= 2; ++d) for (int s : {1, -1}) v.push_back(s * (((I)1 << w) + d));
  for (int i = 0; i < 300; ++i) { int w = 1 + nv_r(65); I x = ((I)nv_rng()) & (((I)1 << w) - 1); v.push_back(nv_r(2) ? x : -x); }
  return v; }
static Tcl_Interp* ip() { static ScriptInterpTCL* si = new ScriptInterpTCL; return si->interp; }
// the integer as a script value, in one of its representations
static Tcl_Obj* tint(I v, int how) {
  if (how == 0 && v >= LONG_MIN && v <= LONG_MAX) return Tcl_NewLongObj((long)v);
  S t = istr(v); Tcl_Obj* o = Tcl_NewStringObj(t.data(), t.size());
  if (how == 2) { double d; Tcl_GetDoubleFromObj(nullptr, o, &d); }
  return o; }
template <typename T> static bool fits(I v) { return v >= (I)std::numeric_limits<T>::min() && v <= (I)std::numeric_limits<T>::max(); }
static const char* NONNUM[] = {"", "abc", "1.5", "1e3", "12x", "0x", "--1", "true", "1 2", "18446744073709551616", "-18446744073709551616", "99999999999999999999999999999", "-99999999999999999999999999999"};
template <typename T> static void from_int(T (*f)(Tcl_Obj*)) {
  for (I v : ints()) for (int h = 0; h < 3; ++h) { Tcl_Obj* o = tint(v, h); Tcl_IncrRefCount(o); S t = istr(v); nv_in("script value %s (representation %d)", t.c_str(), h); T got = f(o); I want = fits<T>(v) ? v : 0;
    REQ("conv", (I)got == want, "got %s, expected %s", istr((I)got).c_str(), istr(want).c_str()); REQ("conv", S(Tcl_GetString(o)) == t, "script value changed"); Tcl_DecrRefCount(o); }
  for (const char* t : NONNUM) { nv_in("script value %s", nv_q(t).c_str()); Tcl_Obj* o = Tcl_NewStringObj(t, -1); Tcl_IncrRefCount(o); T got = f(o); REQ("conv", got == 0, "got %s, expected 0", istr((I)got).c_str()); Tcl_DecrRefCount(o); }
}
template <typename T> static void to_int(Tcl_Obj* (*f)(const T*, Tcl_Interp*)) {
  for (I v : ints()) if (fits<T>(v)) { T x = (T)v; S t = istr(v); nv_in("%s", t.c_str()); Tcl_Obj* o = f(&x, ip()); REQ("conv", o, "no value"); if (!o) continue; Tcl_IncrRefCount(o); S got = Tcl_GetString(o);
    REQ("conv", got == t, "script value is %s", got.c_str()); Tcl_DecrRefCount(o); }
}
#define INTS(X) X(i8) X(u8) X(i16) X(u16) X(i32) X(u32) X(i64) X(u64)
#define X(T) TEST(e_from_##T) { from_int<T>(e_from_##T); } TEST(e_to_##T) { to_int<T>(e_to_##T); }
INTS(X)
#undef X
static double DBL[] = {0, -0.0, 1, -1, 1.5, 0.1, -2.25, 1e300, -1e-300, 3.141592653589793, 1e18, 9007199254740993.0, 5e-324, 1.7976931348623157e308};
TEST(e_from_double) {
  for (double d : DBL) for (int h = 0; h < 2; ++h) { Tcl_Obj* o = Tcl_NewDoubleObj(d); Tcl_IncrRefCount(o); if (h) { S t = Tcl_GetString(o); Tcl_DecrRefCount(o); o = Tcl_NewStringObj(t.data(), t.size()); Tcl_IncrRefCount(o); } nv_in("%.17g", d); double g = e_from_double(o); REQ("conv", g == d, "got %.17g", g); Tcl_DecrRefCount(o); }
  for (const char* t : {"abc", "", "1.5x"}) { nv_in("%s", t); Tcl_Obj* o = Tcl_NewStringObj(t, -1); Tcl_IncrRefCount(o); REQ("conv", e_from_double(o) == 0, "not 0"); Tcl_DecrRefCount(o); } }
TEST(e_to_double) { for (double d : DBL) { nv_in("%.17g", d); Tcl_Obj* o = e_to_double(&d, ip()); Tcl_IncrRefCount(o); double g = 0; int rc = Tcl_GetDoubleFromObj(nullptr, o, &g); REQ("conv", rc == TCL_OK && g == d, "script value %s", Tcl_GetString(o)); Tcl_DecrRefCount(o); } }
TEST(e_from_bool) { for (auto& p : std::vector<std::pair<S, bool>>{{"1", 1}, {"0", 0}, {"true", 1}, {"false", 0}, {"yes", 1}, {"no", 0}, {"on", 1}, {"off", 0}, {"2", 1}, {"abc", 0}, {"", 0}}) { nv_in("%s", p.first.c_str()); Tcl_Obj* o = Tcl_NewStringObj(p.first.data(), -1); Tcl_IncrRefCount(o); REQ("conv", e_from_bool(o) == p.second, "wrong truth value"); Tcl_DecrRefCount(o); } }
TEST(e_to_bool) { for (bool b : {false, true}) { nv_in("%d", b); Tcl_Obj* o = e_to_bool(&b, ip()); Tcl_IncrRefCount(o); REQ("conv", S(Tcl_GetString(o)) == (b ? "1" : "0"), "script value %s", Tcl_GetString(o)); Tcl_DecrRefCount(o); } }
static S text(bool nul = true) { S s = nv_bytes(nv_r(nv_r(30) ? 12 : 700)); S r; for (char c : s) if ((unsigned char)c < 128 && (c || nul)) r += c; return r; }
TEST(e_from_str) { for (int i = 0; i < 3000; ++i) { S t = text(); nv_in("%s", nv_q(t).c_str()); Tcl_Obj* o = Tcl_NewStringObj(t.data(), t.size()); Tcl_IncrRefCount(o); alignas(String) char m[sizeof(String)]; e_from_str((String*)m, o); REQ("conv", str(*(String*)m) == t, "got %s", nv_q(str(*(String*)m)).c_str()); ((String*)m)->~String(); Tcl_DecrRefCount(o); } }
TEST(e_from_cstr) { for (int i = 0; i < 2000; ++i) { S t = text(false); nv_in("%s", nv_q(t).c_str()); Tcl_Obj* o = Tcl_NewStringObj(t.data(), t.size()); Tcl_IncrRefCount(o); REQ("conv", e_from_cstr(o) == t, "got %s", nv_q(e_from_cstr(o)).c_str()); Tcl_DecrRefCount(o); } }
static S otext(Tcl_Obj* o) { int n; char* p = Tcl_GetStringFromObj(o, &n); return S(p, n); }
TEST(e_to_str) { for (int i = 0; i < 3000; ++i) { S t = text(), u = text(); nv_in("%s", nv_q(t).c_str()); String x(mk(u + t)); x += u.size(); Tcl_Obj* o = e_to_str(&x, ip()); Tcl_IncrRefCount(o); REQ("conv", otext(o) == t, "script value %s", nv_q(otext(o)).c_str()); REQ("perm", str(x) == t, "operand changed"); Tcl_DecrRefCount(o); } }
TEST(e_to_cstr) { for (int i = 0; i < 2000; ++i) { S t = text(false); nv_in("%s", nv_q(t).c_str()); Tcl_Obj* o = e_to_cstr(t.c_str(), ip()); Tcl_IncrRefCount(o); REQ("conv", otext(o) == t, "script value %s", nv_q(otext(o)).c_str()); Tcl_DecrRefCount(o); } }
static S show(const std::vector<S>& v) { S r; for (auto& x : v) r += nv_q(x) + " "; return r; }
TEST(e_from_list) { ScriptInterpTCL si; for (int i = 0; i < 1500; ++i) { std::vector<S> v(nv_r(i % 40 ? 6 : 300)); for (auto& x : v) x = text(); nv_in("list %s", show(v).c_str()); Tcl_Obj* o = Tcl_NewListObj(0, nullptr); Tcl_IncrRefCount(o); for (auto& x : v) Tcl_ListObjAppendElement(nullptr, o, Tcl_NewStringObj(x.data(), x.size())); if (nv_r(2)) { S t = otext(o); Tcl_DecrRefCount(o); o = Tcl_NewStringObj(t.data(), t.size()); Tcl_IncrRefCount(o); }
    alignas(Array<String>) char m[sizeof(Array<String>)]; auto a = (Array<String>*)m; e_from_list(a, o, &si); REQ("conv", a->length() == v.size(), "%zu elements, expected %zu", a->length(), v.size()); for (size_t k = 0; k < v.size() && k < a->length(); ++k) REQ("conv", str(a->cbegin()[k]) == v[k], "element %zu is %s", k, nv_q(str(a->cbegin()[k])).c_str()); a->~Array<String>(); Tcl_DecrRefCount(o); }
  Tcl_Obj* o = Tcl_NewStringObj("{unbalanced", -1); Tcl_IncrRefCount(o); nv_in("{unbalanced"); alignas(Array<String>) char m[sizeof(Array<String>)]; auto a = (Array<String>*)m; e_from_list(a, o, &si); REQ("conv", a->length() == 0, "elements from no list"); a->~Array<String>(); Tcl_DecrRefCount(o); }
TEST(e_to_list) { for (int i = 0; i < 1500; ++i) { std::vector<S> v(nv_r(i % 40 ? 6 : 300)); Array<String> a; for (auto& x : v) { x = text(); a << mk(x); } nv_in("list %s", show(v).c_str()); Tcl_Obj* o = e_to_list(&a, ip()); Tcl_IncrRefCount(o); int n; Tcl_Obj** e; int rc = Tcl_ListObjGetElements(nullptr, o, &n, &e); REQ("conv", rc == TCL_OK && (size_t)n == v.size(), "%d elements, expected %zu", n, v.size()); if (rc == TCL_OK) for (int k = 0; k < n && (size_t)k < v.size(); ++k) REQ("conv", otext(e[k]) == v[k], "element %d is %s", k, nv_q(otext(e[k])).c_str()); Tcl_DecrRefCount(o); } }
// ---- commands
static int rc_of(ScriptInterpTCL& si, const S& script, S& res) { int rc = Tcl_EvalEx(si.interp, script.data(), script.size(), TCL_EVAL_GLOBAL); res = otext(Tcl_GetObjResult(si.interp)); return rc; }
static std::vector<S> calls; static S thrown; static int mode; static ScriptInterpTCL* cur;
static String cb(String a, String b, String c) { calls.push_back(str(a) + "|" + str(b) + "|" + str(c)); if (mode == 1) throw mk(thrown); if (mode == 2) throw 42; if (mode == 3) throw std::exception(); if (mode == 4) { cur->deleteCommand("cmd"); return mk("gone " + str(a)); } return mk("ok " + str(a) + str(b) + str(c)); }
TEST(e_trampoline) {
  for (size_t mn = 0; mn <= 4; ++mn) for (int us = 0; us < 2; ++us) for (mode = 0; mode < 5; ++mode) for (int n = 0; n < 6; ++n) {
    ScriptInterpTCL si; cur = &si; size_t lo = mn > 3 ? 3 : mn; thrown = text(); calls.clear();
    si.createCommand("cmd", cb, us ? "usage text" : nullptr, mn > 3 ? size_t(-1) : mn); S a[6] = {"x y", "", "{", "q", "r", "s"};
    S sc = "cmd"; for (int i = 0; i < n; ++i) { Tcl_Obj* o = Tcl_NewListObj(0, nullptr); Tcl_IncrRefCount(o); Tcl_ListObjAppendElement(nullptr, o, Tcl_NewStringObj(a[i].data(), -1)); sc += " " + otext(o); Tcl_DecrRefCount(o); }
    nv_in("command with %zu to 3 parameters, callback mode %d, usage %d: %s", lo, mode, us, sc.c_str()); S res; int rc = rc_of(si, sc, res);
    bool run = (size_t)n >= lo && n <= 3; REQ("cmd", calls.size() == (run ? 1 : 0), "called %zu times", calls.size());
    if (!run) { REQ("cmd", rc == TCL_ERROR && !res.empty(), "no error: rc %d, %s", rc, nv_q(res).c_str()); continue; }
    S w; for (int i = 0; i < 3; ++i) w += (i ? "|" : "") + (i < n ? a[i] : S()); if (!calls.empty()) REQ("cmd", calls[0] == w, "called with %s, expected %s", nv_q(calls[0]).c_str(), nv_q(w).c_str());
    S w2; for (int i = 0; i < 3 && i < n; ++i) w2 += a[i];
    if (mode == 0) REQ("cmd", rc == TCL_OK && res == "ok " + w2, "rc %d, %s", rc, nv_q(res).c_str());
    if (mode == 1) REQ("cmd", rc == TCL_ERROR && res == thrown, "rc %d, %s, expected an error %s", rc, nv_q(res).c_str(), nv_q(thrown).c_str());
    if (mode == 2 || mode == 3) REQ("cmd", rc == TCL_ERROR && !res.empty(), "rc %d, %s, expected an error", rc, nv_q(res).c_str());
    if (mode == 4) { REQ("cmd", rc == TCL_OK && res == "gone " + (n ? a[0] : S()), "rc %d, %s", rc, nv_q(res).c_str()); rc = rc_of(si, "cmd", res); REQ("cmd", rc == TCL_ERROR, "removed command still runs"); }
  }
  mode = 0;
  for (const char* sc : {"::cmd a b c", "rename cmd other; other a b c", "namespace eval n {cmd a b c}", "interp alias {} al {} cmd; al a b c"}) { ScriptInterpTCL si; cur = &si; calls.clear(); si.createCommand("cmd", cb); nv_in("%s", sc); S res; int rc = rc_of(si, sc, res); REQ("cmd", calls.empty() ? rc == TCL_ERROR && !res.empty() : rc == TCL_OK && calls[0] == "a|b|c", "rc %d, %s", rc, nv_q(res).c_str()); }
}
static void cb_v() { calls.push_back("v"); }
static i32 cb_i_i(i32 a) { calls.push_back(istr(a)); return a; }
static String cb_s_s(String a) { calls.push_back(str(a)); return a; }
static void cb_v_si(String a, i32 b) { calls.push_back(str(a) + "|" + istr(b)); }
static u64 ret_u; static u64 cb_u_isu(i16 a, String b, u8 c) { calls.push_back(istr(a) + "|" + str(b) + "|" + istr(c)); return ret_u; }
static S quote(const S& s) { Tcl_Obj* o = Tcl_NewListObj(0, nullptr); Tcl_IncrRefCount(o); Tcl_ListObjAppendElement(nullptr, o, Tcl_NewStringObj(s.data(), s.size())); S r = otext(o); Tcl_DecrRefCount(o); return r; }
static void cmdcase(ScriptInterpTCL& si, const std::vector<S>& a, const S& call, const S* want) { S sc = "cmd"; for (auto& x : a) sc += " " + quote(x); calls.clear(); nv_in("%s", sc.c_str()); S res; int rc = rc_of(si, sc, res); REQ("cmd", rc == TCL_OK && calls.size() == 1, "rc %d, %zu calls", rc, calls.size()); if (calls.size() == 1) REQ("cmd", calls[0] == call, "called with %s, expected %s", nv_q(calls[0]).c_str(), nv_q(call).c_str()); if (want) REQ("cmd", res == *want, "result %s, expected %s", nv_q(res).c_str(), nv_q(*want).c_str()); }
TEST(e_cmd_v) { ScriptInterpTCL si; si.createCommand("cmd", cb_v); S e; cmdcase(si, {}, "v", &e); }
TEST(e_cmd_i_i) { ScriptInterpTCL si; si.createCommand("cmd", cb_i_i, nullptr, 0); S z = "0"; cmdcase(si, {}, "0", &z); for (I v : ints()) { S w = istr(fits<i32>(v) ? v : 0); cmdcase(si, {istr(v)}, w, &w); } }
TEST(e_cmd_s_s) { ScriptInterpTCL si; si.createCommand("cmd", cb_s_s, nullptr, 0); S z; cmdcase(si, {}, "", &z); for (int i = 0; i < 500; ++i) { S t = text(false); cmdcase(si, {t}, t, &t); } }
TEST(e_cmd_v_si) { ScriptInterpTCL si; si.createCommand("cmd", cb_v_si, nullptr, 0); S z; cmdcase(si, {}, "|0", &z); cmdcase(si, {"x"}, "x|0", &z); for (I v : ints()) { S t = text(false); cmdcase(si, {t, istr(v)}, t + "|" + istr(fits<i32>(v) ? v : 0), &z); } }
TEST(e_cmd_u_isu) { ScriptInterpTCL si; si.createCommand("cmd", cb_u_isu, nullptr, 1); auto V = ints(); for (I v : V) { I u = V[nv_r(V.size())], r = V[nv_r(V.size())]; if (!fits<u64>(r)) r = nv_rng(); ret_u = (u64)r; S t = text(false), w = istr(r); cmdcase(si, {istr(v), t, istr(u)}, istr(fits<i16>(v) ? v : 0) + "|" + t + "|" + istr(fits<u8>(u) ? u : 0), &w); cmdcase(si, {istr(v)}, istr(fits<i16>(v) ? v : 0) + "||0", &w); } }
// ---- linked variables
static S shown(double v) { Tcl_Obj* o = Tcl_NewDoubleObj(v); Tcl_IncrRefCount(o); S r = Tcl_GetString(o); Tcl_DecrRefCount(o); return r; }
static S shown(bool v) { return v ? "1" : "0"; }
static S shown(const String& v) { return str(v); }
template <typename T, typename = typename std::enable_if<std::is_integral<T>::value && !std::is_same<T, bool>::value>::type> static S shown(T v) { return istr((I)v); }
template <typename T> struct Gen { static T g() { auto V = ints(); I v = V[nv_r(V.size())]; return fits<T>(v) ? (T)v : (T)nv_rng(); } static S w() { auto V = ints(); return nv_r(8) ? istr(V[nv_r(V.size())]) : S(NONNUM[nv_r(10)]); }
  static S result(const S& t) { bool neg = t[0] == '-'; if (t.size() > (neg ? 1 : 0) && t.find_first_not_of("0123456789", neg) == S::npos && t.size() < 22) { I x = 0; for (char c : t.substr(neg)) x = x * 10 + (c - '0'); if (neg) x = -x; return fits<T>(x) ? istr(x) : "0"; } return "0"; } };
template <> struct Gen<double> { static double g() { return DBL[nv_r(14)]; } static S w() { return nv_r(5) ? shown(DBL[nv_r(14)]) : "abc"; } static S result(const S& t) { return t == "abc" ? "0.0" : t; } };
template <> struct Gen<bool> { static bool g() { return nv_r(2); } static S w() { const char* a[] = {"1", "0", "true", "no", "abc"}; return a[nv_r(5)]; } static S result(const S& t) { return t == "1" || t == "true" ? "1" : "0"; } };
template <> struct Gen<String> { static String g() { return mk(text()); } static S w() { return text(); } static S result(const S& t) { return t; } };
static int hooks; static std::function<void(const void*, const void*)> hookf; static void hook(const void* a, const void* b) { ++hooks; hookf(a, b); }
static void oldhook(const void*, const void*) { nv_fail("link", "hook of an earlier link called"); }
// an earlier link of the same name whose variable is gone
static void earlier(ScriptInterpTCL& si, int how) { if (how == 1) { std::unique_ptr<int> p(new int(5)); si.linkVar("v", *p, oldhook); } if (how == 2) { std::unique_ptr<char[]> p(new char[9]()); si.linkVar("v", p.get(), 9, oldhook); } if (how == 3) { std::unique_ptr<String> p(new String("q")); si.linkVar("v", *(const String*)p.get()); } }
static S getv(ScriptInterpTCL& si, int& rc) { rc = Tcl_EvalEx(si.interp, "set v", -1, TCL_EVAL_GLOBAL); return otext(Tcl_GetObjResult(si.interp)); }
static int setv(ScriptInterpTCL& si, const S& t) { Tcl_Obj* o = Tcl_NewStringObj(t.data(), t.size()); Tcl_IncrRefCount(o); Tcl_Obj* r = Tcl_SetVar2Ex(si.interp, "v", nullptr, o, TCL_GLOBAL_ONLY | TCL_LEAVE_ERR_MSG); Tcl_DecrRefCount(o); return r ? TCL_OK : TCL_ERROR; }
template <typename T> static void link_get(bool c) { for (int i = 0; i < 60; ++i) { ScriptInterpTCL si; earlier(si, i % 4); T v(Gen<T>::g()); if (c) si.linkVar("v", (const T&)v); else si.linkVar("v", v); for (int k = 0; k < 4; ++k) { if (k) v = Gen<T>::g(); S w = shown(v); nv_in("linked variable holds %s (earlier link %d)", nv_q(w).c_str(), i % 4); int rc; S g = getv(si, rc); REQ("link", rc == TCL_OK && g == w, "script reads %s, rc %d", nv_q(g).c_str(), rc); REQ("link", shown(v) == w, "variable changed by reading"); } } }
template <typename T> static void link_set() { for (int i = 0; i < 120; ++i) { ScriptInterpTCL si; earlier(si, i % 4); T v(Gen<T>::g()); bool hk = i & 4; si.linkVar("v", v, hk ? hook : (ScriptInterp::link_var_hook_t) nullptr); for (int k = 0; k < 5; ++k) { S t = Gen<T>::w(), old = shown(v), w = Gen<T>::result(t), o1, n1; nv_in("variable %s, script writes %s (hook %d, earlier link %d)", nv_q(old).c_str(), nv_q(t).c_str(), hk, i % 4); hooks = 0; hookf = [&](const void* a, const void* b) { o1 = shown(*(const T*)a); n1 = shown(*(const T*)b); REQ("link", b == (const void*)&v, "hook did not get the variable"); };
      int rc = setv(si, t); REQ("link", rc == TCL_OK, "writing failed: %s", otext(Tcl_GetObjResult(si.interp)).c_str()); REQ("link", shown(v) == w, "variable is %s, expected %s", nv_q(shown(v)).c_str(), nv_q(w).c_str()); REQ("link", hooks == (hk ? 1 : 0), "hook called %d times", hooks); if (hk && hooks) REQ("link", o1 == old && n1 == w, "hook got %s and %s", nv_q(o1).c_str(), nv_q(n1).c_str()); } } }
template <typename T> static void link_setc() { for (int i = 0; i < 60; ++i) { ScriptInterpTCL si; earlier(si, i % 4); T v(Gen<T>::g()); S old = shown(v); si.linkVar("v", (const T&)v); S t = Gen<T>::w(); nv_in("read-only variable %s, script writes %s (earlier link %d)", nv_q(old).c_str(), nv_q(t).c_str(), i % 4); int rc = setv(si, t); REQ("link", rc == TCL_ERROR, "writing a read-only variable succeeded"); REQ("link", shown(v) == old, "read-only variable is now %s", nv_q(shown(v)).c_str()); int r2; S g = getv(si, r2); REQ("link", g == old, "script reads %s", nv_q(g).c_str()); } }
#define X(T) TEST(e_link_get_##T) { link_get<T>(false); } TEST(e_link_getc_##T) { link_get<T>(true); } TEST(e_link_set_##T) { link_set<T>(); } TEST(e_link_setc_##T) { link_setc<T>(); }
INTS(X) X(double) X(bool) X(String)
TEST(e_link_get_buf) { for (int i = 0; i < 200; ++i) { ScriptInterpTCL si; earlier(si, i % 4); S t = text(false); size_t z = t.size() + 1 + nv_r(3); std::unique_ptr<char[]> b(new char[z]()); memcpy(b.get(), t.data(), t.size()); si.linkVar("v", b.get(), z); nv_in("buffer of %zu holds %s", z, nv_q(t).c_str()); int rc; S g = getv(si, rc); REQ("link", g == t, "script reads %s", nv_q(g).c_str()); if (!t.empty()) { b[0] = 'Z'; t[0] = 'Z'; g = getv(si, rc); REQ("link", g == t, "script reads %s", nv_q(g).c_str()); } } }
TEST(e_link_get_cstr) { for (int i = 0; i < 200; ++i) { ScriptInterpTCL si; earlier(si, i % 4); S t = text(false); si.linkVar("v", t.c_str()); nv_in("C string %s", nv_q(t).c_str()); int rc; S g = getv(si, rc); REQ("link", g == t, "script reads %s", nv_q(g).c_str()); } }
TEST(e_link_set_buf) { for (int i = 0; i < 600; ++i) { ScriptInterpTCL si; earlier(si, i % 4); bool hk = i & 4; size_t z = 1 + nv_r(12); std::unique_ptr<char[]> b(new char[z]); S old = nv_bytes(z); memcpy(b.get(), old.data(), z); si.linkVar("v", b.get(), z, hk ? hook : (ScriptInterp::link_var_hook_t) nullptr); S t = text(false), o1; if (nv_r(2)) t = t.substr(0, z - 1 + nv_r(3)); nv_in("buffer of %zu, script writes %s", z, nv_q(t).c_str()); hooks = 0; hookf = [&](const void* a, const void* c) { o1.assign((const char*)a, z); REQ("link", c == b.get(), "hook did not get the buffer"); };
    int rc = setv(si, t); S w = t.substr(0, z - 1); REQ("link", rc == TCL_OK, "writing failed"); REQ("link", memchr(b.get(), 0, z) && S(b.get()) == w, "buffer is %s, expected %s", nv_q(S(b.get(), z)).c_str(), nv_q(w).c_str()); REQ("link", hooks == (hk ? 1 : 0), "hook called %d times", hooks); if (hk && hooks) REQ("link", o1 == old, "hook got %s as the old text", nv_q(o1).c_str()); } }
TEST(e_link_set_cstr) { for (int i = 0; i < 100; ++i) { ScriptInterpTCL si; earlier(si, i % 4); S t = text(false), c = t; si.linkVar("v", t.c_str()); nv_in("C string %s", nv_q(t).c_str()); int rc = setv(si, "new text"); REQ("link", rc == TCL_ERROR && t == c, "read-only C string written"); } }
TEST(e_unlink) { for (int h = 0; h < 4; ++h) { ScriptInterpTCL si; nv_in("earlier link %d", h); earlier(si, h); si.unlinkVar("v"); int rc; S g = getv(si, rc); REQ("link", rc == TCL_ERROR, "variable still there: %s", g.c_str()); rc = setv(si, "7"); g = getv(si, rc); REQ("link", rc == TCL_OK && g == "7", "plain variable reads %s", g.c_str()); } }

// ---- registration
static const char* NAMES[] = {"cmd", "", "a b", "x;y", "longer_command_name", "{"};
static i32 reg_f(String a, i32 b) { calls.push_back(str(a) + "|" + istr(b)); return b; }
static i32 reg_g(String a, i32 b) { calls.push_back("g"); return 7; }
static String wn(const S& n) { String r(mk("junk" + n)); r += size_t(4); return r; }
static void runs(ScriptInterpTCL& si, const S& n, size_t lo, const char* us) {
  const S a[] = {"x y", "12", "q"};
  for (size_t k = 0; k < 4; ++k) { S sc = quote(n); for (size_t i = 0; i < k; ++i) sc += " " + quote(a[i]); calls.clear(); nv_in("%s, %zu to 2 parameters, usage %s", sc.c_str(), lo, us ? us : "none"); S res; int rc = rc_of(si, sc, res);
    if (k < lo || k > 2) { REQ("cmd", rc == TCL_ERROR && calls.empty(), "rc %d, %zu calls, %s", rc, calls.size(), nv_q(res).c_str()); if (us) REQ("cmd", res.find(us) != S::npos, "usage missing: %s", nv_q(res).c_str()); continue; }
    S w = k > 1 ? "12" : "0"; REQ("cmd", rc == TCL_OK && calls.size() == 1 && calls[0] == (k ? a[0] : S()) + "|" + w && res == w, "rc %d, %zu calls, %s", rc, calls.size(), nv_q(res).c_str()); } }
TEST(e_create) { for (const char* n : NAMES) for (size_t mn = 0; mn < 3; ++mn) for (int u = 0; u < 2; ++u) { ScriptInterpTCL si; si.createCommand(wn(n), reg_f, u ? "a b c" : nullptr, mn); runs(si, n, mn, u ? "a b c" : nullptr); } }
TEST(e_create_default) { for (const char* n : NAMES) { ScriptInterpTCL si; ScriptInterp::createCommand(si, wn(n), reg_f); runs(si, n, 2, nullptr); } }
TEST(e_recreate) { for (const char* n : NAMES) for (size_t mn = 0; mn < 3; ++mn) { ScriptInterpTCL si; si.createCommand(wn(n), reg_g); si.createCommand(wn(n), reg_f, "new use", mn); runs(si, n, mn, "new use"); } }
static void dead(ScriptInterpTCL& si, const S& n) { S res; calls.clear(); nv_in("%s", nv_q(n).c_str()); int rc = rc_of(si, quote(n) + " a 1", res); REQ("cmd", rc == TCL_ERROR && calls.empty(), "rc %d, %zu calls, %s", rc, calls.size(), nv_q(res).c_str()); }
TEST(e_delete) { for (const char* n : NAMES) { ScriptInterpTCL si; si.createCommand("other", reg_f); si.createCommand(wn(n), reg_f); si.deleteCommand(wn(n)); dead(si, n); runs(si, "other", 2, nullptr); si.createCommand(wn(n), reg_f); runs(si, n, 2, nullptr); } }
TEST(e_delete_absent) { for (const char* n : NAMES) { ScriptInterpTCL si; si.createCommand("other", reg_f); si.deleteCommand(wn(n)); dead(si, n); runs(si, "other", 2, nullptr); } }
TEST(e_gone) { for (const char* n : NAMES) { { ScriptInterpTCL si; si.createCommand(wn(n), reg_f); } ScriptInterpTCL s2; dead(s2, n); s2.createCommand(wn(n), reg_f, nullptr, 1); runs(s2, n, 1, nullptr); } }
// ---- scripts
static S seval(ScriptInterpTCL& si, const S& t) { alignas(String) char m[sizeof(String)]; String x(mk("pre" + t + "post")); String y(x(3, t.size())); e_eval((String*)m, &si, &y); S r = str(*(String*)m); ((String*)m)->~String(); return r; }
static void rec(String a) { calls.push_back(str(a)); }
static String ineval(String a) { return cur->eval(a); }
TEST(e_eval) { ScriptInterpTCL si; si.createCommand("rec", rec); cur = &si; si.createCommand("ineval", ineval);
  for (int i = 0; i < 2000; ++i) { S t = text(false), g; calls.clear(); nv_in("recording and returning %s", nv_q(t).c_str()); g = seval(si, "rec " + quote(t) + "; set r " + quote(t)); REQ("run", calls.size() == 1 && calls[0] == t && g == t, "%zu calls, %s", calls.size(), nv_q(g).c_str()); }
  S g = seval(si, ""); nv_in("the empty script"); REQ("run", g == "", "%s", nv_q(g).c_str());
  nv_in("a failing script"); calls.clear(); g = seval(si, "rec a; error {some message}; rec b"); REQ("run", calls.size() == 1 && g.find("some message") == 0 && g.find("while executing") != S::npos, "%zu calls, %s", calls.size(), nv_q(g).c_str());
  nv_in("a script run from within a procedure"); g = seval(si, "set v outer; proc p {} { set v inner; ineval {set v} }; p"); REQ("run", g == "outer", "evaluated inside the procedure: %s", nv_q(g).c_str()); }
TEST(e_load) { static int cnt; char d[] = "/tmp/bdv_load_XXXXXX"; if (!mkdtemp(d)) return; ScriptInterpTCL si; si.createCommand("rec", rec);
  for (const char* nm : {"a.tcl", ".tcl", "b.tcl.tcl", "x.tc", "x.tclx", "tcl", "x.TCL", "q.tcl.bak", "a.tclb", "l", "x.tcl ", "xtcl"}) for (int bad = 0; bad < 2; ++bad) { S f = S(d) + "/" + nm, body = "rec t" + istr(++cnt) + (bad ? "\nerror {the reason}\nrec u" : "\n"); { FILE* h = fopen(f.c_str(), "w"); if (!h) continue; fwrite(body.data(), 1, body.size(), h); fclose(h); }
    calls.clear(); S n(nm); bool mine = n.size() >= 4 && n.substr(n.size() - 4) == ".tcl"; String fn(mk("zz" + f)); fn += size_t(2); String res("old"); nv_in("file %s, %s", nm, bad ? "failing" : "succeeding"); int rc = e_load(&si, &fn, &res);
    if (!mine) REQ("run", rc == 2 && calls.empty() && str(res) == "old", "returned %d, %zu calls", rc, calls.size()); else { REQ("run", calls.size() == 1 && calls[0] == "t" + istr(cnt), "%zu calls", calls.size()); REQ("run", rc == (bad ? 1 : 0) && (!bad || str(res) == "the reason"), "returned %d, %s", rc, nv_q(str(res)).c_str()); }
    remove(f.c_str()); }
  calls.clear(); String res("old"), none(mk(S(d) + "/none.tcl")); nv_in("a file that does not exist"); int rc = e_load(&si, &none, &res); REQ("run", rc == 1 && str(res) != "old", "returned %d, %s", rc, nv_q(str(res)).c_str());
  for (const char* nm : {"", "a", "tcl", ".tc"}) { String fn(nm); nv_in("file name %s", nv_q(nm).c_str()); rc = e_load(&si, &fn, &res); REQ("run", rc == 2, "returned %d", rc); }
  rmdir(d); }
static int gotc; static std::vector<S> got;
static Tcl_ObjCmdProc* recp() { return [](ClientData, Tcl_Interp* ip, int n, Tcl_Obj* const* v) -> int { ++gotc; got.clear(); for (int i = 1; i < n; ++i) got.push_back(otext(v[i])); Tcl_SetObjResult(ip, Tcl_NewStringObj("res", -1)); return TCL_OK; }; }
static S weird() { static const char c[] = "ab $[]{}\"\\;#\n\t"; S r; for (int n = nv_r(8); n--;) r += c[nv_r(sizeof(c) - 1)]; return r; }
TEST(e_callback) { ScriptInterpTCL si; Tcl_CreateObjCommand(si.interp, "catch_args", recp(), nullptr, nullptr);
  for (int i = 0; i < 2000; ++i) { std::vector<S> v(nv_r(5)); Array<String> a; for (auto& x : v) { x = nv_r(3) ? weird() : text(false); a << mk(x); } bool pre = nv_r(2); nv_in("arguments %s", show(v).c_str()); String cmd(mk(pre ? "catch_args {one two}" : "catch_args")); gotc = 0; alignas(String) char m[sizeof(String)]; e_callback((String*)m, &si, &cmd, &a); S r = str(*(String*)m); ((String*)m)->~String(); if (pre) v.insert(v.begin(), "one two"); REQ("run", gotc == 1 && got == v, "%d calls, last with %s (result %s)", gotc, show(got).c_str(), nv_q(r).c_str()); REQ("run", r == "res", "result %s", nv_q(r).c_str()); } }
TEST(e_from_callback) { ScriptInterpTCL si, s2; for (int i = 0; i < 500; ++i) { S t = text(); nv_in("%s", nv_q(t).c_str()); Tcl_Obj* o = Tcl_NewStringObj(t.data(), t.size()); Tcl_IncrRefCount(o); ScriptInterpTCL* w = nv_r(2) ? &si : &s2; alignas(ScriptCallbackerPtr) char m[sizeof(ScriptCallbackerPtr)]; auto p = (ScriptCallbackerPtr*)m; e_from_callback(p, o, w); REQ("run", bdv_cb_si(p) == w && str(*bdv_cb_cmd(p)) == t, "callback runs %s", nv_q(str(*bdv_cb_cmd(p))).c_str()); p->~ScriptCallbackerPtr(); Tcl_DecrRefCount(o); } }
TEST(e_from_list2) { ScriptInterpTCL si; for (int i = 0; i < 400; ++i) { std::vector<std::vector<S>> v(nv_r(6)); Tcl_Obj* o = Tcl_NewListObj(0, nullptr); Tcl_IncrRefCount(o); S d; for (auto& x : v) { x.resize(nv_r(4)); Tcl_Obj* p = Tcl_NewListObj(0, nullptr); for (auto& y : x) { y = text(); Tcl_ListObjAppendElement(nullptr, p, Tcl_NewStringObj(y.data(), y.size())); } d += "(" + show(x) + ") "; Tcl_ListObjAppendElement(nullptr, o, p); } nv_in("list of lists %s", d.c_str());
    typedef Array<Array<String>> AA; alignas(AA) char m[sizeof(AA)]; auto a = (AA*)m; e_from_list2(a, o, &si); REQ("conv", a->length() == v.size(), "%zu elements, expected %zu", a->length(), v.size()); for (size_t k = 0; k < v.size() && k < a->length(); ++k) { auto& b = a->cbegin()[k]; REQ("conv", b.length() == v[k].size(), "inner list %zu has %zu elements", k, b.length()); for (size_t j = 0; j < v[k].size() && j < b.length(); ++j) REQ("conv", str(b.cbegin()[j]) == v[k][j], "element %zu of inner list %zu is %s", j, k, nv_q(str(b.cbegin()[j])).c_str()); } a->~AA(); Tcl_DecrRefCount(o); } }
TEST(e_to_list2) { for (int i = 0; i < 400; ++i) { std::vector<std::vector<S>> v(nv_r(6)); Array<Array<String>> a; S d; for (auto& x : v) { x.resize(nv_r(4)); Array<String> b; for (auto& y : x) { y = text(); b << mk(y); } d += "(" + show(x) + ") "; a << b; } nv_in("list of lists %s", d.c_str()); Tcl_Obj* o = e_to_list2(&a, ip()); Tcl_IncrRefCount(o); int n = 0, m = 0; Tcl_Obj **e, **f; int rc = Tcl_ListObjGetElements(nullptr, o, &n, &e); REQ("conv", rc == TCL_OK && (size_t)n == v.size(), "%d elements, expected %zu", n, v.size());
    if (rc == TCL_OK) for (int k = 0; k < n && (size_t)k < v.size(); ++k) { rc = Tcl_ListObjGetElements(nullptr, e[k], &m, &f); REQ("conv", rc == TCL_OK && (size_t)m == v[k].size(), "inner list %d has %d elements", k, m); if (rc == TCL_OK) for (int j = 0; j < m && (size_t)j < v[k].size(); ++j) REQ("conv", otext(f[j]) == v[k][j], "element %d of inner list %d is %s", j, k, nv_q(otext(f[j])).c_str()); } Tcl_DecrRefCount(o); } }
