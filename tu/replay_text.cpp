#include "text.cpp"
#include "native.h"
#include <memory>
#include <sstream>
typedef std::string S;
// a String with that value, at some offset of possibly shared storage
static std::vector<String> keepers;
static String mk(const S& s) {
  if (keepers.size() > 64) keepers.clear();
  switch (nv_r(4)) {
    case 0: return String(s.data(), s.size());
    case 1: { S t = nv_bytes(nv_r(4)) + s + nv_bytes(nv_r(4)); size_t k = t.find(s); String u(t.data(), t.size()); u += k; while (u.length() > s.size()) --u; return u; }
    case 2: { String u(s.data(), s.size()); keepers.push_back(u); return u; }
    default: { String u(s.data(), s.size()); u.reserve(s.size() + nv_r(40)); return u; }
  }
}
static S str(const String& s) { return S(s.cbegin(), s.length()); }
static S text(const char* al) { size_t m = nv_r(200); return nv_bytes(m == 0 ? 5000 : m < 4 ? 300 : m < 20 ? nv_r(60) : nv_r(10), nv_r(12) ? al : nullptr); }
static S ref_sub(const S& t, const S& a, const S& b, int lim) {
  if (a.empty()) return t;
  S r; size_t i = 0;
  while (lim != 0) { size_t p = t.find(a, i); if (p == S::npos) break; r += t.substr(i, p - i) + b; i = p + a.size(); if (lim > 0) --lim; }
  return r + t.substr(i);
}
static const char* ALS[] = {"ab", "ab ", "a,", "aab", "\\ab", "abcdefgh"};
#define N(a, b) (nv_thorough ? (b) : (a))
TEST(e_sub) {
  for (int i = 0; i < N(40000, 300000); ++i) {
    const char* al = ALS[nv_r(6)];
    S t = text(al), a = nv_bytes(nv_r(4), al), b = nv_bytes(nv_r(5), al); int lim = nv_r(3) ? -1 : (int)nv_r(6) - 2;
    if (!nv_r(40)) b = nv_bytes(300, al);
    nv_in("%s.sub(%s, %s, %d)", nv_q(t).c_str(), nv_q(a).c_str(), nv_q(b).c_str(), lim);
    String x(mk(t)), y(mk(a)), z(mk(b)); if (!nv_r(10)) { z = x; b = t; if (!nv_r(3)) { y = x; a = t; } }
    S got = str(x.sub(y, z, lim)), want = ref_sub(t, a, b, lim);
    REQ("text", got == want, "got %s, expected %s", nv_q(got).c_str(), nv_q(want).c_str());
    REQ("perm", str(x) == t && str(y) == a && str(z) == b, "operand changed");
  }
}
TEST(e_times) {
  for (int i = 0; i < N(6000, 40000); ++i) {
    S t = nv_bytes(nv_r(i % 50 ? 9 : 400)); int n = nv_r(i % 97 ? 12 : 700); S w; for (int k = 0; k < n; ++k) w += t;
    nv_in("%s * %d", nv_q(t).c_str(), n); String x(mk(t)); S got = str(x * n);
    REQ("text", got == w, "got %s (%zu)", nv_q(got).c_str(), got.size()); REQ("perm", str(x) == t, "operand changed");
  }
}
TEST(e_newsplit) {
  for (int i = 0; i < N(40000, 300000); ++i) {
    const char* al = ALS[nv_r(6)]; S t = text(al); char d = nv_r(2) ? ' ' : al[nv_r(strlen(al))]; if (!nv_r(30)) d = char(nv_r(256));
    nv_in("newsplit(%s, %s)", nv_q(t).c_str(), nv_q(S(1, d)).c_str());
    size_t p = t.find(d); if (p == S::npos) p = t.size(); size_t e = std::min(p + 1, t.size()); if (d == ' ') while (e < t.size() && t[e] == ' ') ++e;
    String x(mk(t)), keep(x); S got = str(newsplit(x, d));
    REQ("text", got == t.substr(0, p), "token %s", nv_q(got).c_str()); REQ("text", str(x) == t.substr(e), "rest %s, expected %s", nv_q(str(x)).c_str(), nv_q(t.substr(e)).c_str());
    REQ("perm", str(keep) == t, "copy of the source changed");
  }
}
static S up(S s) { for (auto& c : s) if (c >= 'a' && c <= 'z') c -= 32; return s; }
static void ifind(bool rev) {
  for (int i = 0; i < N(40000, 300000); ++i) {
    const char* al = nv_r(3) ? "abAB" : "aA`{@[zZ"; S t = text(al), o = nv_r(3) ? nv_bytes(nv_r(4), al) : t.substr(nv_r(t.size() + 1)).substr(0, nv_r(5));
    for (auto& c : o) if (isalpha((unsigned char)c) && nv_r(2)) c ^= 32;
    size_t lp = nv_r(2) ? 0 : nv_r(t.size() + 2);
    nv_in("%s.%s(%s, %zu)", nv_q(t).c_str(), rev ? "rifind" : "ifind", nv_q(o).c_str(), lp);
    String x(mk(t)), y(mk(o)); size_t got = rev ? x.rifind(y, lp) : x.ifind(y), want;
    S T = up(t), O = up(o);
    if (!rev) want = T.find(O); else if (O.empty()) want = T.size() - 1; else { want = T.rfind(O); if (want != S::npos && want < lp) want = S::npos; }
    REQ("text", got == want, "got %zd, expected %zd", got, want); REQ("perm", str(x) == t && str(y) == o, "operand changed");
  }
}
TEST(e_ifind) { ifind(false); } TEST(e_rifind) { ifind(true); }
static std::vector<S> ref_split(const S& t, const S& d, size_t lim) {
  std::vector<S> r; if (t.empty()) return r; if (lim == 1) return {t};
  size_t i = 0; bool bl = d == " ";
  for (;;) {
    if (bl) while (i < t.size() && t[i] == ' ') ++i;
    if (lim == S::npos && i >= t.size()) return r;
    size_t p = d.empty() ? S::npos : t.find(d, i);
    if ((lim != S::npos && (r.size() == lim - 1 || i >= t.size())) || p == S::npos) { r.push_back(t.substr(i)); return r; }
    r.push_back(t.substr(i, p - i)); i = p + d.size();
  }
}
static S show(const std::vector<S>& v) { S r = "["; for (auto& s : v) r += nv_q(s) + ","; return r + "]"; }
TEST(e_split) {
  for (int i = 0; i < N(40000, 300000); ++i) {
    const char* al = ALS[nv_r(6)]; S t = text(al), d = nv_r(2) ? S(" ") : nv_r(2) ? S(1, al[nv_r(strlen(al))]) : nv_bytes(nv_r(4), al); size_t lim = nv_r(2) ? S::npos : 1 + nv_r(6);
    if (lim != S::npos && !nv_r(10)) lim = 1 + nv_r(3000);
    nv_in("%s.split(%s, %zd)", nv_q(t).c_str(), nv_q(d).c_str(), lim);
    String x(mk(t)), y(mk(d)); if (!nv_r(20)) { y = x; d = t; }
    Array<String> a(x.split(y, lim)); std::vector<S> got; for (size_t k = 0; k < a.length(); ++k) got.push_back(str(a[k]));
    auto want = ref_split(t, d, lim); REQ("text", got == want, "got %s, expected %s", show(got).c_str(), show(want).c_str()); REQ("perm", str(x) == t && str(y) == d, "operand changed");
  }
}
TEST(e_join) {
  for (int i = 0; i < N(20000, 150000); ++i) {
    Array<String> a; std::vector<S> v; size_t n = nv_r(i % 100 ? 6 : 300); bool q = nv_r(2);
    for (size_t k = 0; k < n; ++k) { S s = nv_r(5) ? nv_bytes(nv_r(5), "ab\" ") : text("ab"); v.push_back(s); a << mk(s); }
    S d = nv_bytes(nv_r(4), ", a"), w; for (size_t k = 0; k < n; ++k) { if (k) w += d; w += q ? "\"" + v[k] + "\"" : v[k]; }
    nv_in("join(%s, %s, %d)", show(v).substr(0, 3000).c_str(), nv_q(d).c_str(), q); String y(mk(d));
    S got = str(a.join(y, q)); REQ("text", got == w, "got %s, expected %s", nv_q(got).c_str(), nv_q(w).c_str());
    bool same = a.length() == n; for (size_t k = 0; same && k < n; ++k) same = str(a[k]) == v[k]; REQ("perm", same && str(y) == d, "operand changed");
  }
}
TEST(e_printf) {
  for (int i = 0; i < N(3000, 9000); ++i) {
    size_t n = i < 200 ? 4000 + i : nv_r(nv_r(30) ? 40 : 70000); S s; for (size_t k = 0; k < n; ++k) s += char(33 + nv_r(90)); int v = (int)nv_r(1u << 31) - (1 << 30);
    nv_in("printf(\"%%s-%%d%%%%\", text of %zu, %d)", n, v); S want = s + "-" + std::to_string(v) + "%"; S got = str(String::printf("%s-%d%%", s.c_str(), v));
    REQ("text", got == want, "length %zu, expected %zu", got.size(), want.size());
  }
}
TEST(e_subst) {
  for (int i = 0; i < N(10000, 60000); ++i) {
    S t = text("abc"); bd::HashTable<String, String> h; size_t n = nv_r(4);
    for (size_t k = 0; k < n; ++k) h[mk(nv_bytes(1 + nv_r(2), "abc"))] = mk(nv_bytes(nv_r(3), "abcd"));
    S w = t, tab; for (const auto& kv : h) { w = ref_sub(w, str(kv.first), str(kv.second), -1); tab += nv_q(str(kv.first)) + "=>" + nv_q(str(kv.second)) + " "; }
    nv_in("%s.subst(%s)", nv_q(t).c_str(), tab.c_str()); String x(mk(t)); S got = str(x.subst(h));
    REQ("text", got == w, "got %s, expected %s", nv_q(got).c_str(), nv_q(w).c_str()); REQ("perm", str(x) == t, "operand changed");
  }
}

static const char* IOALS[] = {"ab ", "a \t\n\v\f\r", "ab\n", "a\n\xe4\xa0\x85\xff", "abcdefgh"};
static S iotext() { S t = text(IOALS[nv_r(5)]); for (size_t k = nv_r(8) ? 0 : nv_r(4); k && t.size(); --k) t[nv_r(t.size())] = 0; return t; }
static void out(bool mv) {
  for (int i = 0; i < N(20000, 150000); ++i) {
    S t = iotext(), pre = nv_bytes(nv_r(3), "xy"); nv_in("os << %s%s", mv ? "(moved) " : "", nv_q(t).c_str());
    std::ostringstream os; os << pre; String x(mk(t));
    std::ostream* r = mv ? &(os << std::move(x)) : &(os << static_cast<const String&>(x));
    REQ("text", r == &os, "another stream is returned"); REQ("text", os.good(), "the stream failed");
    REQ("text", os.str() == pre + t, "wrote %s", nv_q(os.str()).c_str());
    if (!mv) REQ("perm", str(x) == t, "operand changed");
  }
}
TEST(e_out) { out(false); } TEST(e_outr) { out(true); }
static void in(bool line) {
  for (int i = 0; i < N(20000, 150000); ++i) {
    S t = iotext(), old = nv_bytes(nv_r(20), "xy"); std::istringstream is(t); size_t p = nv_r(2) ? 0 : nv_r(t.size() + 1); bool dead = !nv_r(20);
    is.seekg(p); if (dead) is.setstate(std::ios::failbit);
    nv_in("%s into %s from %s at %zu%s", line ? "getline" : ">>", nv_q(old).c_str(), nv_q(t).c_str(), p, dead ? " (failed stream)" : "");
    auto sp = [](char c) { return c == ' ' || (c >= 9 && c <= 13); };
    size_t b = p; if (!line) while (b < t.size() && sp(t[b])) ++b;
    size_t e = b; while (e < t.size() && !(line ? t[e] == '\n' : sp(t[e]))) ++e;
    String x(mk(old)), keep(x); std::istream* r = line ? &getline(is, x) : &(is >> x);
    S want = dead ? S() : t.substr(b, e - b);
    REQ("text", r == &is, "another stream is returned"); REQ("text", str(x) == want, "got %s, expected %s", nv_q(str(x)).c_str(), nv_q(want).c_str());
    REQ("perm", str(keep) == old, "copy of the target changed");
    if (dead || b == t.size()) REQ("text", is.fail(), "failure not reported");
    if (!dead && e < t.size()) REQ("text", !is.fail(), "reported as failed");
    is.clear(); size_t at = is.tellg(), wat = dead ? p : line && e < t.size() ? e + 1 : e; REQ("text", at == wat, "stream left at %zu, expected %zu", at, wat);
  }
}
TEST(e_in) { in(false); } TEST(e_getline) { in(true); }
// ranges: strings, and arrays of strings, from pointers and from library iterators
static S cat(const Array<String>& a) { S r; for (size_t i = 0; i < a.length(); ++i) r += str(String(a.at(i))) + "|"; return r; }
static void range(bool ctor) {
  for (int i = 0; i < N(20000, 200000); ++i) {
    S t = ctor ? S() : nv_bytes(nv_r(i % 50 ? 9 : 300)), d = nv_bytes(nv_r(i % 50 ? 7 : 200)); size_t p = nv_r(t.size() + 1); S w = t.substr(0, p) + d + t.substr(p);
    nv_in(ctor ? "range of %s%.0s" : "range %s into %s at %zu", nv_q(d).c_str(), nv_q(t).c_str(), p);
    std::vector<char> src(d.begin(), d.end());
    if (ctor) {
      bd::ReferenceCountedArray<char> a(src.data(), src.data() + src.size()); REQ("func", S(a.cbegin(), a.length()) == d, "got %s", nv_q(S(a.cbegin(), a.length())).c_str());
      String b(src.begin(), src.end()); REQ("func", str(b) == d, "got %s", nv_q(str(b)).c_str());
    } else {
      String x(mk(t)), keep(x); char* r = nv_r(2) ? x.insert(x.cbegin() + p, src.data(), src.data() + src.size()) : x.insert(x.cbegin() + p, src.begin(), src.end());
      REQ("func", str(x) == w, "got %s, expected %s", nv_q(str(x)).c_str(), nv_q(w).c_str()); REQ("func", w.empty() || r == x.begin() + p, "returned iterator is wrong");
      REQ("perm", str(keep) == t, "copy of the receiver changed");
    }
    REQ("perm", S(src.begin(), src.end()) == d, "source changed");
    // the same with elements of class type
    std::vector<String> vs; for (char c : d) vs.push_back(mk(S(1 + (unsigned char)c % 3, c)));
    S dj, tj; for (auto& v : vs) dj += str(v) + "|";
    if (ctor) { Array<String> a(vs.data(), vs.data() + vs.size()), b(vs.begin(), vs.end()); REQ("func", cat(a) == dj && cat(b) == dj, "array of strings from a range: %s / %s", nv_q(cat(a)).c_str(), nv_q(cat(b)).c_str()); }
    else {
      Array<String> x; S pre, post; for (size_t k = 0; k < t.size(); ++k) { x.push_back(mk(S(1, t[k]))); (k < p ? pre : post) += S(1, t[k]) + "|"; }
      Array<String> keep(x); String* r = nv_r(2) ? x.insert(x.cbegin() + p, vs.data(), vs.data() + vs.size()) : x.insert(x.cbegin() + p, vs.begin(), vs.end());
      REQ("func", cat(x) == pre + dj + post, "array of strings: got %s", nv_q(cat(x)).c_str()); REQ("func", x.length() == 0 || r == x.begin() + p, "returned iterator is wrong (array)");
      REQ("perm", cat(keep) == pre + post, "copy of the array changed");
    }
    S dj2; for (auto& v : vs) dj2 += str(v) + "|"; REQ("perm", dj2 == dj, "source elements changed");
  }
}
TEST(e_insert_range) { range(false); }
TEST(e_ctor_range) { range(true); }
