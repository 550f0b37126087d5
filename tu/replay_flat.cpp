#include "flat.cpp"
#include "native.h"
static std::string z(const std::string& s) { std::string r; for (char c : s) r += c ? c : 'x'; return r; }
struct Heap { char* p; size_t n; Heap(size_t n, const std::string& init = "") : p((char*)malloc(n ? n : 1)), n(n) { for (size_t i = 0; i < n; ++i) p[i] = char(0xA0 + i % 7); memcpy(p, init.data(), std::min(n, init.size())); if (!n) { free(p); p = (char*)malloc(0); } } ~Heap() { free(p); } };
TEST(e_strlcpy) {
  for (int i = 0; i < (nv_thorough ? 60000 : 12000); ++i) {
    std::string s = z(nv_bytes(nv_r(9))); size_t siz = nv_r(11);
    Heap d(siz), src(s.size() + 1, s + '\0');
    std::string old(d.p, siz);
    nv_in("strlcpy(src=%s, siz=%zu)", nv_q(s).c_str(), siz);
    size_t r = e_strlcpy(d.p, src.p, siz);
    REQ("func", r == s.size(), "returned %zu", r);
    if (siz) { size_t m = std::min(s.size(), siz - 1); REQ("func", std::string(d.p, m) == s.substr(0, m) && d.p[m] == 0, "destination %s", nv_q(std::string(d.p, siz)).c_str()); }
  }
}
TEST(e_strlcat) {
  for (int i = 0; i < (nv_thorough ? 60000 : 12000); ++i) {
    std::string s = z(nv_bytes(nv_r(7))), a = z(nv_bytes(nv_r(7))); size_t siz = nv_r(12);
    Heap d(siz), src(s.size() + 1, s + '\0');
    if (a.size() < siz) memcpy(d.p, (a + '\0').data(), a.size() + 1); else { memcpy(d.p, a.data(), siz); a.resize(siz); }
    size_t dl = a.size();
    nv_in("strlcat(dst=%s, src=%s, siz=%zu)", nv_q(a).c_str(), nv_q(s).c_str(), siz);
    size_t r = e_strlcat(d.p, src.p, siz);
    REQ("func", r == dl + s.size(), "returned %zu", r);
    if (dl < siz) { size_t m = std::min(s.size(), siz - dl - 1); REQ("func", std::string(d.p, dl + m) == a + s.substr(0, m) && d.p[dl + m] == 0, "destination %s", nv_q(std::string(d.p, siz)).c_str()); }
    else REQ("func", std::string(d.p, siz) == a, "full destination changed");
  }
}
TEST(e_strdup) { for (int i = 0; i < 3000; ++i) { std::string s = z(nv_bytes(nv_r(20))); nv_in("strdup(%s)", nv_q(s).c_str()); Heap src(s.size() + 1, s + '\0'); char* p = e_strdup(src.p); REQ("func", p && s == p, "copy differs"); free(p); } }
TEST(e_strldup) { for (int i = 0; i < 6000; ++i) { std::string s = z(nv_bytes(nv_r(12))); size_t n = nv_r(14); if (!nv_r(20)) n = -1; nv_in("strldup(%s,%zu)", nv_q(s).c_str(), n);
  Heap src(s.size() + 1, s + '\0'); char* p = e_strldup(src.p, n); REQ("func", p && s.substr(0, n) == p, "copy %s", nv_q(p).c_str()); free(p); } }
TEST(e_str_redup) { for (int i = 0; i < 4000; ++i) { std::string s = z(nv_bytes(nv_r(12))); bool o = nv_r(2), n = nv_r(5); nv_in("str_redup(%s,%s)", o ? "old" : "null", n ? nv_q(s).c_str() : "null");
  char* p = o ? ::strdup("old value") : nullptr; Heap src(s.size() + 1, s + '\0'); e_str_redup(&p, n ? src.p : nullptr); REQ("func", n ? (p && s == p) : !p, "result differs"); free(p); } }
TEST(e_calloc) { for (int i = 1; i < 300; ++i) { nv_in("calloc(%d,8)", i); char* p = (char*)e_calloc(i, 8); bool ok = p; for (int k = 0; ok && k < i * 8; ++k) ok = p[k] == 0; REQ("func", ok, "zeroed memory"); free(p); } }
TEST(e_realloc) { for (int i = 1; i < 300; ++i) { nv_in("realloc(%d)", i); char* p = (char*)malloc(i); memset(p, i, i); p = (char*)e_realloc(p, i + 5); REQ("func", p && p[i - 1] == (char)i, "kept"); free(p); } }
static const char STDA[] = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
static std::string refenc(const std::string& s, const char* a) {
  std::string r; size_t i = 0;
  for (; i < s.size(); i += 3) { unsigned v = 0; for (int j = 0; j < 3; ++j) v = v << 8 | (i + j < s.size() ? (unsigned char)s[i + j] : 0);
    for (int j = 0; j < 4; ++j) r += (i + j > s.size() && j > 1) || (j > 1 && i + j - 1 >= s.size()) ? '=' : a[v >> (18 - 6 * j) & 63]; }
  return r;
}
static std::string alpha() { std::string a; for (int c = 0; c < 256; ++c) if (c != '=') a += char(c); std::shuffle(a.begin(), a.end(), nv_rng); a.resize(64); return a; }
static std::vector<std::string> inputs() { std::vector<std::string> v; for (int i = 0; i < (nv_thorough ? 20000 : 4000); ++i) v.push_back(nv_bytes(nv_r(i % 50 ? 14 : 300)));
  for (int c = 0; c < 256; ++c) { v.push_back(std::string(1, c)); v.push_back(std::string("\xff") + char(c)); v.push_back(std::string("ab") + char(c)); v.push_back(std::string("\x00\x00", 2) + char(c)); } return v; }
static void enc(int how) {
  for (auto& s : inputs()) {
    bool cust = nv_r(2); std::string al = cust ? alpha() : STDA;
    std::string want = refenc(s, al.data());
    nv_in("encode %s with %s alphabet", nv_q(s).c_str(), cust ? nv_q(al).c_str() : "default");
    Heap in(s.size(), s), cs(64, al); size_t len = s.size(); std::string got;
    if (how == 0) { Heap out(want.size()); e_b64enc_buf((unsigned char*)in.p, &len, out.p, cust ? cs.p : nullptr); REQ("func", len == want.size(), "length %zu", len); got.assign(out.p, std::min(len, want.size())); }
    else if (how == 1) { char* p = e_b64enc((unsigned char*)in.p, &len, cust ? cs.p : nullptr); got.assign(p, len); REQ("func", p[len] == 0, "terminator"); free(p); }
    else { String x(s.data(), s.size()); String y(bd::base64Encode(x, cust ? cs.p : nullptr)); got.assign(y.cbegin(), y.length()); }
    REQ("func", got == want, "got %s, expected %s", nv_q(got).c_str(), nv_q(want).c_str());
  }
}
static void dec(int how) {
  for (auto& s : inputs()) {
    bool cust = nv_r(2), any = nv_r(4) == 0; std::string al = cust ? alpha() : STDA;
    std::string e = any ? s : refenc(s, al.data());
    if (any && !cust) for (auto& c : e) if (nv_r(2)) c = STDA[nv_r(64)];
    char idx[256]; memset(idx, -1, 256); for (int i = 0; i < 64; ++i) idx[(unsigned char)al[i]] = i;
    nv_in("decode %s with %s alphabet", nv_q(e).c_str(), cust ? nv_q(al).c_str() : "default");
    size_t mx = (e.size() + 3) / 4 * 3;
    Heap in(e.size(), e), cs(64, al), ix(256, std::string(idx, 256)); size_t len = e.size(); std::string got;
    if (how == 0) { Heap out(mx); e_b64dec_buf((unsigned char*)in.p, &len, out.p, cust ? ix.p : nullptr); REQ("mem", len <= mx, "length %zu", len); got.assign(out.p, std::min(len, mx)); }
    else if (how == 1) { char* p = e_b64dec((unsigned char*)in.p, &len, cust ? cs.p : nullptr); got.assign(p, len); REQ("func", p[len] == 0, "terminator"); free(p); }
    else { String x(e.data(), e.size()); String y(bd::base64Decode(x, cust ? cs.p : nullptr)); got.assign(y.cbegin(), y.length()); }
    if (!any) REQ("func", got == s, "got %s, expected %s", nv_q(got).c_str(), nv_q(s).c_str());
  }
}
TEST(e_b64enc_buf) { enc(0); } TEST(e_b64enc) { enc(1); } TEST(e_base64Encode) { enc(2); }
TEST(e_b64dec_buf) { dec(0); } TEST(e_b64dec) { dec(1); } TEST(e_base64Decode) { dec(2); }
