#include "hash.cpp"
#include "native.h"
#include <memory>
typedef std::map<uint64_t, uint64_t> Ref;
static bool same(const T& t, const Ref& r) { if (t.size() != r.size()) return false; size_t n = 0; for (auto& p : t) { auto i = r.find(p.first.v); if (i == r.end() || i->second != p.second.v) return false; ++n; } return n == r.size(); }
static uint64_t rk() { return nv_r(12); } static uint64_t rv() { return 1 + nv_r(1000); }
static void fill(T& t, Ref& r) { int n = nv_r(nv_r(10) ? 8 : 300); for (int i = 0; i < n; ++i) { uint64_t k = nv_r(2) ? rk() : nv_r(500), v = rv(); switch (nv_r(3)) { case 0: t.remove(K(k)); r.erase(k); break; case 1: t[K(k)] = V(v); r[k] = v; break; default: t.insert(K(k), V(v)); r.insert({k, v}); } } }
static void check(const T& t, const Ref& r, const char* w) { REQ("map", same(t, r), "%s: table of %zu elements differs from the expected %zu", w, t.size(), r.size()); }
#define ROUNDS for (int i = 0; i < (nv_thorough ? 20000 : 2000); ++i)
struct Raw { alignas(T) char m[sizeof(T)]; T* p() { return (T*)m; } };
TEST(e_new) { Raw t; nv_in("default"); e_new(t.p()); check(*t.p(), {}, "new table"); t.p()->~T(); }
TEST(e_new_cap) { for (size_t n : {0, 1, 7, 1000}) { Raw t; nv_in("capacity %zu", n); e_new_cap(t.p(), n); check(*t.p(), {}, "new table"); t.p()->~T(); } }
#define TWO T t, o; Ref rt, ro; fill(t, rt); fill(o, ro); nv_in("tables of %zu and %zu", rt.size(), ro.size());
TEST(e_copy) { ROUNDS { TWO Raw c; e_copy(c.p(), &o); check(*c.p(), ro, "copy"); (*c.p())[K(3)] = V(7777); o.remove(K(4)); Ref x(ro); x[3] = 7777; ro.erase(4); check(*c.p(), x, "changed copy"); check(o, ro, "source"); c.p()->~T(); } }
TEST(e_move) { ROUNDS { TWO Raw c; e_move(c.p(), &o); check(*c.p(), ro, "moved"); o[K(1)] = V(2); REQ("map", o.contains(K(1)), "moved-from table unusable"); c.p()->~T(); } }
TEST(e_assign) { ROUNDS { TWO e_assign(&t, &o); check(t, ro, "assigned"); check(o, ro, "source"); e_assign(&t, &t); check(t, ro, "self-assigned"); t[K(5)] = V(1); check(o, ro, "source"); } }
TEST(e_assign_move) { ROUNDS { TWO e_assign_move(&t, &o); check(t, ro, "assigned"); o[K(1)] = V(2); REQ("map", o.contains(K(1)), "moved-from table unusable"); } }
#define LISTS(f) { std::initializer_list<T::value_type> l = {}; f(l); } { std::initializer_list<T::value_type> l = {{K(1), V(10)}}; f(l); } { std::initializer_list<T::value_type> l = {{K(1), V(10)}, {K(2), V(20)}, {K(9), V(30)}}; f(l); }
static void lcase(std::initializer_list<T::value_type>& l, bool ctor) { Ref r; for (auto& p : l) r.insert({p.first.v, p.second.v}); nv_in("list of %zu", l.size()); if (ctor) { Raw t; e_list(t.p(), &l); check(*t.p(), r, "from list"); t.p()->~T(); } else { T t; Ref x; fill(t, x); e_assign_list(&t, &l); check(t, r, "assigned from list"); } }
TEST(e_list) { auto f = [](std::initializer_list<T::value_type>& l) { lcase(l, true); }; LISTS(f) }
TEST(e_assign_list) { auto f = [](std::initializer_list<T::value_type>& l) { lcase(l, false); }; ROUNDS { LISTS(f) } }
TEST(e_swap) { ROUNDS { TWO e_swap(&t, &o); check(t, ro, "first"); check(o, rt, "second"); e_swap(&t, &t); check(t, ro, "self"); } }
TEST(e_clear) { ROUNDS { TWO e_clear(&t); check(t, {}, "cleared"); check(o, ro, "other"); } }
#define ONE T t; Ref r; fill(t, r); uint64_t k = nv_r(3) ? rk() : nv_r(600), v = rv(); K kk(k); V vv(v); bool had = r.count(k); nv_in("table of %zu, key %lu %s, value %lu", r.size(), k, had ? "present" : "absent", v); (void)v; (void)had;
TEST(e_size) { ROUNDS { ONE REQ("map", e_size(&t) == r.size(), "size %zu, expected %zu", e_size(&t), r.size()); } }
TEST(e_isEmpty) { ROUNDS { ONE REQ("map", e_isEmpty(&t) == r.empty(), "wrong"); } }
TEST(e_bool) { ROUNDS { ONE REQ("map", e_bool(&t) == !r.empty(), "wrong"); } }
TEST(e_begin_empty) { ROUNDS { ONE REQ("map", e_begin_empty(&t) == r.empty(), "wrong"); } }
TEST(e_cbegin_empty) { ROUNDS { ONE REQ("map", e_cbegin_empty(&t) == r.empty(), "wrong"); } }
TEST(e_contains) { ROUNDS { ONE REQ("map", e_contains(&t, &kk) == had, "wrong"); check(t, r, "table"); } }
#define INS(f) { ONE bool g = f(&t, &kk, &vv); REQ("map", g == !had, "reported %d", g); r.insert({k, v}); check(t, r, "after insert"); }
TEST(e_insert) { ROUNDS INS(e_insert) } TEST(e_insert_kv) { ROUNDS INS(e_insert_kv) } TEST(e_insert_k) { ROUNDS INS(e_insert_k) } TEST(e_insert_v) { ROUNDS INS(e_insert_v) }
TEST(e_remove) { ROUNDS { ONE bool g = e_remove(&t, &kk); REQ("map", g == had, "reported %d", g); r.erase(k); check(t, r, "after remove"); } }
#define GET(f) { ONE V x; f(&x, &t, &kk); uint64_t w = had ? r[k] : 0; REQ("map", x.v == w, "got %lu, expected %lu", x.v, w); check(t, r, "table"); }
TEST(e_getValue) { ROUNDS GET(e_getValue) } TEST(e_index_c) { ROUNDS GET(e_index_c) }
#define IDX(f) { ONE V* x = f(&t, &kk); uint64_t w = had ? r[k] : 0; REQ("map", x->v == w, "got %lu, expected %lu", x->v, w); r[k] = w; check(t, r, "table"); x->v = v; r[k] = v; check(t, r, "table after writing the element"); }
TEST(e_index) { ROUNDS IDX(e_index) } TEST(e_index_m) { ROUNDS IDX(e_index_m) }
TEST(e_set) { ROUNDS { ONE e_set(&t, &kk, &vv); r[k] = v; check(t, r, "table"); } }
#define FND(f) { ONE V x(v); bool g = f(&t, &kk, &x); REQ("map", g == had, "found %d", g); if (had) REQ("map", x.v == r[k], "got %lu, expected %lu", x.v, r[k]); check(t, r, "table"); }
TEST(e_find) { ROUNDS FND(e_find) } TEST(e_find_c) { ROUNDS FND(e_find_c) }
TEST(e_find_write) { ROUNDS { ONE bool g = e_find_write(&t, &kk, &vv); REQ("map", g == had, "found %d", g); if (had) r[k] = v; check(t, r, "table"); } }
