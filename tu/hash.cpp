// Verification translation unit: HashTable over a key and a value class whose moves are visible; std::unordered_map by contract.
#include <cstdint>
#include <cstddef>
#include <initializer_list>
#include "HashTable.h"
using namespace bd;
#define E extern "C" __attribute__((used))
template <int N> struct Cell {
  uint64_t v; Cell() : v(0) {} Cell(uint64_t x) : v(x) {} Cell(const Cell& o) : v(o.v) {} Cell(Cell&& o) noexcept : v(o.v) { o.v = 0x6d6f766564ull; }
  Cell& operator=(const Cell& o) { v = o.v; return *this; } Cell& operator=(Cell&& o) noexcept { v = o.v; if (&o != this) o.v = 0x6d6f766564ull; return *this; }
  bool operator==(const Cell& o) const { return v == o.v; }
};
typedef Cell<0> K; typedef Cell<1> V;
namespace std { template <> struct hash<K> { size_t operator()(const K& k) const noexcept { return k.v % 7; } }; }
typedef HashTable<K, V> T;
E void e_new(T* t) { new (t) T(); }
E void e_new_cap(T* t, size_t n) { new (t) T(n); }
E void e_copy(T* t, const T* o) { new (t) T(*o); }
E void e_move(T* t, T* o) { new (t) T(std::move(*o)); }
E void e_list(T* t, std::initializer_list<T::value_type>* l) { new (t) T(*l); }
E void e_assign(T* t, const T* o) { *t = *o; }
E void e_assign_move(T* t, T* o) { *t = std::move(*o); }
E void e_assign_list(T* t, std::initializer_list<T::value_type>* l) { *t = *l; }
E void e_swap(T* a, T* b) { swap(*a, *b); }
E void e_clear(T* t) { t->clear(); }
E size_t e_size(const T* t) { return t->size(); }
E bool e_isEmpty(const T* t) { return t->isEmpty(); }
E bool e_bool(const T* t) { return bool(*t); }
E bool e_contains(const T* t, const K* k) { return t->contains(*k); }
E bool e_insert(T* t, const K* k, const V* v) { return t->insert(*k, *v); }
E bool e_insert_kv(T* t, K* k, V* v) { return t->insert(std::move(*k), std::move(*v)); }
E bool e_insert_k(T* t, K* k, const V* v) { return t->insert(std::move(*k), *v); }
E bool e_insert_v(T* t, const K* k, V* v) { return t->insert(*k, std::move(*v)); }
E bool e_remove(T* t, const K* k) { return t->remove(*k); }
E void e_getValue(V* r, const T* t, const K* k) { new (r) V(t->getValue(*k)); }
E void e_index_c(V* r, const T* t, const K* k) { new (r) V((*t)[*k]); }
E V* e_index(T* t, const K* k) { return &(*t)[*k]; }
E V* e_index_m(T* t, K* k) { return &(*t)[std::move(*k)]; }
E void e_set(T* t, const K* k, const V* v) { (*t)[*k] = *v; }
E bool e_find(T* t, const K* k, V* r) { auto i = t->find(*k); if (i == t->end()) return false; *r = i->second; return i->first == *k; }
E bool e_find_c(const T* t, const K* k, V* r) { auto i = t->find(*k); if (i == t->end()) return false; *r = i->second; return i->first == *k; }
E bool e_find_write(T* t, const K* k, const V* v) { auto i = t->find(*k); if (i == t->end()) return false; i->second = *v; return true; }
E bool e_begin_empty(T* t) { return t->begin() == t->end(); }
E bool e_cbegin_empty(const T* t) { return t->cbegin() == t->cend() && t->begin() == t->end(); }
#define LAY(n, v) extern "C" __attribute__((used)) const size_t n = (v);
LAY(L_sizeof_t, sizeof(T)) LAY(L_sizeof_list, sizeof(std::initializer_list<T::value_type>))
