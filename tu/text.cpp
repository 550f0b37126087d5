// Verification translation unit: text functions built on String; String operations are used through their contracts.
#include "String.cpp"
#include "ReferenceCountedArray.cpp"
#include "Array.h"
using bd::String; using bd::Array;
#define E extern "C" __attribute__((used))
E void e_sub(String* r, const String* s, const String* a, const String* b, int n) { new (r) String(s->sub(*a, *b, n)); }
E void e_times(String* r, const String* s, int n) { new (r) String(*s * n); }
E void e_newsplit(String* r, String* s, char d) { new (r) String(newsplit(*s, d)); }
E size_t e_ifind(const String* s, const String* o) { return s->ifind(*o); }
E size_t e_rifind(const String* s, const String* o, size_t p) { return s->rifind(*o, p); }
E void e_split(Array<String>* r, const String* s, const String* d, size_t n) { new (r) Array<String>(s->split(*d, n)); }
E void e_join(String* r, const Array<String>* a, const String* d, bool q) { new (r) String(a->join(*d, q)); }
E void e_printf(String* r, const char* f, int a) { new (r) String(String::printf(f, a)); }
E void e_subst(String* r, const String* s, const bd::HashTable<String, String>* h) { new (r) String(s->subst(*h)); }
E std::ostream* e_out(std::ostream* o, const String* s) { return &(*o << *s); }
E std::ostream* e_outr(std::ostream* o, String* s) { return &(*o << std::move(*s)); }
E std::istream* e_in(std::istream* i, String* s) { return &(*i >> *s); }
E std::istream* e_getline(std::istream* i, String* s) { return &getline(*i, *s); }
E char* e_insert_range(String* s, size_t i, const char* b, const char* e) { return s->insert(s->cbegin() + i, b, e); }
E void e_ctor_range(bd::ReferenceCountedArray<char>* s, const char* b, const char* e) { new (s) bd::ReferenceCountedArray<char>(b, e); }
#define LAY(n, v) extern "C" __attribute__((used)) const size_t n = (v);
LAY(L_sizeof_str, sizeof(String)) LAY(L_sizeof_arr, sizeof(Array<String>)) LAY(L_sizeof_ht, sizeof(bd::HashTable<String, String>))
