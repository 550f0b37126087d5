// Array of a plain element type: the real templates, one thin entry per public operation.
#include "Array.h"
#include "String.cpp"
#include "ReferenceCountedArray.cpp"
using bd::Array; using bd::Slice;
typedef long T; typedef Array<T> A;
typedef bd::ReferenceCountedArray<T> R;
#define E extern "C" __attribute__((used))
static const R& rr(const A* s) { return *s; }
E void e_ctor_default(A* s) { new (s) A(); }
E void e_ctor_copy(A* s, const A* o) { new (s) A(*o); }
E void e_ctor_move(A* s, A* o) { new (s) A(std::move(*o)); }
E void e_ctor_cstrn(A* s, const T* c, size_t n) { new (s) A(c, n); }
E void e_ctor_cap(A* s, size_t n) { new (s) A(n); }
E void e_ctor_fill(A* s, size_t n, T c) { new (s) A(n, c); }
E void e_ctor_il(A* s, const std::initializer_list<T>* il) { new (s) A(*il); }
E void e_dtor(A* s) { s->~A(); }
E void e_assign_copy(A* s, const A* o) { *s = *o; }
E void e_assign_move(A* s, A* o) { *s = std::move(*o); }
E void e_assign_il(A* s, const std::initializer_list<T>* il) { *s = *il; }
E void e_reserve(const A* s, size_t n) { s->reserve(n); }
E void e_clear(A* s) { s->clear(); }
E void e_resize(A* s, size_t n) { s->resize(n); }
E void e_resize_v(A* s, size_t n, T c) { s->resize(n, c); }
E size_t e_capacity(const A* s) { return s->capacity(); }
E size_t e_length(const A* s) { return s->length(); }
E size_t e_size(const A* s) { return s->size(); }
E bool e_empty(const A* s) { return s->isEmpty(); }
E bool e_not(const A* s) { return !*s; }
E bool e_bool(const A* s) { return bool(*s); }
E const T* e_data(const A* s) { return s->data(); }
E T* e_mdata(const A* s) { return s->mdata(); }
E T* e_begin(A* s) { return s->begin(); }
E T* e_end(A* s) { return s->end(); }
E const T* e_cbegin(const A* s) { return s->cbegin(); }
E const T* e_cend(const A* s) { return s->cend(); }
E T* e_rbegin(A* s) { return s->rbegin().base(); }
E T* e_rend(A* s) { return s->rend().base(); }
E const T* e_at(const A* s, size_t p) { return &s->at(p); }
E const T* e_idx(const A* s, size_t p) { return &(*s)[p]; }
E const T* e_read(const A* s, size_t p) { return &s->read(p); }
E T* e_mread(A* s, size_t p) { return &s->read(p); }
E const T* e_cref_get(A* s, size_t p) { return &(*s)[p].get(); }
E T* e_cref_mget(A* s, size_t p) { return &(*s)[p].mget(); }
E void e_cref_set(A* s, size_t p, const T* c) { (*s)[p] = *c; }
E void e_cref_setr(A* s, size_t p, T c) { (*s)[p] = std::move(c); }
E void e_cref_setcref(A* s, size_t p, A* o, size_t q) { const auto c = (*o)[q]; (*s)[p] = c; }
E void e_write(A* s, size_t p, const T* c) { s->write(p, *c); }
E void e_writer(A* s, size_t p, T c) { s->write(p, std::move(c)); }
E T* e_front(A* s) { return &s->front(); }
E const T* e_cfront(const A* s) { return &s->front(); }
E T* e_back(A* s) { return &s->back(); }
E const T* e_cback(const A* s) { return &s->back(); }
E void e_insert_item(A* s, size_t p, const T* c) { s->insert(p, *c); }
E void e_insert_itemr(A* s, size_t p, T c) { s->insert(p, std::move(c)); }
E void e_insert_rca(A* s, size_t p, const A* o) { s->insert(p, rr(o)); }
E void e_insert_rcan(A* s, size_t p, const A* o, size_t n) { s->insert(p, rr(o), n); }
E void e_insert_rcar(A* s, size_t p, A* o) { s->insert(p, static_cast<R&&>(*o)); }
E void e_insert_rcarn(A* s, size_t p, A* o, size_t n) { s->insert(p, static_cast<R&&>(*o), n); }
E T* e_insert_it(A* s, size_t i, const T* c) { return s->insert(s->cbegin() + i, *c); }
E T* e_insert_itr(A* s, size_t i, T c) { return s->insert(s->cbegin() + i, std::move(c)); }
E void e_append_item(A* s, const T* c) { s->append(*c); }
E void e_append_itemr(A* s, T c) { s->append(std::move(c)); }
E void e_push_back(A* s, const T* c) { s->push_back(*c); }
E void e_push_backr(A* s, T c) { s->push_back(std::move(c)); }
E void e_push_front(A* s, const T* c) { s->push_front(*c); }
E void e_push_frontr(A* s, T c) { s->push_front(std::move(c)); }
E void e_lshift(A* s, const T* c) { *s << *c; }
E void e_lshiftr(A* s, T c) { *s << std::move(c); }
E void e_pop_back(A* s) { s->pop_back(); }
E T e_pop(A* s) { return s->pop(); }
E T e_popr(A* s) { return std::move(*s).pop(); }
E T e_shift(A* s) { return s->shift(); }
E T e_shiftr(A* s) { return std::move(*s).shift(); }
E void e_rshift(A* s, T* c) { *s >> *c; }
E void e_append_rca(A* s, const A* o, size_t n) { s->append(*o, n); }
E void e_append_rcar(A* s, A* o, size_t n) { s->append(std::move(*o), n); }
E void e_replace_item(A* s, size_t p, const T* c) { s->replace(p, *c); }
E void e_replace_itemr(A* s, size_t p, T c) { s->replace(p, std::move(c)); }
E void e_replace_rca(A* s, size_t p, const A* o, size_t n) { s->replace(p, *o, n); }
E void e_replace_rcar(A* s, size_t p, A* o, size_t n) { s->replace(p, std::move(*o), n); }
E void e_pluseq_item(A* s, const T* c) { *s += *c; }
E void e_pluseq_arr(A* s, const A* o) { *s += *o; }
E void e_plus(A* r, const A* a, const A* b) { new (r) A(*a + *b); }
E void e_swap(A* a, A* b) { swap(*a, *b); }
E void e_slice(A* s, ssize_t a, ssize_t n) { s->slice(a, n); }
E void e_substring(A* r, const A* s, ssize_t a, ssize_t n) { new (r) A(s->subarray(a, n)); }
E void e_call_c(A* r, const A* s, ssize_t a, ssize_t n) { new (r) A((*s)(a, n)); }
E void e_call_m(A* r, A* s, ssize_t a, ssize_t n) { new (r) A((*s)(a, n)); }
E void e_slice_get(A* r, A* s, ssize_t a, ssize_t n) { new (r) A((*s)(a, n).get()); }
E void e_slice_assign(A* s, ssize_t a, ssize_t n, const A* o) { (*s)(a, n) = *o; }
E void e_slice_assignr(A* s, ssize_t a, ssize_t n, A* o) { (*s)(a, n) = std::move(*o); }
E void e_pluseq_n(A* s, int n) { *s += n; }
E void e_minuseq_n(A* s, int n) { *s -= n; }
E void e_preinc(A* s) { ++*s; }
E void e_predec(A* s) { --*s; }
E void e_postinc(A* r, A* s) { new (r) A((*s)++); }
E void e_postdec(A* r, A* s) { new (r) A((*s)--); }
E size_t e_hash(const A* s) { return s->hash(); }
E size_t e_stdhash(const A* s) { return std::hash<A>()(*s); }
E bool e_eq(const A* s, const A* o) { return *s == *o; }
E bool e_ne(const A* s, const A* o) { return *s != *o; }
E bool e_equalsn(const A* s, const A* o, size_t n) { return s->equals(*o, n); }
E void e_postincr(A* r, A* s) { new (r) A(std::move(*s)++); }
E void e_postdecr(A* r, A* s) { new (r) A(std::move(*s)--); }
E bool e_equals(const A* s, const A* o) { return s->equals(*o); }
E size_t e_find_item(const A* s, const T* c) { return s->find(*c); }
E size_t e_find_itemp(const A* s, const T* c, size_t p) { return s->find(*c, p); }
E size_t e_rfind_item(const A* s, const T* c) { return s->rfind(*c); }
typedef bd::ArrayRef<T> AR;
#define LAY(n, v) extern "C" __attribute__((used)) const size_t n = (v);
LAY(L_Ref, __builtin_offsetof(R, Ref)) LAY(L_offset, __builtin_offsetof(R, offset))
LAY(L_sublen, __builtin_offsetof(R, sublen)) LAY(L_hash, __builtin_offsetof(R, my_hash))
LAY(L_size, __builtin_offsetof(AR, size)) LAY(L_buf, __builtin_offsetof(AR, buf)) LAY(L_refs, __builtin_offsetof(AR, refs))
LAY(L_sizeof_ref, sizeof(AR)) LAY(L_sizeof_str, sizeof(A))
