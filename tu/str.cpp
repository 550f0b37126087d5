// Verification translation unit: the real sources, plus one thin entry per
// public operation so that overload resolution is done by the compiler.
#include "String.cpp"
#include "ReferenceCountedArray.cpp"
using bd::String; using bd::Array; using bd::Slice;
typedef bd::ReferenceCountedArray<char> R;
#define E extern "C" __attribute__((used))
static const R& rr(const String* s) { return *s; }
// construction / destruction / assignment
E void e_ctor_default(String* s) { new (s) String(); }
E void e_ctor_copy(String* s, const String* o) { new (s) String(*o); }
E void e_ctor_move(String* s, String* o) { new (s) String(std::move(*o)); }
E void e_ctor_cstr(String* s, const char* c) { new (s) String(c); }
E void e_ctor_cstrn(String* s, const char* c, size_t n) { new (s) String(c, n); }
E void e_ctor_char(String* s, char c) { new (s) String(c); }
E void e_ctor_cap(String* s, size_t n) { new (s) String(n); }
E void e_ctor_fill(String* s, size_t n, char c) { new (s) String(n, c); }
E void e_ctor_il(String* s, const std::initializer_list<char>* il) { new (s) String(*il); }
E void e_ctor_it(String* s, const char* b, const char* e) { new (s) String(b, e); }
E void e_dtor(String* s) { s->~String(); }
E void e_assign_copy(String* s, const String* o) { *s = *o; }
E void e_assign_move(String* s, String* o) { *s = std::move(*o); }
E void e_assign_cstr(String* s, const char* c) { *s = c; }
E void e_assign_il(String* s, const std::initializer_list<char>* il) { *s = *il; }
// capacity
namespace { struct Own : String { using String::AboutToModify; }; }
E void e_own(const String* s, size_t n) { static_cast<const Own*>(s)->AboutToModify(n); }
E void e_reserve(const String* s, size_t n) { s->reserve(n); }
E void e_clear(String* s) { s->clear(); }
E void e_resize(String* s, size_t n) { s->resize(n); }
E void e_resize_v(String* s, size_t n, char c) { s->resize(n, c); }
E size_t e_capacity(const String* s) { return s->capacity(); }
E size_t e_length(const String* s) { return s->length(); }
E size_t e_size(const String* s) { return s->size(); }
E bool e_empty(const String* s) { return s->isEmpty(); }
E bool e_not(const String* s) { return !*s; }
E bool e_bool(const String* s) { return bool(*s); }
E size_t e_rcount(const String* s) { return s->rcount(); }
E bool e_shared(const String* s) { return s->isShared(); }
// access
E const char* e_data(const String* s) { return s->data(); }
E char* e_mdata(const String* s) { return s->mdata(); }
E char* e_begin(String* s) { return s->begin(); }
E char* e_end(String* s) { return s->end(); }
E const char* e_cbegin(const String* s) { return s->cbegin(); }
E const char* e_cend(const String* s) { return s->cend(); }
E char* e_rbegin(String* s) { return s->rbegin().base(); }
E char* e_rend(String* s) { return s->rend().base(); }
E const char* e_crbegin(const String* s) { return s->crbegin().base(); }
E const char* e_crend(const String* s) { return s->crend().base(); }
E const char* e_at(const String* s, size_t p) { return &s->at(p); }
E char e_charat(const String* s, size_t p) { return s->charAt(p); }
E const char* e_idx(const String* s, size_t p) { return &(*s)[p]; }
E const char* e_read(const String* s, size_t p) { return &s->read(p); }
E char* e_mread(String* s, size_t p) { return &s->read(p); }
E const char* e_cref_get(String* s, size_t p) { return &(*s)[p].get(); }
E char* e_cref_mget(String* s, size_t p) { return &(*s)[p].mget(); }
E void e_cref_set(String* s, size_t p, const char* c) { (*s)[p] = *c; }
E void e_cref_setr(String* s, size_t p, char c) { (*s)[p] = std::move(c); }
E void e_cref_setcref(String* s, size_t p, String* o, size_t q) { const auto c = (*o)[q]; (*s)[p] = c; }
E void e_write(String* s, size_t p, const char* c) { s->write(p, *c); }
E void e_write_spare(String* s, size_t p, char c) { s->write(p, std::move(c)); }
E size_t e_cdist(const String* s) { return s->cend() - s->cbegin(); }
E void e_writer(String* s, size_t p, char c) { s->write(p, std::move(c)); }
E char* e_front(String* s) { return &s->front(); }
E const char* e_cfront(const String* s) { return &s->front(); }
E char* e_back(String* s) { return &s->back(); }
E const char* e_cback(const String* s) { return &s->back(); }
E const char* e_c_str(const String* s) { return s->c_str(); }
E const char* e_deref(const String* s) { return **s; }
E char* e_dup(const String* s) { return s->dup(); }
E size_t e_copy(const String* s, char* d, size_t n) { return s->copy(d, n); }
E size_t e_stdstr(const String* s, char* d) { const std::string x(*s); ::memcpy(d, x.data(), x.size()); return x.size(); }
// edits
E void e_insert_item(String* s, size_t p, const char* c) { s->insert(p, *c); }
E void e_insert_itemr(String* s, size_t p, char c) { s->insert(p, std::move(c)); }
E void e_insert_rca(String* s, size_t p, const String* o) { s->insert(p, rr(o)); }
E void e_insert_rcan(String* s, size_t p, const String* o, size_t n) { s->insert(p, rr(o), n); }
E void e_insert_rcar(String* s, size_t p, String* o) { s->insert(p, static_cast<R&&>(*o)); }
E void e_insert_rcarn(String* s, size_t p, String* o, size_t n) { s->insert(p, static_cast<R&&>(*o), n); }
E void e_insert_cstr(String* s, size_t p, const char* c) { s->insert(p, c); }
E void e_insert_cstrn(String* s, size_t p, const char* c, size_t n) { s->insert(p, c, n); }
E char* e_insert_it(String* s, size_t i, const char* c) { return s->insert(s->cbegin() + i, *c); }
E char* e_insert_itr(String* s, size_t i, char c) { return s->insert(s->cbegin() + i, std::move(c)); }
E char* e_insert_range(String* s, size_t i, const char* b, const char* e) { return s->insert(s->cbegin() + i, b, e); }
E void e_append_item(String* s, const char* c) { s->append(*c); }
E void e_append_itemr(String* s, char c) { s->append(std::move(c)); }
E void e_push_back(String* s, const char* c) { s->push_back(*c); }
E void e_push_backr(String* s, char c) { s->push_back(std::move(c)); }
E void e_pop_back(String* s) { s->pop_back(); }
E void e_append_rca(String* s, const String* o, size_t n) { s->append(*o, n); }
E void e_append_rcar(String* s, String* o, size_t n) { s->append(std::move(*o), n); }
E void e_append_cstr(String* s, const char* c) { s->append(c); }
E void e_append_cstrn(String* s, const char* c, size_t n) { s->append(c, n); }
E void e_replace_item(String* s, size_t p, const char* c) { s->replace(p, *c); }
E void e_replace_itemr(String* s, size_t p, char c) { s->replace(p, std::move(c)); }
E void e_replace_rca(String* s, size_t p, const String* o, size_t n) { s->replace(p, *o, n); }
E void e_replace_rcar(String* s, size_t p, String* o, size_t n) { s->replace(p, std::move(*o), n); }
E void e_replace_cstr(String* s, size_t p, const char* c) { s->replace(p, c); }
E void e_replace_cstrn(String* s, size_t p, const char* c, size_t n) { s->replace(p, c, n); }
E void e_pluseq_char(String* s, char c) { *s += c; }
E void e_pluseq_cstr(String* s, const char* c) { *s += c; }
E void e_pluseq_str(String* s, const String* o) { *s += *o; }
E void e_pluseq_strr(String* s, String* o) { *s += std::move(*o); }
E void e_plus(String* r, const String* a, const String* b) { new (r) String(*a + *b); }
E void e_swap(String* a, String* b) { swap(*a, *b); }
// slices
E void e_slice(String* s, ssize_t a, ssize_t n) { s->slice(a, n); }
E void e_substring(String* r, const String* s, ssize_t a, ssize_t n) { new (r) String(s->substring(a, n)); }
E void e_call_c(String* r, const String* s, ssize_t a, ssize_t n) { new (r) String((*s)(a, n)); }
E void e_call_m(String* r, String* s, ssize_t a, ssize_t n) { new (r) String((*s)(a, n)); }
E void e_slice_get(String* r, String* s, ssize_t a, ssize_t n) { new (r) String((*s)(a, n).get()); }
E void e_slice_assign(String* s, ssize_t a, ssize_t n, const String* o) { (*s)(a, n) = *o; }
E void e_slice_assignr(String* s, ssize_t a, ssize_t n, String* o) { (*s)(a, n) = std::move(*o); }
E void e_pluseq_n(String* s, size_t n) { *s += n; }
E void e_minuseq_n(String* s, size_t n) { *s -= n; }
E void e_preinc(String* s) { ++*s; }
E void e_predec(String* s) { --*s; }
E void e_postinc(String* r, String* s) { new (r) String((*s)++); }
E void e_postdec(String* r, String* s) { new (r) String((*s)--); }
E void e_trim(String* s) { s->trim(); }
E void e_chomp(String* s) { s->chomp(); }
E void e_trim_c(String* r, const String* s) { new (r) String(s->trim()); }
E void e_chomp_c(String* r, const String* s) { new (r) String(s->chomp()); }
// hash / compare / search
E size_t e_hash(const String* s) { return s->hash(); }
E size_t e_stdhash(const String* s) { return std::hash<String>()(*s); }
E int e_cmp(const String* s, const String* o) { return s->compare(*o); }
E int e_cmpn(const String* s, const String* o, size_t n) { return s->compare(*o, n); }
E int e_cmp_c(const String* s, const char* c) { return s->compare(c); }
E int e_cmpn_c(const String* s, const char* c, size_t n) { return s->compare(c, n); }
E bool e_eq(const String* s, const String* o) { return *s == *o; }
E bool e_ne(const String* s, const String* o) { return *s != *o; }
E bool e_lt(const String* s, const String* o) { return *s < *o; }
E bool e_le(const String* s, const String* o) { return *s <= *o; }
E bool e_gt(const String* s, const String* o) { return *s > *o; }
E bool e_ge(const String* s, const String* o) { return *s >= *o; }
E bool e_eq_c(const String* s, const char* c) { return *s == c; }
E bool e_ne_c(const String* s, const char* c) { return *s != c; }
E bool e_lt_c(const String* s, const char* c) { return *s < c; }
E bool e_le_c(const String* s, const char* c) { return *s <= c; }
E bool e_gt_c(const String* s, const char* c) { return *s > c; }
E bool e_ge_c(const String* s, const char* c) { return *s >= c; }
E size_t e_find_item(const String* s, const char* c) { return s->find(*c); }
E size_t e_find_itemp(const String* s, const char* c, size_t p) { return s->find(*c, p); }
E size_t e_rfind_item(const String* s, const char* c) { return s->rfind(*c); }
E size_t e_find(const String* s, const String* o) { return s->find(*o); }
E size_t e_findp(const String* s, const String* o, size_t p) { return s->find(*o, p); }
E size_t e_rfind(const String* s, const String* o, size_t lp) { return s->rfind(*o, lp); }
E size_t e_ifind(const String* s, const String* o) { return s->ifind(*o); }
E size_t e_rifind(const String* s, const String* o, size_t lp) { return s->rifind(*o, lp); }
// text algorithms
E void e_sub(String* r, const String* s, const String* a, const String* b, int lim) { new (r) String(s->sub(*a, *b, lim)); }
E void e_subst(String* r, const String* s, const bd::HashTable<String,String>* h) { new (r) String(s->subst(*h)); }
E void e_mul(String* r, const String* s, int n) { new (r) String(*s * n); }
E void e_split(Array<String>* r, const String* s, const String* d, size_t lim) { new (r) Array<String>(s->split(*d, lim)); }
E void e_newsplit(String* r, String* s, char d) { new (r) String(newsplit(*s, d)); }
E void e_join(String* r, const Array<String>* a, const String* d, bool q) { new (r) String(a->join(*d, q)); }
// layout facts for the verifier (compiled with -fno-access-control)
typedef bd::ArrayRef<char> AR;
#define LAY(n, v) extern "C" __attribute__((used)) const size_t n = (v);
LAY(L_Ref, __builtin_offsetof(R, Ref)) LAY(L_offset, __builtin_offsetof(R, offset))
LAY(L_sublen, __builtin_offsetof(R, sublen)) LAY(L_hash, __builtin_offsetof(R, my_hash))
LAY(L_size, __builtin_offsetof(AR, size)) LAY(L_buf, __builtin_offsetof(AR, buf)) LAY(L_refs, __builtin_offsetof(AR, refs))
LAY(L_sizeof_ref, sizeof(AR)) LAY(L_sizeof_str, sizeof(String))
