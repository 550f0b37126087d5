// Verification translation unit: Stream, the real sources; String operations are used through their contracts.
#include "String.cpp"
#include "ReferenceCountedArray.cpp"
#include "Stream.cpp"
using bd::String; using bd::Stream;
typedef bd::ReferenceCountedArray<char> R;
#define E extern "C" __attribute__((used))
E void e_st_ctor(Stream* s) { new (s) Stream(); }
E void e_st_ctor_str(Stream* s, const String* o) { new (s) Stream(*o); }
E void e_st_ctor_strr(Stream* s, String* o) { new (s) Stream(std::move(*o)); }
E void e_st_ctor_copy(Stream* s, const Stream* o) { new (s) Stream(*o); }
E void e_st_ctor_move(Stream* s, Stream* o) { new (s) Stream(std::move(*o)); }
E void e_st_ctor_int(Stream* s, int n) { new (s) Stream(n); }
E void e_st_assign(Stream* s, const Stream* o) { *s = *o; }
E void e_st_swap(Stream* s, Stream* o) { swap(*s, *o); }
E void e_st_dtor(Stream* s) { s->~Stream(); }
E void e_st_puts(Stream* s, const String* o) { s->puts(*o); }
E void e_st_putsr(Stream* s, String* o) { s->puts(std::move(*o)); }
E void e_st_shl(Stream* s, const String* o) { *s << *o; }
E void e_st_shlr(Stream* s, String* o) { *s << std::move(*o); }
E void e_st_read(String* r, Stream* s, size_t n, char d) { new (r) String(s->read(n, d)); }
E void e_st_read0(String* r, Stream* s, size_t n) { new (r) String(s->read(n)); }
E void e_st_getline(String* r, Stream* s, size_t n) { new (r) String(s->getline(n)); }
E void e_st_getline0(String* r, Stream* s) { new (r) String(s->getline()); }
E void e_st_peek(String* r, Stream* s) { new (r) String(s->peek()); }
E void e_st_str(String* r, const Stream* s) { new (r) String(static_cast<String>(*s)); }
E int e_st_seek(Stream* s, int o, int w) { return s->seek(o, w); }
E void e_st_truncate(Stream* s) { s->truncate(); }
E void e_st_clear(Stream* s) { s->clear(); }
E void e_st_reserve(const Stream* s, size_t n) { s->reserve(n); }
E size_t e_st_tell(const Stream* s) { return s->tell(); }
E size_t e_st_length(const Stream* s) { return s->length(); }
E size_t e_st_capacity(const Stream* s) { return s->capacity(); }
E bool e_st_not(const Stream* s) { return !*s; }
E int e_st_load(Stream* s, int fd) { return s->loadFile(fd); }
E int e_st_loadf(Stream* s, const String* f) { return s->loadFile(*f); }
E int e_st_write(const Stream* s, int fd) { return s->writeFile(fd); }
E int e_st_writef(const Stream* s, const String* f, mode_t m) { return s->writeFile(*f, m); }
#define LAY(n, v) extern "C" __attribute__((used)) const size_t n = (v);
#pragma clang diagnostic ignored "-Winvalid-offsetof"
LAY(L_st_str, __builtin_offsetof(Stream, str)) LAY(L_st_pos, __builtin_offsetof(Stream, pos)) LAY(L_st_loading, __builtin_offsetof(Stream, loading))
LAY(L_sizeof_st, sizeof(Stream)) LAY(L_sizeof_str, sizeof(String))
