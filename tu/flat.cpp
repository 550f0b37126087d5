// Verification translation unit: C-string helpers and base64, the real sources.
#include "String.cpp"
#include "ReferenceCountedArray.cpp"
#include "Cstrings.cpp"
#include "base64.cpp"
using bd::String;
typedef bd::ReferenceCountedArray<char> R;
#define E extern "C" __attribute__((used))
E size_t e_strlcpy(char* d, const char* s, size_t n) { return bd::strlcpy(d, s, n); }
E size_t e_strlcat(char* d, const char* s, size_t n) { return bd::strlcat(d, s, n); }
E char* e_strdup(const char* s) { return bd::strdup(s); }
E char* e_strldup(const char* s, size_t n) { return bd::strldup(s, n); }
E void e_str_redup(char** p, const char* s) { bd::str_redup(p, s); }
E void* e_calloc(size_t n, size_t m) { return bd::calloc(n, m); }
E void* e_realloc(void* p, size_t m) { return bd::realloc(p, m); }
E void e_b64enc_buf(const unsigned char* d, size_t* n, char* o, const char* cs) { bd::b64enc_buf(d, n, o, cs); }
E char* e_b64enc(const unsigned char* d, size_t* n, const char* cs) { return bd::b64enc(d, n, cs); }
E void e_b64dec_buf(const unsigned char* d, size_t* n, char* o, const char* cs) { bd::b64dec_buf(d, n, o, cs); }
E char* e_b64dec(const unsigned char* d, size_t* n, const char* cs) { return bd::b64dec(d, n, cs); }
E void e_base64Encode(String* r, const String* s, const char* cs) { new (r) String(bd::base64Encode(*s, cs)); }
E void e_base64Decode(String* r, const String* s, const char* cs) { new (r) String(bd::base64Decode(*s, cs)); }
// layout facts for the verifier (compiled with -fno-access-control)
typedef bd::ArrayRef<char> AR;
#define LAY(n, v) extern "C" __attribute__((used)) const size_t n = (v);
LAY(L_Ref, __builtin_offsetof(R, Ref)) LAY(L_offset, __builtin_offsetof(R, offset))
LAY(L_sublen, __builtin_offsetof(R, sublen)) LAY(L_hash, __builtin_offsetof(R, my_hash))
LAY(L_size, __builtin_offsetof(AR, size)) LAY(L_buf, __builtin_offsetof(AR, buf)) LAY(L_refs, __builtin_offsetof(AR, refs))
LAY(L_sizeof_ref, sizeof(AR)) LAY(L_sizeof_str, sizeof(String))
