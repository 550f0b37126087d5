// Verification translation unit: AtomicFile, the real sources; String operations are used through their contracts.
#include "String.cpp"
#include "ReferenceCountedArray.cpp"
#include "AtomicFile.cpp"
using bd::String; using bd::AtomicFile;
typedef bd::ReferenceCountedArray<char> R;
#define E extern "C" __attribute__((used))
E void e_af_ctor(AtomicFile* f) { new (f) AtomicFile(); }
E void e_af_dtor(AtomicFile* f) { f->~AtomicFile(); }
E bool e_af_open(AtomicFile* f, const String* n, mode_t m) { return f->open(*n, m); }
E bool e_af_abort(AtomicFile* f) { return f->abort(); }
E bool e_af_commit(AtomicFile* f) { return f->commit(); }
E bool e_af_is_open(const AtomicFile* f) { return f->is_open(); }
E int e_af_fd(AtomicFile* f) { return f->fd(); }
#define LAY(n, v) extern "C" __attribute__((used)) const size_t n = (v);
LAY(L_fname, __builtin_offsetof(AtomicFile, _fname)) LAY(L_tmpname, __builtin_offsetof(AtomicFile, _tmpname))
LAY(L_fd, __builtin_offsetof(AtomicFile, _fd)) LAY(L_mode, __builtin_offsetof(AtomicFile, _mode)) LAY(L_sizeof_af, sizeof(AtomicFile))
LAY(L_sizeof_str, sizeof(String))
