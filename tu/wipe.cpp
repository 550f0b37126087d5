// Verification translation unit: destruction of strings (wiping of the storage).
#include "str.cpp"
E void e_wipe(String* s) { s->~String(); }
