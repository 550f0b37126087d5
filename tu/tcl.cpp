// Verification translation unit: the Tcl interpreter binding; String, Array and the Tcl library are used through contracts.
#include "String.cpp"
#include "ReferenceCountedArray.cpp"
#include "ScriptInterpTCL.cpp"
using namespace bd;
#define E extern "C" __attribute__((used))
typedef int8_t i8; typedef uint8_t u8; typedef int16_t i16; typedef uint16_t u16; typedef int32_t i32; typedef uint32_t u32; typedef int64_t i64; typedef uint64_t u64;
#define CONV(T) E T e_from_##T(Tcl_Obj* o) { return tcl_to_c_cast<T>::from(o, nullptr); } \
  E Tcl_Obj* e_to_##T(const T* v, Tcl_Interp* i) { return c_to_tcl_cast<const T&>::from(*v, i); }
CONV(i8) CONV(u8) CONV(i16) CONV(u16) CONV(i32) CONV(u32) CONV(i64) CONV(u64) CONV(double) CONV(bool)
E void e_from_str(String* r, Tcl_Obj* o) { new (r) String(tcl_to_c_cast<String>::from(o, nullptr)); }
E const char* e_from_cstr(Tcl_Obj* o) { return tcl_to_c_cast<const char*>::from(o, nullptr); }
E Tcl_Obj* e_to_str(const String* s, Tcl_Interp* i) { return c_to_tcl_cast<const String&>::from(*s, i); }
E Tcl_Obj* e_to_cstr(const char* s, Tcl_Interp* i) { return c_to_tcl_cast<const char*>::from(s, i); }
E void e_from_list(Array<String>* r, Tcl_Obj* o, ScriptInterp* si) { new (r) Array<String>(tcl_to_c_cast<Array<String>>::from(o, si)); }
E void e_from_list2(Array<Array<String>>* r, Tcl_Obj* o, ScriptInterp* si) { new (r) Array<Array<String>>(tcl_to_c_cast<Array<Array<String>>>::from(o, si)); }
E Tcl_Obj* e_to_list2(const Array<Array<String>>* a, Tcl_Interp* i) { return c_to_tcl_cast<const Array<Array<String>>&>::from(*a, i); }
E Tcl_Obj* e_to_list(const Array<String>* a, Tcl_Interp* i) { return c_to_tcl_cast<const Array<String>&>::from(*a, i); }
// commands
E int e_trampoline(Tcl_Interp* i, int objc, Tcl_Obj* const* objv) { return ScriptInterpTCL::ScriptCmdTCL::_createCommand_callback(nullptr, i, objc, objv); }
#define CMD(N, R, ...) E void e_cmd_##N(R (*f)(__VA_ARGS__), size_t argc, void* const* argv, ScriptInterp* si, Tcl_Interp* i) { ScriptCommandHandlerTCL<R, ##__VA_ARGS__> h(f); h.call(argc, argv, si, i); }
CMD(v, void) CMD(i_i, i32, i32) CMD(s_s, String, String) CMD(v_si, void, String, i32) CMD(u_isu, u64, i16, String, u8)
// linked variables: the traces are fired through the pointers that were registered
extern "C" const char* bdv_fire(Tcl_Interp*, const char* name, int flags);
#define LINK(T) E const char* e_link_get_##T(ScriptInterpTCL* si, const String* n, T* v) { si->linkVar(*n, *v); return bdv_fire(si->interp, **n, TCL_TRACE_READS); } \
  E const char* e_link_set_##T(ScriptInterpTCL* si, const String* n, T* v, ScriptInterp::link_var_hook_t h) { si->linkVar(*n, *v, h); return bdv_fire(si->interp, **n, TCL_TRACE_WRITES); } \
  E const char* e_link_getc_##T(ScriptInterpTCL* si, const String* n, const T* v) { si->linkVar(*n, *v); return bdv_fire(si->interp, **n, TCL_TRACE_READS); } \
  E const char* e_link_setc_##T(ScriptInterpTCL* si, const String* n, const T* v) { si->linkVar(*n, *v); return bdv_fire(si->interp, **n, TCL_TRACE_WRITES); }
LINK(i8) LINK(u8) LINK(i16) LINK(u16) LINK(i32) LINK(u32) LINK(i64) LINK(u64) LINK(double) LINK(bool) LINK(String)
E const char* e_link_get_buf(ScriptInterpTCL* si, const String* n, char* b, size_t z) { si->linkVar(*n, b, z); return bdv_fire(si->interp, **n, TCL_TRACE_READS); }
E const char* e_link_set_buf(ScriptInterpTCL* si, const String* n, char* b, size_t z, ScriptInterp::link_var_hook_t h) { si->linkVar(*n, b, z, h); return bdv_fire(si->interp, **n, TCL_TRACE_WRITES); }
E const char* e_link_get_cstr(ScriptInterpTCL* si, const String* n, const char* b) { si->linkVar(*n, b); return bdv_fire(si->interp, **n, TCL_TRACE_READS); }
E const char* e_link_set_cstr(ScriptInterpTCL* si, const String* n, const char* b) { si->linkVar(*n, b); return bdv_fire(si->interp, **n, TCL_TRACE_WRITES); }
E void e_unlink(ScriptInterpTCL* si, const String* n) { si->unlinkVar(*n); }
E void e_eval(String* r, ScriptInterpTCL* si, const String* s) { new (r) String(si->eval(*s)); }
E int e_load(ScriptInterpTCL* si, const String* f, String* r) { return si->loadScript(*f, *r); }
// registration: the command is invoked the way Tcl would, through what was registered with it
extern "C" int bdv_invoke(Tcl_Interp*, const char* name, int objc, Tcl_Obj* const* objv);
typedef i32 (*fn2)(String, i32);
E int e_create(ScriptInterpTCL* si, const String* n, fn2 f, const char* usage, size_t min, int objc, Tcl_Obj* const* objv) { si->createCommand(*n, f, usage, min); return bdv_invoke(si->interp, **n, objc, objv); }
E int e_create_default(ScriptInterpTCL* si, const String* n, fn2 f, int objc, Tcl_Obj* const* objv) { ScriptInterp::createCommand(*si, *n, f); return bdv_invoke(si->interp, **n, objc, objv); }
E int e_recreate(ScriptInterpTCL* si, const String* n, fn2 f0, fn2 f, const char* usage, size_t min, int objc, Tcl_Obj* const* objv) { si->createCommand(*n, f0); si->createCommand(*n, f, usage, min); return bdv_invoke(si->interp, **n, objc, objv); }
E int e_delete(ScriptInterpTCL* si, const String* n, fn2 f, int objc, Tcl_Obj* const* objv) { si->createCommand(*n, f); si->deleteCommand(*n); return bdv_invoke(si->interp, **n, objc, objv); }
E int e_delete_absent(ScriptInterpTCL* si, const String* n, int objc, Tcl_Obj* const* objv) { si->deleteCommand(*n); return bdv_invoke(si->interp, **n, objc, objv); }
E void e_gone(ScriptInterpTCL* si, const String* n, fn2 f) { si->createCommand(*n, f); si->~ScriptInterpTCL(); }
E void bdv_destroy_cmd(ScriptInterp::ScriptCmdPtr* p) { p->~shared_ptr(); }
// callbacks
E void e_callback(String* r, ScriptInterpTCL* si, const String* cmd, const Array<String>* a) { ScriptCallbackerTCL cb(si, *cmd); new (r) String(cb.call(*a)); }
E void e_from_callback(ScriptCallbackerPtr* r, Tcl_Obj* o, ScriptInterp* si) { new (r) ScriptCallbackerPtr(tcl_to_c_cast<ScriptCallbackerPtr>::from(o, si)); }
E ScriptInterp* bdv_cb_si(const ScriptCallbackerPtr* p) { return (*p)->si; }
E const String* bdv_cb_cmd(const ScriptCallbackerPtr* p) { return &(*p)->cmd; }
#define LAY(n, v) extern "C" __attribute__((used)) const size_t n = (v);
LAY(L_sizeof_str, sizeof(String)) LAY(L_sizeof_arr, sizeof(Array<String>)) LAY(L_sizeof_si, sizeof(ScriptInterpTCL)) LAY(L_interp, __builtin_offsetof(ScriptInterpTCL, interp)) LAY(L_trace_ptrs, __builtin_offsetof(ScriptInterpTCL, trace_ptrs))
typedef ScriptInterpTCL::ScriptCmdTCL Cmd;
LAY(L_sizeof_cmd, sizeof(Cmd)) LAY(L_c_si, __builtin_offsetof(Cmd, si)) LAY(L_c_name, __builtin_offsetof(Cmd, cmdName)) LAY(L_c_proxy, __builtin_offsetof(Cmd, callback_proxy)) LAY(L_c_usage, __builtin_offsetof(Cmd, usage)) LAY(L_c_min, __builtin_offsetof(Cmd, callbackParamMin)) LAY(L_c_max, __builtin_offsetof(Cmd, callbackParamMax))
