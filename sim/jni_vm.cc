#include "jni_vm.h"

#include <cstdarg>
#include <cstdlib>
#include <new>
#include <unordered_set>

#include <sanitizer/asan_interface.h>
#include <sanitizer/common_interface_defs.h>

#include "vthreads.h"

// ---- allocation tracking -------------------------------------------------------------------------
namespace {
template <class T> struct MallocAlloc {
  using value_type = T;
  MallocAlloc() = default;
  template <class U> MallocAlloc(const MallocAlloc<U>&) {}
  T* allocate(size_t n) { return static_cast<T*>(malloc(n * sizeof(T))); }
  void deallocate(T* p, size_t) { free(p); }
  bool operator==(const MallocAlloc&) const { return true; }
};
bool g_on = false;
using Table = std::unordered_set<void*, std::hash<void*>, std::equal_to<void*>, MallocAlloc<void*>>;
Table& Live() {
  static Table* t = new (malloc(sizeof(Table))) Table;
  return *t;
}
void* Alloc(size_t n) {
  void* p = malloc(n ? n : 1);
  if (!p) abort();
  if (g_on) Live().insert(p);
  return p;
}
void* AllocAligned(size_t n, size_t a) {
  void* p = nullptr;
  if (posix_memalign(&p, a < sizeof(void*) ? sizeof(void*) : a, n ? n : 1)) abort();
  if (g_on) Live().insert(p);
  return p;
}
void Dealloc(void* p) {
  if (!p) return;
  if (!Live().empty()) Live().erase(p);
  free(p);
}
}  // namespace
void* operator new(size_t n) { return Alloc(n); }
void* operator new[](size_t n) { return Alloc(n); }
void* operator new(size_t n, const std::nothrow_t&) noexcept { return Alloc(n); }
void* operator new[](size_t n, const std::nothrow_t&) noexcept { return Alloc(n); }
void* operator new(size_t n, std::align_val_t a) { return AllocAligned(n, size_t(a)); }
void* operator new[](size_t n, std::align_val_t a) { return AllocAligned(n, size_t(a)); }
void operator delete(void* p) noexcept { Dealloc(p); }
void operator delete[](void* p) noexcept { Dealloc(p); }
void operator delete(void* p, size_t) noexcept { Dealloc(p); }
void operator delete[](void* p, size_t) noexcept { Dealloc(p); }
void operator delete(void* p, std::align_val_t) noexcept { Dealloc(p); }
void operator delete[](void* p, std::align_val_t) noexcept { Dealloc(p); }
void operator delete(void* p, size_t, std::align_val_t) noexcept { Dealloc(p); }
void operator delete[](void* p, size_t, std::align_val_t) noexcept { Dealloc(p); }

namespace dst {
void HeapTrack::On() { g_on = true; }
void HeapTrack::Off() { g_on = false; }
size_t HeapTrack::Live() { return ::Live().size(); }
void HeapTrack::Reset() { ::Live().clear(); }
std::string HeapTrack::Where() {
  std::string out;
  for (void* p : ::Live()) {
    void* pc[24];
    int tid;
    size_t n = __asan_get_alloc_stack(p, pc, 24, &tid);
    int shown = 0;
    for (size_t i = 2; i < n && shown < 5; ++i) {
      char buf[300];
      __sanitizer_symbolize_pc(pc[i], "%f", buf, sizeof buf);
      std::string f = buf;
      if (f.rfind("std::", 0) == 0 || f.find("operator") == 0) continue;
      out += (shown++ ? " < " : (out.empty() ? "" : "; ")) + f;
    }
    break;
  }
  return out;
}
HeapPause::HeapPause() : was(g_on) { g_on = false; }
HeapPause::~HeapPause() { g_on = was; }

// ---- the virtual machine ----------------------------------------------------------------------------
namespace {
Vm* g_vm = nullptr;
#define BRUSH "androidx/ink/brush/"
#define GEO "androidx/ink/geometry/"
#define STROKES "androidx/ink/strokes/"

jvalue VJ(jobject o) { jvalue v; v.j = 0; v.l = o; return v; }
jvalue VF(float f) { jvalue v; v.j = 0; v.f = f; return v; }
jvalue VL(jlong l) { jvalue v; v.j = l; return v; }
jvalue V0() { jvalue v; v.j = 0; return v; }

[[noreturn]] void Unmodelled() {
  DieViolation("vm-function-not-modelled", std::string("the bridge called a JNI function the simulated machine does not have, in ") + g_vm->what);
}
bool InstanceOf(JObj* o, JClass* c) {
  for (JClass* k = o->cls; k; k = k->super) if (k == c) return true;
  return false;
}
std::string ReturnType(const std::string& sig) { return sig.substr(sig.find(')') + 1); }
std::vector<std::string> ParamTypes(const std::string& sig) {
  std::vector<std::string> v;
  for (size_t i = 1; i < sig.size() && sig[i] != ')';) {
    size_t b = i;
    while (sig[i] == '[') ++i;
    if (sig[i] == 'L') i = sig.find(';', i);
    ++i;
    v.push_back(sig.substr(b, i - b));
  }
  return v;
}
}  // namespace

Vm* CurrentVm() { return g_vm; }

// A failed CHECK of the bridge (or FatalError). When the machine failed before it in this call, stopping with a
// diagnostic is what the bridge is allowed to do: the world ends there. Its C++ frames are abandoned, as abort() would.
jmp_buf* g_stop = nullptr;
bool VmCheckFailed(const std::string& msg) {
  HeapTrack::Off();
  if (!g_vm || !g_vm->in_call || !g_vm->fired || !g_stop) return false;
  g_vm->stop_msg = msg;
  longjmp(*g_stop, 1);
}
namespace {
[[noreturn]] void VmFatal(const char* msg) {
  VmCheckFailed(msg ? msg : "");
  DieViolation("fatal-error", Fmt("in %s: %s", g_vm->what, msg));
}
}  // namespace

bool ModifiedUtf8(const std::string& s) {
  for (size_t i = 0; i < s.size();) {
    unsigned char c = s[i];
    auto cont = [&](size_t k) { return k < s.size() && (static_cast<unsigned char>(s[k]) & 0xc0) == 0x80; };
    if (c == 0) return false;
    if (c < 0x80) i += 1;
    else if ((c & 0xe0) == 0xc0) { if (!cont(i + 1)) return false; i += 2; }
    else if ((c & 0xf0) == 0xe0) { if (!cont(i + 1) || !cont(i + 2)) return false; i += 3; }
    else return false;
  }
  return true;
}

void Vm::Bad(const char* cls, const std::string& msg) { DieViolation(cls, Fmt("in %s: ", what) + msg); }

JClass* Vm::Define(const std::string& name, JClass* super) {
  JClass* c = Track(new JClass);
  c->name = name;
  c->super = super;
  c->cls = classes.count("java/lang/Class") ? classes["java/lang/Class"] : nullptr;
  classes[name] = c;
  return c;
}
void Vm::Method(JClass* c, const char* name, const char* sig, bool is_static,
                std::function<jvalue(Vm&, JObj*, const std::vector<jvalue>&)> impl) {
  auto m = std::make_unique<JMethod>();
  m->name = name;
  m->sig = sig;
  m->is_static = is_static;
  m->impl = std::move(impl);
  c->methods.push_back(std::move(m));
}
JClass* Vm::Class(const std::string& name) {
  auto it = classes.find(name);
  if (it == classes.end()) { fprintf(stderr, "no class %s\n", name.c_str()); abort(); }
  return it->second;
}
JObj* Vm::NewInstance(JClass* c, size_t floats) {
  HeapPause hp;
  JObj* o = Track(new JObj);
  o->cls = c;
  o->f.resize(floats);
  return o;
}
JObj* Vm::NewString(const std::string& s) { JObj* o = NewInstance(Class("java/lang/String")); o->s = s; return o; }
JObj* Vm::NewFloats(std::vector<jfloat> v) { JObj* o = NewInstance(Class("[F")); o->floats = std::move(v); return o; }
JObj* Vm::NewLongs(std::vector<jlong> v) { JObj* o = NewInstance(Class("[J")); o->longs = std::move(v); return o; }
JObj* Vm::NewInts(std::vector<jint> v) { JObj* o = NewInstance(Class("[I")); o->ints = std::move(v); return o; }
JObj* Vm::NewObjects(JClass* elem, size_t n) {
  JObj* o = NewInstance(Class("[L"));
  o->elem = elem;
  o->objs.resize(n);
  return o;
}

void Vm::Enter(const char* w) {
  HeapPause hp;
  what = w;
  in_call = true;
  ++calls;
  frame.clear();
  if (pending) Bad("harness", "pending exception on entry");
}
jobject Vm::MakeRef(JObj* o, bool global) {
  if (!o) return nullptr;
  HeapPause hp;
  refs.push_back({o, global, true});
  size_t i = refs.size() - 1;
  if (!global) frame.push_back(i);
  return reinterpret_cast<jobject>(0x7000000000ull + i * 16);
}
jobject Vm::Arg(JObj* o) { return MakeRef(o, false); }
JObj* Vm::Resolve(jobject r, const char* fn, bool allow_null) {
  if (!r) {
    if (!allow_null) Bad("null-reference", std::string(fn) + " was given a null reference");
    return nullptr;
  }
  uint64_t x = reinterpret_cast<uint64_t>(r) - 0x7000000000ull;
  if (x % 16 || x / 16 >= refs.size()) Bad("invalid-reference", std::string(fn) + " was given something that is not a reference");
  if (!refs[x / 16].live) Bad("stale-reference", std::string(fn) + " was given a deleted reference");
  return refs[x / 16].o;
}
JObj* Vm::Deref(jobject r, const char* w) { return Resolve(r, w, true); }
void Vm::NewWorld() {
  HeapPause hp;
  for (auto& [p, pin] : pins) free(pin.copy);
  pins.clear();
  pending = nullptr;
  in_call = false;
  size_t keep = 0;
  std::set<JObj*> used;
  for (auto it = globals.begin(); it != globals.end();) {  // a world that stopped in a call leaves references behind
    JObj* o = refs[(reinterpret_cast<uint64_t>(*it) - 0x7000000000ull) / 16].o;
    it = dynamic_cast<JClass*>(o) ? std::next(it) : globals.erase(it);
  }
  for (jobject g : globals) {
    size_t i = (reinterpret_cast<uint64_t>(g) - 0x7000000000ull) / 16;
    keep = std::max(keep, i + 1);
    used.insert(refs[i].o);
  }
  refs.resize(keep);
  frame.clear();
  std::vector<std::unique_ptr<JObj>> kept;
  for (auto& o : heap) if (dynamic_cast<JClass*>(o.get())) for (JObj* x : o->objs) used.insert(x);
  for (auto& o : heap)
    if (dynamic_cast<JClass*>(o.get()) || used.count(o.get())) kept.push_back(std::move(o));
  heap = std::move(kept);
  fault_at = fallible = 0;
  fired = false;
}
JObj* Vm::Leave() {
  HeapPause hp;
  in_call = false;
  if (!pins.empty()) {
    const Pin& p = pins.begin()->second;
    Bad("pin-leak", std::string("returned without releasing ") + (p.type == 'S' ? "string characters" : "array elements"));
  }
  // Keeping one global reference to a class is how bridges cache classes; anything else is a leak.
  std::set<JObj*> cached;
  for (jobject g : globals) {
    JObj* o = refs[(reinterpret_cast<uint64_t>(g) - 0x7000000000ull) / 16].o;
    if (!dynamic_cast<JClass*>(o) || !cached.insert(o).second) Bad("global-reference-leak", "returned without deleting a global reference");
  }
  for (size_t i : frame) refs[i].live = false;
  JObj* e = pending;
  pending = nullptr;
  return e;
}
bool Vm::Fallible(const char* fn) {
  // Looking a member up, pinning and making a global reference are failures that bridges mostly stop at with a
  // diagnostic, which ends the world: soft faults are the others.
  if (soft_faults && (strstr(fn, "ID") || strstr(fn, "FindClass") || strstr(fn, "GlobalRef") || !strcmp(fn, "GetStringUTFChars"))) return false;
  ++fallible;
  if (fault_at && fallible == fault_at) {
    fired = true;
    fired_fn = fn;
    R.Count((std::string("fault.vm.") + fn).c_str());
    Trace("    injected failure of %s", fn);
    return true;
  }
  return false;
}
void Vm::Guard(const char* fn, bool ok) {
  R.Mixin(HashBytes(fn, strlen(fn)));
  if (!in_call) Bad("call-outside", std::string(fn) + " outside a call");
  if (pending && !ok) Bad("exception-pending", std::string(fn) + " called while an exception (" + pending->cls->name + ") is pending");
}
void Vm::Throw(const char* cls, const std::string& msg) {
  JObj* e = NewInstance(Class(cls));
  e->s = msg;
  pending = e;
}
JMethod* Vm::FindMethod(JObj* o, const char* name, const char* sig, bool is_static, const char* fn) {
  auto* c = dynamic_cast<JClass*>(o);
  if (!c) Bad("not-a-class", std::string(fn) + " was given an object that is not a class");
  for (JClass* k = c; k; k = k->super)
    for (auto& m : k->methods)
      if (m->is_static == is_static && m->name == name && m->sig == sig) return m.get();
  return nullptr;
}
jvalue Vm::Invoke(const char* fn, JObj* self, JClass* cls, jmethodID id, bool is_static, char ret, va_list* va, const jvalue* a) {
  JMethod* m = nullptr;
  for (JClass* k = cls; k; k = k->super)
    for (auto& q : k->methods)
      if (reinterpret_cast<jmethodID>(q.get()) == id) m = q.get();
  if (!m) Bad("invalid-method-id", std::string(fn) + " was given a method that is not one of the object's class");
  if (m->is_static != is_static) Bad("invalid-method-id", std::string(fn) + ": static and instance methods mixed up");
  char want = ReturnType(m->sig)[0];
  if (want == '[') want = 'L';
  if (want != ret) Bad("wrong-call-type", std::string(fn) + " called for a method with signature " + m->sig);
  std::vector<jvalue> args;
  for (const std::string& t : ParamTypes(m->sig)) {
    jvalue v = V0();
    if (a) v = *a++;
    else switch (t[0]) {
      case 'F': v.f = float(va_arg(*va, double)); break;
      case 'D': v.d = va_arg(*va, double); break;
      case 'J': v.j = va_arg(*va, jlong); break;
      case 'L': case '[': v.l = va_arg(*va, jobject); break;
      default: v.i = va_arg(*va, jint);
    }
    if (t[0] == 'L') {
      JObj* o = Resolve(v.l, fn, true);
      std::string cn = t.substr(1, t.size() - 2);
      if (o && !InstanceOf(o, Class(cn))) Bad("wrong-argument-type", m->name + ": an argument is not a " + cn);
      if (!o) {
        Throw("java/lang/NullPointerException", m->name);
        return V0();
      }
    }
    args.push_back(v);
  }
  if (Fallible("callback")) {
    Throw("java/lang/StackOverflowError", "injected");
    return V0();
  }
  return m->impl(*this, self, args);
}

// ---- the function table ---------------------------------------------------------------------------------
namespace {
#define VM Vm& vm = *g_vm; HeapPause hp_

jint GetVersion_(JNIEnv*) { return JNI_VERSION_1_8; }
jclass FindClass_(JNIEnv*, const char* name) {
  VM;
  vm.Guard("FindClass");
  if (vm.Fallible("FindClass")) { vm.Throw("java/lang/OutOfMemoryError", "injected"); return nullptr; }
  auto it = vm.classes.find(name);
  if (it == vm.classes.end()) { vm.Throw("java/lang/NoClassDefFoundError", name); return nullptr; }
  return static_cast<jclass>(vm.MakeRef(it->second, false));
}
jclass GetSuperclass_(JNIEnv*, jclass c) {
  VM;
  vm.Guard("GetSuperclass");
  auto* k = dynamic_cast<JClass*>(vm.Resolve(c, "GetSuperclass"));
  if (!k) vm.Bad("not-a-class", "GetSuperclass");
  return static_cast<jclass>(vm.MakeRef(k->super, false));
}
jclass GetObjectClass_(JNIEnv*, jobject o) {
  VM;
  vm.Guard("GetObjectClass");
  return static_cast<jclass>(vm.MakeRef(vm.Resolve(o, "GetObjectClass")->cls, false));
}
jboolean IsInstanceOf_(JNIEnv*, jobject o, jclass c) {
  VM;
  vm.Guard("IsInstanceOf");
  JObj* x = vm.Resolve(o, "IsInstanceOf", true);
  auto* k = dynamic_cast<JClass*>(vm.Resolve(c, "IsInstanceOf"));
  if (!k) vm.Bad("not-a-class", "IsInstanceOf");
  return !x || InstanceOf(x, k);
}
jboolean IsSameObject_(JNIEnv*, jobject a, jobject b) {
  VM;
  vm.Guard("IsSameObject");
  return vm.Resolve(a, "IsSameObject", true) == vm.Resolve(b, "IsSameObject", true);
}
jmethodID FindId(const char* fn, jclass c, const char* name, const char* sig, bool st) {
  VM;
  vm.Guard(fn);
  JObj* k = vm.Resolve(c, fn);
  if (vm.Fallible(fn)) { vm.Throw("java/lang/OutOfMemoryError", "injected"); return nullptr; }
  JMethod* m = vm.FindMethod(k, name, sig, st, fn);
  if (!m) vm.Throw("java/lang/NoSuchMethodError", std::string(name) + sig);
  return reinterpret_cast<jmethodID>(m);
}
jmethodID GetMethodID_(JNIEnv*, jclass c, const char* n, const char* s) { return FindId("GetMethodID", c, n, s, false); }
jmethodID GetStaticMethodID_(JNIEnv*, jclass c, const char* n, const char* s) { return FindId("GetStaticMethodID", c, n, s, true); }
jfieldID GetFieldID_(JNIEnv*, jclass c, const char* n, const char* s) {
  VM;
  vm.Guard("GetFieldID");
  auto* k = dynamic_cast<JClass*>(vm.Resolve(c, "GetFieldID"));
  if (!k) vm.Bad("not-a-class", "GetFieldID");
  if (vm.Fallible("GetFieldID")) { vm.Throw("java/lang/OutOfMemoryError", "injected"); return nullptr; }
  for (JClass* q = k; q; q = q->super)
    for (auto& f : q->fields) if (f->name == n && f->sig == s) return reinterpret_cast<jfieldID>(f.get());
  vm.Throw("java/lang/NoSuchFieldError", n);
  return nullptr;
}
jint GetIntField_(JNIEnv*, jobject o, jfieldID f) {
  VM;
  vm.Guard("GetIntField");
  JObj* x = vm.Resolve(o, "GetIntField");
  for (JClass* q = x->cls; q; q = q->super)
    for (auto& fd : q->fields) if (reinterpret_cast<jfieldID>(fd.get()) == f && fd->sig == "I") return x->ints.at(0);
  vm.Bad("invalid-field-id", "GetIntField");
}
#define CALLERS(T, NAME, CH, GET)                                                                                   \
  T Call##NAME##MethodV_(JNIEnv*, jobject o, jmethodID id, va_list va) {                                             \
    VM; vm.Guard("Call" #NAME "Method"); va_list c; va_copy(c, va);                                                   \
    JObj* x = vm.Resolve(o, "Call" #NAME "Method");                                                                    \
    jvalue r = vm.Invoke("Call" #NAME "Method", x, x->cls, id, false, CH, &c, nullptr); va_end(c); (void)r; return T(GET); } \
  T Call##NAME##MethodA_(JNIEnv*, jobject o, jmethodID id, const jvalue* a) {                                         \
    VM; vm.Guard("Call" #NAME "Method"); JObj* x = vm.Resolve(o, "Call" #NAME "Method");                               \
    jvalue r = vm.Invoke("Call" #NAME "Method", x, x->cls, id, false, CH, nullptr, a); (void)r; return T(GET); }        \
  T Call##NAME##Method_(JNIEnv* e, jobject o, jmethodID id, ...) {                                                     \
    va_list va; va_start(va, id); struct End { va_list& v; ~End() { va_end(v); } } end{va};                            \
    return Call##NAME##MethodV_(e, o, id, va); }                                                                       \
  T CallStatic##NAME##MethodV_(JNIEnv*, jclass o, jmethodID id, va_list va) {                                          \
    VM; vm.Guard("CallStatic" #NAME "Method"); va_list c; va_copy(c, va);                                              \
    auto* x = dynamic_cast<JClass*>(vm.Resolve(o, "CallStatic" #NAME "Method"));                                       \
    if (!x) vm.Bad("not-a-class", "CallStatic" #NAME "Method");                                                        \
    jvalue r = vm.Invoke("CallStatic" #NAME "Method", x, x, id, true, CH, &c, nullptr); va_end(c); (void)r; return T(GET); } \
  T CallStatic##NAME##MethodA_(JNIEnv*, jclass o, jmethodID id, const jvalue* a) {                                     \
    VM; vm.Guard("CallStatic" #NAME "Method"); auto* x = dynamic_cast<JClass*>(vm.Resolve(o, "CallStatic" #NAME "Method")); \
    if (!x) vm.Bad("not-a-class", "CallStatic" #NAME "Method");                                                        \
    jvalue r = vm.Invoke("CallStatic" #NAME "Method", x, x, id, true, CH, nullptr, a); (void)r; return T(GET); }        \
  T CallStatic##NAME##Method_(JNIEnv* e, jclass o, jmethodID id, ...) {                                                \
    va_list va; va_start(va, id); struct End { va_list& v; ~End() { va_end(v); } } end{va};                            \
    return CallStatic##NAME##MethodV_(e, o, id, va); }
CALLERS(jobject, Object, 'L', r.l)
CALLERS(jfloat, Float, 'F', r.f)
CALLERS(jlong, Long, 'J', r.j)
CALLERS(jint, Int, 'I', r.i)
CALLERS(jboolean, Boolean, 'Z', r.z)
CALLERS(void, Void, 'V', 0)

jobject NewObjectImpl(jclass c, jmethodID id, va_list* va, const jvalue* a) {
  VM;
  vm.Guard("NewObject");
  auto* k = dynamic_cast<JClass*>(vm.Resolve(c, "NewObject"));
  if (!k) vm.Bad("not-a-class", "NewObject");
  if (vm.Fallible("NewObject")) { vm.Throw("java/lang/OutOfMemoryError", "injected"); return nullptr; }
  JObj* o = vm.NewInstance(k, 8);
  vm.Invoke("NewObject", o, k, id, false, 'V', va, a);
  if (vm.pending) return nullptr;
  return vm.MakeRef(o, false);
}
jobject NewObjectV_(JNIEnv*, jclass c, jmethodID id, va_list va) {
  va_list q;
  va_copy(q, va);
  jobject o = NewObjectImpl(c, id, &q, nullptr);
  va_end(q);
  return o;
}
jobject NewObjectA_(JNIEnv*, jclass c, jmethodID id, const jvalue* a) { return NewObjectImpl(c, id, nullptr, a); }
jobject NewObject_(JNIEnv* e, jclass c, jmethodID id, ...) {
  va_list va;
  va_start(va, id);
  jobject o = NewObjectV_(e, c, id, va);
  va_end(va);
  return o;
}
// strings
jstring NewStringUTF_(JNIEnv*, const char* s) {
  VM;
  vm.Guard("NewStringUTF");
  if (!s) return nullptr;
  if (!ModifiedUtf8(s)) vm.Bad("bad-modified-utf8", "NewStringUTF was given bytes that are not modified UTF-8");
  if (vm.Fallible("NewStringUTF")) { vm.Throw("java/lang/OutOfMemoryError", "injected"); return nullptr; }
  return static_cast<jstring>(vm.MakeRef(vm.NewString(s), false));
}
JObj* Str(const char* fn, jstring s) {
  JObj* o = g_vm->Resolve(s, fn);
  if (o->cls->name != "java/lang/String") g_vm->Bad("wrong-argument-type", std::string(fn) + " of something that is not a string");
  return o;
}
const char* GetStringUTFChars_(JNIEnv*, jstring s, jboolean* is_copy) {
  VM;
  vm.Guard("GetStringUTFChars");
  JObj* o = Str("GetStringUTFChars", s);
  if (vm.Fallible("GetStringUTFChars")) { vm.Throw("java/lang/OutOfMemoryError", "injected"); return nullptr; }
  char* p = static_cast<char*>(malloc(o->s.size() + 1));
  memcpy(p, o->s.c_str(), o->s.size() + 1);
  if (is_copy) *is_copy = JNI_TRUE;
  vm.pins[p] = {p, o, 'S', o->s.size()};
  return p;
}
jsize GetStringUTFLength_(JNIEnv*, jstring s) {
  VM;
  vm.Guard("GetStringUTFLength");
  return jsize(Str("GetStringUTFLength", s)->s.size());
}
void ReleaseStringUTFChars_(JNIEnv*, jstring s, const char* c) {
  VM;
  vm.Guard("ReleaseStringUTFChars", true);
  JObj* o = Str("ReleaseStringUTFChars", s);
  auto it = vm.pins.find(c);
  if (it == vm.pins.end() || it->second.type != 'S' || it->second.o != o) vm.Bad("bad-release", "ReleaseStringUTFChars of characters that were not obtained from that string");
  free(it->second.copy);
  vm.pins.erase(it);
}
// references
jobject NewGlobalRef_(JNIEnv*, jobject o) {
  VM;
  vm.Guard("NewGlobalRef");
  if (!o) return nullptr;
  JObj* x = vm.Resolve(o, "NewGlobalRef");
  if (vm.Fallible("NewGlobalRef")) return nullptr;  // "returns NULL if the system has run out of memory"
  jobject r = vm.MakeRef(x, true);
  vm.globals.insert(r);
  return r;
}
void DeleteGlobalRef_(JNIEnv*, jobject o) {
  VM;
  vm.Guard("DeleteGlobalRef", true);
  if (!o) return;
  vm.Resolve(o, "DeleteGlobalRef");
  if (!vm.globals.erase(o)) vm.Bad("bad-release", "DeleteGlobalRef of something that is not a global reference");
  vm.refs[(reinterpret_cast<uint64_t>(o) - 0x7000000000ull) / 16].live = false;
}
jobject NewLocalRef_(JNIEnv*, jobject o) {
  VM;
  vm.Guard("NewLocalRef");
  return vm.MakeRef(vm.Resolve(o, "NewLocalRef", true), false);
}
void DeleteLocalRef_(JNIEnv*, jobject o) {
  VM;
  vm.Guard("DeleteLocalRef", true);
  if (!o) return;
  vm.Resolve(o, "DeleteLocalRef");
  if (vm.globals.count(o)) vm.Bad("bad-release", "DeleteLocalRef of a global reference");
  vm.refs[(reinterpret_cast<uint64_t>(o) - 0x7000000000ull) / 16].live = false;
}
jint EnsureLocalCapacity_(JNIEnv*, jint) {
  VM;
  vm.Guard("EnsureLocalCapacity");
  if (vm.Fallible("EnsureLocalCapacity")) { vm.Throw("java/lang/OutOfMemoryError", "injected"); return -1; }
  return 0;
}
// arrays
jsize GetArrayLength_(JNIEnv*, jarray a) {
  VM;
  vm.Guard("GetArrayLength");
  JObj* o = vm.Resolve(a, "GetArrayLength");
  const std::string& n = o->cls->name;
  if (n == "[F") return jsize(o->floats.size());
  if (n == "[J") return jsize(o->longs.size());
  if (n == "[I") return jsize(o->ints.size());
  if (n == "[L") return jsize(o->objs.size());
  vm.Bad("wrong-argument-type", "GetArrayLength of something that is not an array");
}
template <class T> std::vector<T>& Vec(JObj* o);
template <> std::vector<jfloat>& Vec<jfloat>(JObj* o) { return o->floats; }
template <> std::vector<jlong>& Vec<jlong>(JObj* o) { return o->longs; }
template <> std::vector<jint>& Vec<jint>(JObj* o) { return o->ints; }
JObj* ArrayOf(const char* fn, jobject a, const char* cls) {
  JObj* o = g_vm->Resolve(a, fn);
  if (o->cls->name != cls) g_vm->Bad("wrong-argument-type", std::string(fn) + " of an array of another type");
  return o;
}
template <class T> T* Elements(const char* fn, jobject a, const char* cls, char type, jboolean* is_copy) {
  VM;
  vm.Guard(fn);
  JObj* o = ArrayOf(fn, a, cls);
  if (vm.Fallible("GetArrayElements")) { vm.Throw("java/lang/OutOfMemoryError", "injected"); return nullptr; }
  auto& v = Vec<T>(o);
  T* p = static_cast<T*>(malloc(v.size() * sizeof(T) + 1));
  if (!v.empty()) memcpy(p, v.data(), v.size() * sizeof(T));
  if (is_copy) *is_copy = JNI_TRUE;
  vm.pins[p] = {p, o, type, v.size()};
  return p;
}
template <class T> void ReleaseElements(const char* fn, jobject a, const char* cls, char type, T* p, jint mode) {
  VM;
  vm.Guard(fn, true);
  JObj* o = ArrayOf(fn, a, cls);
  auto it = vm.pins.find(p);
  if (it == vm.pins.end() || it->second.type != type || it->second.o != o) vm.Bad("bad-release", std::string(fn) + " of elements that were not obtained from that array");
  if (mode != JNI_ABORT && !Vec<T>(o).empty()) memcpy(Vec<T>(o).data(), p, it->second.n * sizeof(T));
  if (mode != JNI_COMMIT) {
    free(it->second.copy);
    vm.pins.erase(it);
  }
}
template <class T> void GetRegion(const char* fn, jobject a, const char* cls, jsize b, jsize n, T* out) {
  VM;
  vm.Guard(fn);
  auto& v = Vec<T>(ArrayOf(fn, a, cls));
  if (b < 0 || n < 0 || size_t(b) + size_t(n) > v.size()) return vm.Throw("java/lang/ArrayIndexOutOfBoundsException", fn);
  if (n) memcpy(out, v.data() + b, n * sizeof(T));
}
template <class T> void SetRegion(const char* fn, jobject a, const char* cls, jsize b, jsize n, const T* in) {
  VM;
  vm.Guard(fn);
  auto& v = Vec<T>(ArrayOf(fn, a, cls));
  if (b < 0 || n < 0 || size_t(b) + size_t(n) > v.size()) return vm.Throw("java/lang/ArrayIndexOutOfBoundsException", fn);
  if (n) memcpy(v.data() + b, in, n * sizeof(T));
}
template <class T> jobject NewArr(const char* fn, const char* cls, jsize n) {
  VM;
  vm.Guard(fn);
  if (n < 0) { vm.Throw("java/lang/NegativeArraySizeException", fn); return nullptr; }
  if (vm.Fallible("NewArray")) { vm.Throw("java/lang/OutOfMemoryError", "injected"); return nullptr; }
  JObj* o = vm.NewInstance(vm.Class(cls));
  Vec<T>(o).resize(n);
  return vm.MakeRef(o, false);
}
#define ARRAYS(T, NAME, CLS, CH)                                                                                              \
  T* Get##NAME##ArrayElements_(JNIEnv*, T##Array a, jboolean* c) { return Elements<T>("Get" #NAME "ArrayElements", a, CLS, CH, c); } \
  void Release##NAME##ArrayElements_(JNIEnv*, T##Array a, T* p, jint m) { ReleaseElements<T>("Release" #NAME "ArrayElements", a, CLS, CH, p, m); } \
  void Get##NAME##ArrayRegion_(JNIEnv*, T##Array a, jsize b, jsize n, T* o) { GetRegion<T>("Get" #NAME "ArrayRegion", a, CLS, b, n, o); } \
  void Set##NAME##ArrayRegion_(JNIEnv*, T##Array a, jsize b, jsize n, const T* o) { SetRegion<T>("Set" #NAME "ArrayRegion", a, CLS, b, n, o); } \
  T##Array New##NAME##Array_(JNIEnv*, jsize n) { return static_cast<T##Array>(NewArr<T>("New" #NAME "Array", CLS, n)); }
ARRAYS(jfloat, Float, "[F", 'F')
ARRAYS(jlong, Long, "[J", 'J')
ARRAYS(jint, Int, "[I", 'I')

jobjectArray NewObjectArray_(JNIEnv*, jsize n, jclass c, jobject init) {
  VM;
  vm.Guard("NewObjectArray");
  auto* k = dynamic_cast<JClass*>(vm.Resolve(c, "NewObjectArray"));
  if (!k) vm.Bad("not-a-class", "NewObjectArray");
  JObj* i = vm.Resolve(init, "NewObjectArray", true);
  if (vm.Fallible("NewArray")) { vm.Throw("java/lang/OutOfMemoryError", "injected"); return nullptr; }
  JObj* o = vm.NewObjects(k, n);
  for (auto& e : o->objs) e = i;
  return static_cast<jobjectArray>(vm.MakeRef(o, false));
}
jobject GetObjectArrayElement_(JNIEnv*, jobjectArray a, jsize i) {
  VM;
  vm.Guard("GetObjectArrayElement");
  JObj* o = ArrayOf("GetObjectArrayElement", a, "[L");
  if (i < 0 || size_t(i) >= o->objs.size()) { vm.Throw("java/lang/ArrayIndexOutOfBoundsException", ""); return nullptr; }
  return vm.MakeRef(o->objs[i], false);
}
void SetObjectArrayElement_(JNIEnv*, jobjectArray a, jsize i, jobject e) {
  VM;
  vm.Guard("SetObjectArrayElement");
  JObj* o = ArrayOf("SetObjectArrayElement", a, "[L");
  JObj* x = vm.Resolve(e, "SetObjectArrayElement", true);
  if (i < 0 || size_t(i) >= o->objs.size()) return vm.Throw("java/lang/ArrayIndexOutOfBoundsException", "");
  if (x && o->elem && !InstanceOf(x, o->elem)) return vm.Throw("java/lang/ArrayStoreException", "");
  o->objs[i] = x;
}
jobject NewDirectByteBuffer_(JNIEnv*, void* p, jlong n) {
  VM;
  vm.Guard("NewDirectByteBuffer");
  if (n < 0) vm.Bad("bad-buffer", "NewDirectByteBuffer with a negative size");
  if (vm.Fallible("NewDirectByteBuffer")) { vm.Throw("java/lang/OutOfMemoryError", "injected"); return nullptr; }
  JObj* o = vm.NewInstance(vm.Class("java/nio/DirectByteBuffer"));
  o->addr = p;
  o->cap = n;
  return vm.MakeRef(o, false);
}
void* GetDirectBufferAddress_(JNIEnv*, jobject b) { VM; vm.Guard("GetDirectBufferAddress"); return vm.Resolve(b, "GetDirectBufferAddress")->addr; }
jlong GetDirectBufferCapacity_(JNIEnv*, jobject b) { VM; vm.Guard("GetDirectBufferCapacity"); return vm.Resolve(b, "GetDirectBufferCapacity")->cap; }
void GetStringUTFRegion_(JNIEnv*, jstring s, jsize b, jsize n, char* out) {  // ASCII strings only (the harness has no others here)
  VM;
  vm.Guard("GetStringUTFRegion");
  JObj* o = Str("GetStringUTFRegion", s);
  if (b < 0 || n < 0 || size_t(b) + size_t(n) > o->s.size()) return vm.Throw("java/lang/ArrayIndexOutOfBoundsException", "");
  memcpy(out, o->s.data() + b, n);
}
jsize GetStringLength_(JNIEnv*, jstring s) {
  VM;
  vm.Guard("GetStringLength");
  jsize n = 0;
  for (unsigned char c : Str("GetStringLength", s)->s) n += (c & 0xc0) != 0x80;
  return n;
}
jint PushLocalFrame_(JNIEnv*, jint) {
  VM;
  vm.Guard("PushLocalFrame");
  if (vm.Fallible("PushLocalFrame")) { vm.Throw("java/lang/OutOfMemoryError", "injected"); return -1; }
  return 0;
}
jobject PopLocalFrame_(JNIEnv*, jobject r) { VM; vm.Guard("PopLocalFrame", true); return vm.MakeRef(vm.Resolve(r, "PopLocalFrame", true), false); }
void* GetPrimitiveArrayCritical_(JNIEnv* e, jarray a, jboolean* c) {
  const std::string n = g_vm->Resolve(a, "GetPrimitiveArrayCritical")->cls->name;
  if (n == "[F") return GetFloatArrayElements_(e, static_cast<jfloatArray>(a), c);
  if (n == "[J") return GetLongArrayElements_(e, static_cast<jlongArray>(a), c);
  return GetIntArrayElements_(e, static_cast<jintArray>(a), c);
}
void ReleasePrimitiveArrayCritical_(JNIEnv* e, jarray a, void* p, jint m) {
  const std::string n = g_vm->Resolve(a, "ReleasePrimitiveArrayCritical")->cls->name;
  if (n == "[F") ReleaseFloatArrayElements_(e, static_cast<jfloatArray>(a), static_cast<jfloat*>(p), m);
  else if (n == "[J") ReleaseLongArrayElements_(e, static_cast<jlongArray>(a), static_cast<jlong*>(p), m);
  else ReleaseIntArrayElements_(e, static_cast<jintArray>(a), static_cast<jint*>(p), m);
}
jobjectRefType GetObjectRefType_(JNIEnv*, jobject o) {
  VM;
  vm.Guard("GetObjectRefType");
  return !o ? JNIInvalidRefType : vm.globals.count(o) ? JNIGlobalRefType : JNILocalRefType;
}
[[noreturn]] void FatalError_(JNIEnv*, const char* msg) { VmFatal(msg); }
// exceptions
jthrowable ExceptionOccurred_(JNIEnv*) { VM; vm.Guard("ExceptionOccurred", true); return static_cast<jthrowable>(vm.MakeRef(vm.pending, false)); }
jboolean ExceptionCheck_(JNIEnv*) { VM; vm.Guard("ExceptionCheck", true); return vm.pending != nullptr; }
void ExceptionClear_(JNIEnv*) { VM; vm.Guard("ExceptionClear", true); vm.pending = nullptr; }
void ExceptionDescribe_(JNIEnv*) { VM; vm.Guard("ExceptionDescribe", true); }
jint Throw_(JNIEnv*, jthrowable t) {
  VM;
  vm.Guard("Throw");
  JObj* o = vm.Resolve(t, "Throw");
  if (!InstanceOf(o, vm.Class("java/lang/Throwable"))) vm.Bad("wrong-argument-type", "Throw of something that is not throwable");
  vm.pending = o;
  return 0;
}
jint ThrowNew_(JNIEnv*, jclass c, const char* msg) {
  VM;
  vm.Guard("ThrowNew");
  auto* k = dynamic_cast<JClass*>(vm.Resolve(c, "ThrowNew"));
  if (!k) vm.Bad("not-a-class", "ThrowNew");
  if (msg && !ModifiedUtf8(msg)) vm.Bad("bad-modified-utf8", "ThrowNew was given bytes that are not modified UTF-8");
  if (vm.Fallible("ThrowNew")) { vm.Throw("java/lang/OutOfMemoryError", "injected"); return -1; }
  vm.Throw(k->name.c_str(), msg ? msg : "");
  if (!InstanceOf(vm.pending, vm.Class("java/lang/Throwable"))) vm.Bad("wrong-argument-type", "ThrowNew of a class that is not throwable");
  return 0;
}

const JNINativeInterface_* Functions() {
  static JNINativeInterface_ t;
  static bool ready = [] {
    void** p = reinterpret_cast<void**>(&t);
    for (size_t i = 0; i < sizeof(t) / sizeof(void*); ++i) p[i] = reinterpret_cast<void*>(&Unmodelled);
#define SET(f) t.f = f##_
    SET(GetVersion); SET(FindClass); SET(GetSuperclass); SET(GetObjectClass); SET(IsInstanceOf); SET(IsSameObject);
    SET(GetMethodID); SET(GetStaticMethodID); SET(GetFieldID); SET(GetIntField);
#define SETC(N) SET(Call##N##MethodV); SET(Call##N##MethodA); SET(Call##N##Method); SET(CallStatic##N##MethodV); SET(CallStatic##N##MethodA); SET(CallStatic##N##Method)
    SETC(Object); SETC(Float); SETC(Long); SETC(Int); SETC(Boolean); SETC(Void);
    SET(NewObject); SET(NewObjectV); SET(NewObjectA);
    SET(NewStringUTF); SET(GetStringUTFChars); SET(GetStringUTFLength); SET(ReleaseStringUTFChars);
    SET(NewGlobalRef); SET(DeleteGlobalRef); SET(NewLocalRef); SET(DeleteLocalRef); SET(EnsureLocalCapacity);
    SET(GetArrayLength);
#define SETA(N) SET(Get##N##ArrayElements); SET(Release##N##ArrayElements); SET(Get##N##ArrayRegion); SET(Set##N##ArrayRegion); SET(New##N##Array)
    SETA(Float); SETA(Long); SETA(Int);
    SET(NewObjectArray); SET(GetObjectArrayElement); SET(SetObjectArrayElement); SET(NewDirectByteBuffer);
    SET(GetDirectBufferAddress); SET(GetDirectBufferCapacity); SET(GetStringUTFRegion); SET(GetStringLength); SET(PushLocalFrame);
    SET(PopLocalFrame); SET(GetPrimitiveArrayCritical); SET(ReleasePrimitiveArrayCritical); SET(GetObjectRefType); SET(FatalError);
    SET(ExceptionOccurred); SET(ExceptionCheck); SET(ExceptionClear); SET(ExceptionDescribe); SET(Throw); SET(ThrowNew);
    return true;
  }();
  (void)ready;
  return &t;
}
}  // namespace

Vm::Vm() {
  HeapPause hp;
  g_vm = this;
  env.functions = Functions();
  JClass* object = Define("java/lang/Object", nullptr);
  JClass* klass = Define("java/lang/Class", object);
  object->cls = klass->cls = klass;
  Define("java/lang/String", object);
  Define("java/nio/DirectByteBuffer", object);
  for (const char* n : {"[F", "[J", "[I", "[L"}) Define(n, object);
  JClass* throwable = Define("java/lang/Throwable", object);
  Method(throwable, "getMessage", "()Ljava/lang/String;", false,
         [](Vm& vm, JObj* self, const std::vector<jvalue>&) { return VJ(self->s.empty() ? nullptr : vm.MakeRef(vm.NewString(self->s), false)); });
  JClass* err = Define("java/lang/Error", throwable);
  for (const char* n : {"java/lang/OutOfMemoryError", "java/lang/NoSuchMethodError", "java/lang/NoSuchFieldError",
                        "java/lang/NoClassDefFoundError", "java/lang/StackOverflowError"}) Define(n, err);
  JClass* rt = Define("java/lang/RuntimeException", Define("java/lang/Exception", throwable));
  for (const char* n : {"java/lang/IllegalStateException", "java/lang/IllegalArgumentException", "java/util/NoSuchElementException",
                        "java/lang/IndexOutOfBoundsException", "java/lang/UnsupportedOperationException", "java/lang/NullPointerException",
                        "java/lang/ArrayStoreException", "java/lang/NegativeArraySizeException"}) Define(n, rt);
  Define("java/lang/ArrayIndexOutOfBoundsException", Class("java/lang/IndexOutOfBoundsException"));
  Define("java/lang/NumberFormatException", Class("java/lang/IllegalArgumentException"));
  // the managed half of the bridge
  JClass* tool = Define(BRUSH "InputToolType", object);
  tool->fields.push_back(std::make_unique<JField>(JField{"value", "I"}));
  Method(tool, "from", "(I)L" BRUSH "InputToolType;", true, [](Vm& vm, JObj* self, const std::vector<jvalue>& a) {
    if (a[0].i < 0 || a[0].i > 3) { vm.Throw("java/lang/IllegalArgumentException", "Invalid value"); return V0(); }
    auto* c = static_cast<JClass*>(self);
    if (c->objs.empty())
      for (int i = 0; i < 4; ++i) { JObj* o = vm.NewInstance(c); o->ints = {i}; c->objs.push_back(o); }
    return VJ(vm.MakeRef(c->objs[a[0].i], false));
  });
  JClass* in = Define(STROKES "StrokeInput", object);
  Method(in, "update", "(FFJL" BRUSH "InputToolType;FFFF)V", false, [](Vm& vm, JObj* o, const std::vector<jvalue>& a) {
    o->f = {a[0].f, a[1].f, a[4].f, a[5].f, a[6].f, a[7].f};
    o->j = a[2].j;
    o->ref = vm.Resolve(a[3].l, "update");
    return V0();
  });
  const char* getters[] = {"getX", "getY", "getStrokeUnitLengthCm", "getPressure", "getTiltRadians", "getOrientationRadians"};
  for (int i = 0; i < 6; ++i) Method(in, getters[i], "()F", false, [i](Vm&, JObj* o, const std::vector<jvalue>&) { return VF(o->f.at(i)); });
  Method(in, "getElapsedTimeMillis", "()J", false, [](Vm&, JObj* o, const std::vector<jvalue>&) { return VL(o->j); });
  Method(in, "getToolType", "()L" BRUSH "InputToolType;", false, [](Vm& vm, JObj* o, const std::vector<jvalue>&) { return VJ(vm.MakeRef(o->ref, false)); });
  JClass* vec = Define(GEO "Vec", object);
  JClass* ivec = Define(GEO "ImmutableVec", vec);
  Method(ivec, "<init>", "(FF)V", false, [](Vm&, JObj* o, const std::vector<jvalue>& a) { o->f = {a[0].f, a[1].f}; return V0(); });
  JClass* mvec = Define(GEO "MutableVec", vec);
  Method(mvec, "setX", "(F)V", false, [](Vm&, JObj* o, const std::vector<jvalue>& a) { o->f[0] = a[0].f; return V0(); });
  Method(mvec, "setY", "(F)V", false, [](Vm&, JObj* o, const std::vector<jvalue>& a) { o->f[1] = a[0].f; return V0(); });
  JClass* acc = Define(GEO "BoxAccumulator", object);
  Method(acc, "reset", "()L" GEO "BoxAccumulator;", false, [](Vm& vm, JObj* o, const std::vector<jvalue>&) { o->f.clear(); return VJ(vm.MakeRef(o, false)); });
  Method(acc, "overwriteFrom", "(FFFF)L" GEO "BoxAccumulator;", false, [](Vm& vm, JObj* o, const std::vector<jvalue>& a) {
    o->f = {a[0].f, a[1].f, a[2].f, a[3].f};
    return VJ(vm.MakeRef(o, false));
  });
  JClass* box = Define(GEO "Box", object);
  JClass* ibox = Define(GEO "ImmutableBox", box);
  Method(ibox, "fromTwoPoints", "(L" GEO "Vec;L" GEO "Vec;)L" GEO "ImmutableBox;", true, [](Vm& vm, JObj* self, const std::vector<jvalue>& a) {
    JObj* o = vm.NewInstance(static_cast<JClass*>(self));
    JObj *p = vm.Resolve(a[0].l, "fromTwoPoints"), *q = vm.Resolve(a[1].l, "fromTwoPoints");
    o->f = {p->f[0], p->f[1], q->f[0], q->f[1]};
    return VJ(vm.MakeRef(o, false));
  });
  JClass* mbox = Define(GEO "MutableBox", box);
  Method(mbox, "setXBounds", "(FF)L" GEO "MutableBox;", false, [](Vm& vm, JObj* o, const std::vector<jvalue>& a) { o->f[0] = a[0].f; o->f[2] = a[1].f; return VJ(vm.MakeRef(o, false)); });
  Method(mbox, "setYBounds", "(FF)L" GEO "MutableBox;", false, [](Vm& vm, JObj* o, const std::vector<jvalue>& a) { o->f[1] = a[0].f; o->f[3] = a[1].f; return VJ(vm.MakeRef(o, false)); });
  JClass* ipar = Define(GEO "ImmutableParallelogram", object);
  Method(ipar, "fromCenterDimensionsRotationAndShear", "(L" GEO "ImmutableVec;FFFF)L" GEO "ImmutableParallelogram;", true,
         [](Vm& vm, JObj* self, const std::vector<jvalue>& a) {
           JObj* o = vm.NewInstance(static_cast<JClass*>(self));
           JObj* c = vm.Resolve(a[0].l, "fromCenter");
           o->f = {c->f[0], c->f[1], a[1].f, a[2].f, a[3].f, a[4].f};
           return VJ(vm.MakeRef(o, false));
         });
  JClass* mpar = Define(GEO "MutableParallelogram", object);
  Method(mpar, "setCenterDimensionsRotationAndShear", "(FFFFFF)V", false, [](Vm&, JObj* o, const std::vector<jvalue>& a) {
    o->f = {a[0].f, a[1].f, a[2].f, a[3].f, a[4].f, a[5].f};
    return V0();
  });
}
Vm::~Vm() {
  for (auto& [p, pin] : pins) free(pin.copy);
  if (g_vm == this) g_vm = nullptr;
}
}  // namespace dst
