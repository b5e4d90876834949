// A simulated Java virtual machine: a JNIEnv whose function table is implemented here. It keeps references, pinned
// buffers and the pending exception, enforces the rules of the JNI specification on its caller, and fails on request.
#ifndef DST_JNI_VM_H_
#define DST_JNI_VM_H_
#include <jni.h>
#include <setjmp.h>

#include <functional>
#include <map>
#include <memory>
#include <set>
#include <string>
#include <vector>

#include "core.h"

namespace dst {

struct JClass;
struct JObj {
  JClass* cls = nullptr;
  virtual ~JObj() = default;
  std::vector<float> f;        // state of instances of the value classes
  std::string s;               // strings (modified UTF-8), throwable messages
  jlong j = 0;
  JObj* ref = nullptr;
  std::vector<jfloat> floats;
  std::vector<jlong> longs;
  std::vector<jint> ints;
  std::vector<JObj*> objs;
  JClass* elem = nullptr;
  void* addr = nullptr;        // direct buffers
  jlong cap = 0;
};
struct Vm;
struct JMethod {
  std::string name, sig;
  bool is_static = false;
  std::function<jvalue(Vm&, JObj* self, const std::vector<jvalue>& args)> impl;
};
struct JField { std::string name, sig; };
struct JClass : JObj {
  std::string name;
  JClass* super = nullptr;
  std::vector<std::unique_ptr<JMethod>> methods;
  std::vector<std::unique_ptr<JField>> fields;
};

struct Vm {
  Vm();
  ~Vm();
  void NewWorld();  // forgets every object and reference except classes and what the bridge caches
  JNIEnv env;

  // ---- the managed side -----------------------------------------------------------------------
  // Everything between Enter and Leave is one call of a bridge function. Arg() makes the reference the callee sees.
  void Enter(const char* what);
  jobject Arg(JObj* o);
  // Ends the call. Returns the exception it raised, or null.
  JObj* Leave();
  JObj* Deref(jobject r, const char* what);  // resolves a returned reference (before Leave)
  JObj* NewString(const std::string& modified_utf8);
  JObj* NewFloats(std::vector<jfloat> v);
  JObj* NewLongs(std::vector<jlong> v);
  JObj* NewInts(std::vector<jint> v);
  JObj* NewObjects(JClass* elem, size_t n);
  JObj* NewInstance(JClass* c, size_t floats = 0);
  JClass* Class(const std::string& name);
  // ---- faults -----------------------------------------------------------------------------------
  int fault_at = 0;      // the fault_at-th fallible virtual machine call of the operation fails (0: none)
  int fallible = 0;      // how many were made
  bool soft_faults = false;
  bool fired = false;
  std::string fired_fn;
  bool Fallible(const char* fn);
  void BeginOp(int fault) { fault_at = fault; fallible = 0; fired = false; fired_fn.clear(); }

  // ---- internals ----------------------------------------------------------------------------------
  struct Ref { JObj* o; bool global, live; };
  std::vector<Ref> refs;
  std::vector<size_t> frame;               // local references of the running call
  std::set<jobject> globals;
  std::vector<std::unique_ptr<JObj>> heap;
  std::map<std::string, JClass*> classes;
  struct Pin { void* copy; JObj* o; int type; size_t n; };  // type: F J I or S
  std::map<const void*, Pin> pins;
  JObj* pending = nullptr;
  bool in_call = false;
  const char* what = "";
  uint64_t calls = 0;
  std::string stop_msg;

  template <class T> T* Track(T* o) { heap.emplace_back(o); return o; }
  jobject MakeRef(JObj* o, bool global);
  JObj* Resolve(jobject r, const char* fn, bool allow_null = false);
  void Guard(const char* fn, bool allowed_while_pending = false);
  void Throw(const char* cls, const std::string& msg);
  [[noreturn]] void Bad(const char* cls, const std::string& msg);
  JMethod* FindMethod(JObj* cls, const char* name, const char* sig, bool is_static, const char* fn);
  jvalue Invoke(const char* fn, JObj* self, JClass* cls, jmethodID id, bool is_static, char ret, va_list* va, const jvalue* a);
  JClass* Define(const std::string& name, JClass* super);
  void Method(JClass* c, const char* name, const char* sig, bool is_static,
              std::function<jvalue(Vm&, JObj*, const std::vector<jvalue>&)> impl);
};
Vm* CurrentVm();
extern jmp_buf* g_stop;                        // where a stop of the process during a call leads
bool VmCheckFailed(const std::string& msg);    // false: not accepted
bool ModifiedUtf8(const std::string& s);

// Allocations made by code under test between TrackOn and TrackOff that are still alive.
struct HeapTrack {
  static void On();
  static void Off();
  static size_t Live();
  static std::string Where();  // where the first live allocation was made
  static void Reset();
};
struct HeapPause {  // inside the virtual machine's own code
  HeapPause();
  ~HeapPause();
  bool was;
};

}  // namespace dst
#endif
