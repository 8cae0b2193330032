// P27: the Java binding's native half driven through a complete JNI environment of our own, which checks how it is
// used (references, classes, pending exceptions, get/release pairs) and fails any chosen call or allocation.
#include "mon.hpp"
#include "typed.hpp"
#include "OnnxMlirRuntime.h"
#include <jni.h>
#include <stdarg.h>
#include <deque>
using std::string; static Mon *M;
extern "C" { jobject Java_com_ibm_onnxmlir_OMModel_main_1graph_1jni(JNIEnv *, jclass, jobject); jobjectArray Java_com_ibm_onnxmlir_OMModel_query_1entry_1points(JNIEnv *, jclass); jstring Java_com_ibm_onnxmlir_OMModel_input_1signature_1jni(JNIEnv *, jclass, jstring); jstring Java_com_ibm_onnxmlir_OMModel_output_1signature_1jni(JNIEnv *, jclass, jstring); jstring Java_com_ibm_onnxmlir_OMModel_compilation_1info_1jni(JNIEnv *, jclass); }
// --- allocations of the C code under test -------------------------------------------------
static long gAllocs, gFailAlloc = -1; static bool gInside, gAllocFailed; static std::map<void *, size_t> gLive;
static void *track(void *p, size_t n) { if (gInside && p) gLive[p] = n; return p; }
static bool refuse() { if (!gInside) return false; if (gAllocs++ == gFailAlloc) { gAllocFailed = true; errno = ENOMEM; return true; } return false; }
extern "C" { void *__real_malloc(size_t); void __real_free(void *); void *__real_calloc(size_t, size_t); void *__real_realloc(void *, size_t); char *__real_strdup(const char *);
void *__wrap_malloc(size_t n) { return refuse() ? nullptr : track(__real_malloc(n), n); }
void *__wrap_calloc(size_t a, size_t b) { return refuse() ? nullptr : track(__real_calloc(a, b), a * b); }
char *__wrap_strdup(const char *s) { return refuse() ? nullptr : (char *)track(__real_strdup(s), strlen(s) + 1); }
void *__wrap_realloc(void *p, size_t n) { if (refuse()) return nullptr; gLive.erase(p); return track(__real_realloc(p, n), n); }
void __wrap_free(void *p) { gLive.erase(p); __real_free(p); } }
// --- the Java world ------------------------------------------------------------------------
enum Kind { CLASS, STRING, OBJARR, LONGARR, BYTEARR, BUFFER, OMT, OMTL, EXC };
struct Obj { Kind k; string s; std::vector<Obj *> a; std::vector<jlong> l; string bytes; void *addr = nullptr; jlong cap = 0; bool javaOwned = false;
  Obj *data = nullptr, *shape = nullptr, *strides = nullptr, *arr = nullptr; jint type = 0; jlong rank = 0, bufSize = 0, numElems = 0; };
struct Ref { Obj *o; bool live = true; };
struct Method { string cls, name, sig; };
struct Pin { Obj *arr; Obj *str; };
struct World { std::deque<Obj> objs; std::deque<Ref> refs; std::deque<Method> methods; Obj *pending = nullptr; std::map<void *, Pin> pins; long calls = 0, failAt = -1; bool failed = false; int failMode = 0; string failedCall; long thrown = 0; string trace; int frames = 0; bool critical = false; };
static World *W; static string H;
static void bad(const char *k, const string &d) { M->violate(string("jni:") + k, d + " in " + H + " calls " + W->trace.substr(W->trace.size() > 400 ? W->trace.size() - 400 : 0)); }
static Obj *mk(Kind k) { W->objs.emplace_back(); Obj *o = &W->objs.back(); o->k = k; return o; }
static jobject ref(Obj *o) { if (!o) return nullptr; W->refs.push_back({o}); return (jobject)&W->refs.back(); }
static Obj *deref(jobject j, const char *fn) { if (!j) return nullptr; for (auto &r : W->refs) if ((jobject)&r == j) { if (!r.live) { bad("dead-reference", fn); return nullptr; } return r.o; } bad("invalid-reference", fn); return nullptr; }
static Obj *need(jobject j, Kind k, const char *fn) { Obj *o = deref(j, fn); if (!o) { bad("null-object", string(fn) + " is called with a null object"); M->flush(); _exit(0); } if (o->k != k) bad("wrong-kind", fn); return o; }
static void raise(const char *cls) { Obj *e = mk(EXC); e->s = cls; W->pending = e; W->thrown++; }
// entering a JNI function; true if it must fail (with the exception pending if the function may throw)
static bool enter(const char *fn, bool safeWithException = false, int mayFail = 0, const char *exc = "java/lang/OutOfMemoryError") {
  W->trace += string(fn) + " "; M->ev();
  if (W->pending && !safeWithException) bad("call-with-pending-exception", fn);
  if (!mayFail) return false;
  if (W->calls++ == W->failAt) { W->failed = true; W->failedCall = fn; bool quiet = mayFail == 2 || (mayFail == 3 && W->failMode); if (!quiet) raise(exc); return true; }
  return false; }
#define E(name) static JNICALL
static jclass JNICALL FindClass(JNIEnv *, const char *n) { if (enter("FindClass", false, 1, "java/lang/NoClassDefFoundError")) return nullptr; static const std::set<string> known = {"java/lang/Exception", "java/lang/Long", "java/lang/String", "com/ibm/onnxmlir/OMTensor", "com/ibm/onnxmlir/OMTensorList", "java/lang/RuntimeException", "java/lang/OutOfMemoryError", "java/lang/NullPointerException", "java/lang/IllegalArgumentException"}; if (!known.count(n)) { raise("java/lang/NoClassDefFoundError"); return nullptr; } Obj *o = mk(CLASS); o->s = n; return (jclass)ref(o); }
static jmethodID JNICALL GetMethodID(JNIEnv *, jclass c, const char *n, const char *sig) { if (enter("GetMethodID", false, 1, "java/lang/NoSuchMethodError")) return nullptr; Obj *o = need(c, CLASS, "GetMethodID");
  static const std::set<string> known = {"com/ibm/onnxmlir/OMTensor.<init>(Ljava/nio/ByteBuffer;[J[JI)V", "com/ibm/onnxmlir/OMTensor.getData()Ljava/nio/ByteBuffer;", "com/ibm/onnxmlir/OMTensor.setData(Ljava/nio/ByteBuffer;)V", "com/ibm/onnxmlir/OMTensor.getShape()[J", "com/ibm/onnxmlir/OMTensor.setShape([J)V", "com/ibm/onnxmlir/OMTensor.getStrides()[J", "com/ibm/onnxmlir/OMTensor.setStrides([J)V", "com/ibm/onnxmlir/OMTensor.getDataType()I", "com/ibm/onnxmlir/OMTensor.setDataType(I)V", "com/ibm/onnxmlir/OMTensor.getBufferSize()J", "com/ibm/onnxmlir/OMTensor.getRank()J", "com/ibm/onnxmlir/OMTensor.getNumElems()J", "com/ibm/onnxmlir/OMTensorList.<init>([Lcom/ibm/onnxmlir/OMTensor;)V", "com/ibm/onnxmlir/OMTensorList.getOmtArray()[Lcom/ibm/onnxmlir/OMTensor;"};
  if (!known.count(o->s + "." + n + sig)) { raise("java/lang/NoSuchMethodError"); return nullptr; } W->methods.push_back({o->s, n, sig}); return (jmethodID)&W->methods.back(); }
static Method *method(jmethodID m, const char *fn) { for (auto &x : W->methods) if ((jmethodID)&x == m) return &x; bad("invalid-method", fn); M->flush(); _exit(0); }
static const char *clsOf(Obj *o) { return o->k == OMT ? "com/ibm/onnxmlir/OMTensor" : o->k == OMTL ? "com/ibm/onnxmlir/OMTensorList" : "?"; }
static Obj *receiver(jobject j, Method *m, const char *fn, char ret) { Obj *o = deref(j, fn); if (!o) { bad("null-object", string(fn) + " is called on a null object"); M->flush(); _exit(0); } if (m->cls != clsOf(o)) bad("wrong-class", string(fn) + " " + m->name); char r = m->sig[m->sig.find(')') + 1]; if (r == '[') r = 'L'; if (r != ret) bad("wrong-return-type", m->name); return o; }
static jobject JNICALL CallObjectMethodV(JNIEnv *, jobject j, jmethodID id, va_list) { if (enter("CallObjectMethod", false, 3, "java/lang/RuntimeException")) return nullptr; Method *m = method(id, "CallObjectMethod"); Obj *o = receiver(j, m, "CallObjectMethod", 'L'); if (m->name == "getData") return ref(o->data); if (m->name == "getShape") return ref(o->shape); if (m->name == "getStrides") return ref(o->strides); return ref(o->arr); }
static jobject JNICALL CallObjectMethod(JNIEnv *e, jobject j, jmethodID m, ...) { va_list a; va_start(a, m); jobject r = CallObjectMethodV(e, j, m, a); va_end(a); return r; }
static jint JNICALL CallIntMethod(JNIEnv *, jobject j, jmethodID id, ...) { if (enter("CallIntMethod", false, 1, "java/lang/RuntimeException")) return 0; Method *m = method(id, "CallIntMethod"); return receiver(j, m, "CallIntMethod", 'I')->type; }
static jlong JNICALL CallLongMethod(JNIEnv *, jobject j, jmethodID id, ...) { if (enter("CallLongMethod", false, 1, "java/lang/RuntimeException")) return 0; Method *m = method(id, "CallLongMethod"); Obj *o = receiver(j, m, "CallLongMethod", 'J'); return m->name == "getRank" ? o->rank : m->name == "getBufferSize" ? o->bufSize : o->numElems; }
static jsize JNICALL GetArrayLength(JNIEnv *, jarray j) { enter("GetArrayLength"); Obj *o = deref(j, "GetArrayLength"); if (!o) { bad("null-object", "GetArrayLength of null"); M->flush(); _exit(0); } return o->k == OBJARR ? o->a.size() : o->k == LONGARR ? o->l.size() : o->bytes.size(); }
static jobject JNICALL GetObjectArrayElement(JNIEnv *, jobjectArray j, jsize i) { if (enter("GetObjectArrayElement", false, 3, "java/lang/ArrayIndexOutOfBoundsException")) return nullptr; Obj *o = need(j, OBJARR, "GetObjectArrayElement"); if (i < 0 || i >= (jsize)o->a.size()) { bad("array-index", "GetObjectArrayElement"); raise("java/lang/ArrayIndexOutOfBoundsException"); return nullptr; } return ref(o->a[i]); }
static void JNICALL SetObjectArrayElement(JNIEnv *, jobjectArray j, jsize i, jobject v) { if (enter("SetObjectArrayElement", false, 1, "java/lang/ArrayStoreException")) return; Obj *o = need(j, OBJARR, "SetObjectArrayElement"); if (i < 0 || i >= (jsize)o->a.size()) { bad("array-index", "SetObjectArrayElement"); raise("java/lang/ArrayIndexOutOfBoundsException"); return; } o->a[i] = deref(v, "SetObjectArrayElement"); }
static jobjectArray JNICALL NewObjectArray(JNIEnv *, jsize n, jclass c, jobject init) { if (enter("NewObjectArray", false, 1)) return nullptr; Obj *k = need(c, CLASS, "NewObjectArray"); Obj *o = mk(OBJARR); o->s = k->s; if (n < 0) { raise("java/lang/NegativeArraySizeException"); return nullptr; } o->a.assign(n, deref(init, "NewObjectArray")); return (jobjectArray)ref(o); }
static jlongArray JNICALL NewLongArray(JNIEnv *, jsize n) { if (enter("NewLongArray", false, 1)) return nullptr; if (n < 0) { raise("java/lang/NegativeArraySizeException"); return nullptr; } Obj *o = mk(LONGARR); o->l.assign(n, 0x5a5a); return (jlongArray)ref(o); }
static void JNICALL SetLongArrayRegion(JNIEnv *, jlongArray j, jsize b, jsize n, const jlong *v) { if (enter("SetLongArrayRegion", false, 1, "java/lang/ArrayIndexOutOfBoundsException")) return; Obj *o = need(j, LONGARR, "SetLongArrayRegion"); if (b < 0 || n < 0 || b + n > (jsize)o->l.size()) { bad("array-region", "SetLongArrayRegion"); raise("java/lang/ArrayIndexOutOfBoundsException"); return; } for (jsize i = 0; i < n; ++i) o->l[b + i] = v[i]; }
static void JNICALL GetLongArrayRegion(JNIEnv *, jlongArray j, jsize b, jsize n, jlong *v) { if (enter("GetLongArrayRegion", false, 1, "java/lang/ArrayIndexOutOfBoundsException")) return; Obj *o = need(j, LONGARR, "GetLongArrayRegion"); if (b < 0 || n < 0 || b + n > (jsize)o->l.size()) { bad("array-region", "GetLongArrayRegion"); raise("java/lang/ArrayIndexOutOfBoundsException"); return; } for (jsize i = 0; i < n; ++i) v[i] = o->l[b + i]; }
static jlong *JNICALL GetLongArrayElements(JNIEnv *, jlongArray j, jboolean *copy) { if (enter("GetLongArrayElements", false, 3)) return nullptr; Obj *o = need(j, LONGARR, "GetLongArrayElements"); jlong *p = (jlong *)__real_malloc(std::max<size_t>(1, o->l.size() * 8)); for (size_t i = 0; i < o->l.size(); ++i) p[i] = o->l[i]; if (copy) *copy = JNI_TRUE; W->pins[p] = {o, nullptr}; return p; }
static void JNICALL ReleaseLongArrayElements(JNIEnv *, jlongArray j, jlong *p, jint mode) { enter("ReleaseLongArrayElements", true); Obj *o = need(j, LONGARR, "ReleaseLongArrayElements"); auto it = W->pins.find(p); if (it == W->pins.end() || it->second.arr != o) { bad("release", "ReleaseLongArrayElements of something else"); return; } if (mode != JNI_ABORT) for (size_t i = 0; i < o->l.size(); ++i) o->l[i] = p[i]; if (mode != JNI_COMMIT) { W->pins.erase(it); __real_free(p); } }
static void *JNICALL GetPrimitiveArrayCritical(JNIEnv *e, jarray j, jboolean *c) { return GetLongArrayElements(e, (jlongArray)j, c); }
static void JNICALL ReleasePrimitiveArrayCritical(JNIEnv *e, jarray j, void *p, jint m) { ReleaseLongArrayElements(e, (jlongArray)j, (jlong *)p, m); }
static void *JNICALL GetDirectBufferAddress(JNIEnv *, jobject j) { if (enter("GetDirectBufferAddress", false, 2)) return nullptr; return need(j, BUFFER, "GetDirectBufferAddress")->addr; }
static jlong JNICALL GetDirectBufferCapacity(JNIEnv *, jobject j) { enter("GetDirectBufferCapacity"); return need(j, BUFFER, "GetDirectBufferCapacity")->cap; }
static jobject JNICALL NewDirectByteBuffer(JNIEnv *, void *p, jlong n) { if (enter("NewDirectByteBuffer", false, 3)) return nullptr; if (n < 0) { raise("java/lang/IllegalArgumentException"); return nullptr; } Obj *o = mk(BUFFER); o->addr = p; o->cap = n; return ref(o); }
static jstring JNICALL NewStringUTF(JNIEnv *, const char *s) { if (enter("NewStringUTF", false, 1)) return nullptr; Obj *o = mk(STRING); o->s = s; return (jstring)ref(o); }
static const char *JNICALL GetStringUTFChars(JNIEnv *, jstring j, jboolean *c) { if (enter("GetStringUTFChars", false, 3)) return nullptr; Obj *o = need(j, STRING, "GetStringUTFChars"); char *p = __real_strdup(o->s.c_str()); if (c) *c = JNI_TRUE; W->pins[p] = {nullptr, o}; return p; }
static void JNICALL ReleaseStringUTFChars(JNIEnv *, jstring j, const char *p) { enter("ReleaseStringUTFChars", true); Obj *o = need(j, STRING, "ReleaseStringUTFChars"); auto it = W->pins.find((void *)p); if (it == W->pins.end() || it->second.str != o) { bad("release", "ReleaseStringUTFChars of something else"); return; } W->pins.erase(it); __real_free((void *)p); }
static jsize JNICALL GetStringUTFLength(JNIEnv *, jstring j) { enter("GetStringUTFLength"); return need(j, STRING, "GetStringUTFLength")->s.size(); }
static jobject JNICALL NewObjectV(JNIEnv *, jclass c, jmethodID id, va_list a) { if (enter("NewObject", false, 1)) return nullptr; Obj *k = need(c, CLASS, "NewObject"); Method *m = method(id, "NewObject"); if (m->cls != k->s || m->name != "<init>") bad("wrong-constructor", m->name);
  if (k->s == "com/ibm/onnxmlir/OMTensorList") { Obj *arr = deref(va_arg(a, jobject), "NewObject"); Obj *o = mk(OMTL); o->arr = arr; return ref(o); }
  Obj *buf = deref(va_arg(a, jobject), "NewObject"), *sh = deref(va_arg(a, jobject), "NewObject"), *st = deref(va_arg(a, jobject), "NewObject"); jint t = va_arg(a, jint);
  if (!buf || !sh || !st) { raise("java/lang/NullPointerException"); return nullptr; } if (sh->k != LONGARR || st->k != LONGARR || buf->k != BUFFER) { bad("wrong-argument", "NewObject"); return nullptr; } if (sh->l.size() != st->l.size() || t < 0 || t > 20) { raise("java/lang/IllegalArgumentException"); return nullptr; }
  Obj *o = mk(OMT); o->bytes.assign((char *)buf->addr, buf->cap); o->shape = sh; o->strides = st; o->type = t; o->rank = sh->l.size(); return ref(o); }   // the constructor copies the data
static jobject JNICALL NewObject(JNIEnv *e, jclass c, jmethodID m, ...) { va_list a; va_start(a, m); jobject r = NewObjectV(e, c, m, a); va_end(a); return r; }
static jboolean JNICALL ExceptionCheck(JNIEnv *) { enter("ExceptionCheck", true); return W->pending != nullptr; }
static jthrowable JNICALL ExceptionOccurred(JNIEnv *) { enter("ExceptionOccurred", true); return (jthrowable)ref(W->pending); }
static void JNICALL ExceptionClear(JNIEnv *) { enter("ExceptionClear", true); W->pending = nullptr; }
static void JNICALL ExceptionDescribe(JNIEnv *) { enter("ExceptionDescribe", true); W->pending = nullptr; }
static jint JNICALL ThrowNew(JNIEnv *, jclass c, const char *msg) { enter("ThrowNew"); Obj *k = need(c, CLASS, "ThrowNew"); raise(k->s.c_str()); W->pending->bytes = msg ? msg : ""; return 0; }
static jint JNICALL Throw(JNIEnv *, jthrowable t) { enter("Throw"); W->pending = need(t, EXC, "Throw"); return 0; }
static void JNICALL DeleteLocalRef(JNIEnv *, jobject j) { enter("DeleteLocalRef", true); if (!j) return; for (auto &r : W->refs) if ((jobject)&r == j) { if (!r.live) bad("deleted-twice", "DeleteLocalRef"); r.live = false; return; } bad("invalid-reference", "DeleteLocalRef"); }
static jobject JNICALL NewLocalRef(JNIEnv *, jobject j) { enter("NewLocalRef"); return ref(deref(j, "NewLocalRef")); }
static jint JNICALL EnsureLocalCapacity(JNIEnv *, jint) { return enter("EnsureLocalCapacity", false, 1) ? -1 : 0; }
static jint JNICALL PushLocalFrame(JNIEnv *, jint) { if (enter("PushLocalFrame", false, 1)) return -1; W->frames++; return 0; }
static jobject JNICALL PopLocalFrame(JNIEnv *, jobject j) { enter("PopLocalFrame", true); W->frames--; return j; }
static jboolean JNICALL IsSameObject(JNIEnv *, jobject a, jobject b) { enter("IsSameObject"); return deref(a, "IsSameObject") == deref(b, "IsSameObject"); }
static jclass JNICALL GetObjectClass(JNIEnv *, jobject j) { enter("GetObjectClass"); Obj *o = deref(j, "GetObjectClass"); Obj *c = mk(CLASS); c->s = o ? clsOf(o) : ""; return (jclass)ref(c); }
static jint JNICALL GetVersion(JNIEnv *) { enter("GetVersion"); return JNI_VERSION_1_8; }
static void trap() { M->inconclusive("an unsupported JNI function was called in " + H); M->flush(); _exit(0); }
static JNINativeInterface_ table() { JNINativeInterface_ t; void **p = (void **)&t; for (size_t i = 0; i < sizeof t / sizeof(void *); ++i) p[i] = (void *)trap;
#define F(x) t.x = x;
  F(FindClass) F(GetMethodID) F(CallObjectMethod) F(CallObjectMethodV) F(CallIntMethod) F(CallLongMethod) F(GetArrayLength) F(GetObjectArrayElement) F(SetObjectArrayElement) F(NewObjectArray) F(NewLongArray) F(SetLongArrayRegion) F(GetLongArrayRegion) F(GetLongArrayElements) F(ReleaseLongArrayElements) F(GetPrimitiveArrayCritical) F(ReleasePrimitiveArrayCritical) F(GetDirectBufferAddress) F(GetDirectBufferCapacity) F(NewDirectByteBuffer) F(NewStringUTF) F(GetStringUTFChars) F(ReleaseStringUTFChars) F(GetStringUTFLength) F(NewObject) F(NewObjectV) F(ExceptionCheck) F(ExceptionOccurred) F(ExceptionClear) F(ExceptionDescribe) F(ThrowNew) F(Throw) F(DeleteLocalRef) F(NewLocalRef) F(EnsureLocalCapacity) F(PushLocalFrame) F(PopLocalFrame) F(IsSameObject) F(GetObjectClass) F(GetVersion)
  return t; }
// --- the model -------------------------------------------------------------------------------
static const int SZ[] = {0, 4, 1, 1, 2, 2, 4, 8, 8, 1, 2, 8, 4, 8, 8, 16, 2, 1, 1, 1, 1};
struct Tens { int type; std::vector<int64_t> shape; string bytes; bool own = true, alias = false; int64_t offset = 0; };
static std::vector<Tens> gIn, gOut; static bool gFail, gSeen, gUndef; static long gCalls;
static string show(const Tens &t) { string s = fmt("type %d [", t.type); for (auto d : t.shape) s += fmt("%ld,", (long)d); return s + fmt("] %zu bytes", t.bytes.size()); }
extern "C" { OMTensor *omTensorCreateUntyped(int64_t); void omTensorSetDataPtr(OMTensor *, int64_t, void *, void *); }
static std::deque<string> gStatic;
extern "C" OMTensorList *run_main_graph(OMTensorList *in) {
  gInside = false; gCalls++; gSeen = true; M->count("model_calls");
  if (omTensorListGetSize(in) != (int64_t)gIn.size()) M->violate("input-count", fmt("%ld for %zu ", (long)omTensorListGetSize(in), gIn.size()) + H);
  else for (size_t i = 0; i < gIn.size(); ++i) { OMTensor *t = omTensorListGetOmtByIndex(in, i); Tens &w = gIn[i]; M->ev(); M->count("inputs_compared"); bool ok = t && omTensorGetDataType(t) == w.type && omTensorGetRank(t) == (int64_t)w.shape.size(); if (ok) for (size_t d = 0; d < w.shape.size(); ++d) ok = ok && omTensorGetShape(t)[d] == w.shape[d]; if (ok && !w.bytes.empty()) ok = !memcmp(omTensorGetDataPtr(t), w.bytes.data(), w.bytes.size()); if (ok && omTensorGetOwning(t)) M->violate("input-owned", H); int64_t st = 1; if (ok) for (int d = (int)w.shape.size() - 1; d >= 0; --d) { if (omTensorGetStrides(t)[d] != st) ok = false; st *= w.shape[d]; } if (!ok) M->violate("input", show(w) + fmt(" as input %zu of ", i) + H); }
  if (gFail) { errno = EINVAL; gInside = true; return nullptr; }
  gInside = true; gFailAlloc = -1 - (gFailAlloc >= 0 ? 0 : 0); // what follows is the model's own memory, still to be released by the binding
  std::vector<OMTensor *> v; long saved = gFailAlloc; gFailAlloc = -1;
  for (auto &o : gOut) { int64_t n = o.bytes.size(); void *alloc, *data; bool own = o.own; if (own) { alloc = malloc(n + o.offset + 1); data = (char *)alloc + o.offset; memcpy(data, o.bytes.data(), n); } else { gStatic.push_back(string(o.offset, 'x') + o.bytes); alloc = data = &gStatic.back()[0] + o.offset; }
    OMTensor *t = omTensorCreateUntyped(o.shape.size()); omTensorSetDataPtr(t, own, alloc, data); omTensorSetDataType(t, gUndef ? (OM_DATA_TYPE)0 : (OM_DATA_TYPE)o.type); int64_t st = 1; for (int d = (int)o.shape.size() - 1; d >= 0; --d) { const_cast<int64_t *>(omTensorGetShape(t))[d] = o.shape[d]; const_cast<int64_t *>(omTensorGetStrides(t))[d] = st; st *= o.shape[d]; } v.push_back(t); }
  OMTensorList *l = omTensorListCreate(v.data(), v.size()); gFailAlloc = saved; return l; }
static std::vector<string> gEps; static std::map<string, string> gSig; static string gInfo; static bool gInfoNull;
extern "C" const char *const *omQueryEntryPoints(int64_t *n) { static std::vector<const char *> p; p.clear(); for (auto &e : gEps) p.push_back(e.c_str()); p.push_back(nullptr); if (n) *n = gEps.size(); return p.data(); }
extern "C" const char *omInputSignature(const char *e) { auto i = gSig.find(string("in:") + e); return i == gSig.end() ? nullptr : i->second.c_str(); }
extern "C" const char *omOutputSignature(const char *e) { auto i = gSig.find(string("out:") + e); return i == gSig.end() ? nullptr : i->second.c_str(); }
extern "C" const char *omCompilationInfo() { return gInfoNull ? nullptr : gInfo.c_str(); }
// --- cases -----------------------------------------------------------------------------------
static Tens tensor(Rng &r, int maxElems, bool many) { Tens t; t.type = r.chance(1, 40) ? r.in(14, 20) : r.pick(std::vector<int>{1, 2, 3, 4, 5, 6, 7, 9, 10, 11, 12, 13}); int rank = r.chance(1, 8) ? 0 : r.in(1, 6); int64_t n = 1; for (int i = 0; i < rank; ++i) { int64_t d = r.chance(1, 12) ? 0 : r.chance(1, 6) ? 1 : r.in(1, many ? 3 : 9); if (n * d > maxElems) d = 1; t.shape.push_back(d); n *= d; } t.bytes.resize(n * SZ[t.type]); int prof = r.in(0, 2); for (int64_t i = 0; i < (int64_t)t.bytes.size(); ++i) t.bytes[i] = prof == 0 ? 0 : prof == 1 ? (char)r.next() : (char)(0x7f + (r.next() & 0x81)); t.own = r.chance(3, 4); t.offset = r.chance(1, 3) ? r.in(0, 4) * 16 : 0; return t; }
static Obj *javaTensor(const Tens &t) { Obj *o = mk(OMT); o->type = t.type; o->rank = t.shape.size(); o->bufSize = t.bytes.size(); o->numElems = 1; for (auto d : t.shape) o->numElems *= d; o->shape = mk(LONGARR); o->strides = mk(LONGARR); o->shape->l.assign(t.shape.begin(), t.shape.end()); o->strides->l.assign(t.shape.size(), 1); for (int i = (int)t.shape.size() - 2; i >= 0; --i) o->strides->l[i] = o->strides->l[i + 1] * t.shape[i + 1]; o->data = mk(BUFFER); o->data->cap = t.bytes.size(); o->data->addr = __real_malloc(std::max<size_t>(1, t.bytes.size())); memcpy(o->data->addr, t.bytes.data(), t.bytes.size()); o->data->javaOwned = true; return o; }
static void closeWorld(bool expectRelease) { for (auto &p : W->pins) { if (expectRelease) bad("not-released", p.second.arr ? "array elements" : "string characters"); __real_free(p.first); } if (W->frames) bad("local-frames", fmt("%d left", W->frames)); for (auto &o : W->objs) if (o.javaOwned) __real_free(o.addr); }
static void leaked(const string &why) { if (!gLive.empty()) { size_t n = 0; for (auto &p : gLive) n += p.second; M->violate("native-memory:" + why, fmt("%zu blocks, %zu bytes stay allocated after ", gLive.size(), n) + H + " failed call '" + W->failedCall + "'"); for (auto &p : gLive) __real_free(p.first); gLive.clear(); } }
static JNINativeInterface_ TABLE; static JNIEnv ENVP;
static void begin(World &w) { W = &w; gLive.clear(); gAllocs = 0; gFailAlloc = -1; gAllocFailed = false; gSeen = false; ENVP.functions = &TABLE; }
static long script(uint64_t seed, bool count, long failAt, long failAlloc, int mode, string *how) {
  Rng r(seed); World w; begin(w); int n = r.chance(1, 12) ? r.in(10, 40) : r.in(0, 5); bool many = n > 8; gIn.clear(); gOut.clear(); for (int i = 0; i < n; ++i) gIn.push_back(tensor(r, many ? 20 : 300, many)); int m = r.chance(1, 12) ? r.in(10, 40) : r.in(1, 5); for (int i = 0; i < m; ++i) gOut.push_back(tensor(r, m > 8 ? 20 : 300, m > 8)); gFail = r.chance(1, 8); gUndef = r.chance(1, 40); gStatic.clear();
  string wrong; Obj *list = mk(OMTL); list->arr = mk(OBJARR); for (auto &t : gIn) list->arr->a.push_back(javaTensor(t));
  if (r.chance(1, 12)) { Obj *o = n ? list->arr->a[r.in(0, n - 1)] : nullptr; switch (r.in(0, 6)) { case 0: list = nullptr; wrong = "null list"; break; case 1: list->arr = nullptr; wrong = "null array"; break; case 2: if (n) { list->arr->a[r.in(0, n - 1)] = nullptr; wrong = "null tensor"; } break; case 3: if (o) { o->type = 0; wrong = "undefined type"; } break; case 4: if (o) { o->data->addr = (__real_free(o->data->addr), nullptr); wrong = "not direct"; } break; case 5: if (o) { o->shape = nullptr; wrong = "null shape"; } break; default: if (o) { o->rank = -1; wrong = "negative rank"; } } }
  H = fmt("main_graph of %d inputs, %d outputs%s%s %s", n, m, gFail ? ", the model fails," : "", gUndef ? ", undefined output type," : "", wrong.c_str());
  if (!count) H += failAt >= 0 ? fmt(" failing JNI call %ld mode %d", failAt, mode) : failAlloc >= 0 ? fmt(" failing allocation %ld", failAlloc) : "";
  w.failAt = failAt; w.failMode = mode; gFailAlloc = failAlloc; jobject cls = ref(mk(CLASS)), jl = ref(list); w.calls = 0;
  gInside = true; jobject res = Java_com_ibm_onnxmlir_OMModel_main_1graph_1jni(&ENVP, (jclass)cls, jl); gInside = false; bool injected = w.failed || gAllocFailed;
  W->trace += "| "; bool must = wrong.empty() && !gFail && !gUndef && !injected;
  if (must) { M->count("calls_succeeded"); if (!res || w.pending) M->violate("call-failed", H + ": " + (w.pending ? w.pending->s : "null") + " calls " + w.trace.substr(w.trace.size() > 200 ? w.trace.size() - 200 : 0)); else { Obj *l = deref(res, "result"); if (!l || l->k != OMTL || !l->arr || l->arr->a.size() != gOut.size()) M->violate("output-count", H); else for (size_t i = 0; i < gOut.size(); ++i) { Obj *o = l->arr->a[i]; Tens &t = gOut[i]; M->count("outputs_compared"); M->ev(); std::vector<jlong> st(t.shape.size(), 1); for (int d = (int)t.shape.size() - 2; d >= 0; --d) st[d] = st[d + 1] * t.shape[d + 1]; if (!o || o->k != OMT || o->type != t.type || o->shape->l != std::vector<jlong>(t.shape.begin(), t.shape.end()) || o->strides->l != st || o->bytes != t.bytes) M->violate("output", show(t) + fmt(" as output %zu of ", i) + H); } } }
  else { M->count(injected ? "faults_injected" : wrong.empty() ? "model_failures" : "wrong_arguments"); if (w.failed) M->count("fault_" + w.failedCall); if (gAllocFailed) M->count("fault_allocation"); if (!w.pending) M->violate(string("no-exception:") + (injected ? (gAllocFailed ? "allocation" : w.failedCall) : !wrong.empty() ? wrong : gFail ? "model-error" : "undefined-output"), H + (res ? ": returns a list" : ": returns null without an exception")); if (res) M->violate("result-with-exception", H); }
  if (!wrong.empty() && gSeen) M->violate("model-called", H + ": the model was called with " + wrong);
  leaked(injected ? "fault" : must ? "success" : "failure"); closeWorld(true); M->distinct(mixh(mixh(seed, failAt), mixh(failAlloc, mode))); if (how) *how = H; long c = w.calls; W = nullptr; return count ? (c << 20) | gAllocs : 0; }
static void calls(Rng &r, long i) { uint64_t seed = r.next(); string h; long c = script(seed, true, -1, -1, 0, &h); M->sample(h); long nj = c >> 20, na = c & ((1 << 20) - 1); if (i % 4 == 0) { for (long k = 0; k < nj; ++k) if (nj < 120 || r.chance(120, nj)) { script(seed, false, k, -1, 0, nullptr); if (r.chance(1, 3)) script(seed, false, k, -1, 1, nullptr); } for (long k = 0; k < na; ++k) if (na < 60 || r.chance(60, na)) script(seed, false, -1, k, 0, nullptr); } else for (int k = 0; k < 4; ++k) { if (nj) script(seed, false, r.in(0, nj - 1), -1, r.in(0, 1), nullptr); } }
static void query(Rng &r, long) {
  static const std::vector<string> TXT = {"", "[]", "[    { \"type\" : \"f32\" , \"dims\" : [3 , -1] , \"name\" : \"x\" } ]", "zażółć 日本", string(3000, 'x'), "%s%n%d", "a\"b\\c\n"}; static const std::vector<string> EP = {"run_main_graph", "run_main_graph_tag", "", "e%s", "日", string(400, 'e')};
  gEps.clear(); gSig.clear(); int n = r.in(0, 5); for (int i = 0; i < n; ++i) { string e = r.pick(EP) + (i ? std::to_string(i) : ""); gEps.push_back(e); gSig["in:" + e] = r.pick(TXT) + std::to_string(r.in(0, 9)); gSig["out:" + e] = r.chance(1, 6) ? "" : r.pick(TXT); } gInfo = r.pick(TXT); gInfoNull = r.chance(1, 20); uint64_t seed = r.next(); int what = r.in(0, 3);
  long nj = 0, na = 0; for (long k = -1; k < nj + na; ++k) { World w; begin(w); Rng q(seed); string ep = n && q.chance(3, 4) ? gEps[q.in(0, n - 1)] : q.pick(EP); bool nullEp = q.chance(1, 15); w.failAt = k >= 0 && k < nj ? k : -1; gFailAlloc = k >= nj ? k - nj : -1; jobject cls = ref(mk(CLASS)); Obj *s = mk(STRING); s->s = ep; jstring js = nullEp ? nullptr : (jstring)ref(s); w.failMode = q.in(0, 1); H = fmt("query %d of '%s' of %d entry points, fault %ld", what, nullEp ? "null" : ep.c_str(), n, k); w.calls = 0; gInside = true; jobject res = what == 0 ? (jobject)Java_com_ibm_onnxmlir_OMModel_query_1entry_1points(&ENVP, (jclass)cls) : what == 1 ? (jobject)Java_com_ibm_onnxmlir_OMModel_input_1signature_1jni(&ENVP, (jclass)cls, js) : what == 2 ? (jobject)Java_com_ibm_onnxmlir_OMModel_output_1signature_1jni(&ENVP, (jclass)cls, js) : (jobject)Java_com_ibm_onnxmlir_OMModel_compilation_1info_1jni(&ENVP, (jclass)cls); gInside = false; bool injected = w.failed || gAllocFailed; M->ev(); M->count("queries"); auto sig = gSig.find((what == 1 ? "in:" : "out:") + ep); bool ok = !injected && (what == 0 || (what == 3 ? !gInfoNull : !nullEp && sig != gSig.end()));
    if (ok) { Obj *o = res ? deref(res, "result") : nullptr; if (!o || w.pending) M->violate("query-failed", H); else if (what == 0) { bool same = o->k == OBJARR && o->a.size() == gEps.size(); for (size_t i = 0; same && i < gEps.size(); ++i) same = o->a[i] && o->a[i]->s == gEps[i]; if (!same) M->violate("query-text", H); } else if (o->k != STRING || o->s != (what == 3 ? gInfo : sig->second)) M->violate("query-text", H + " gives " + o->s); }
    else { M->count("query_failures"); if (!w.pending) M->violate(string("no-exception:query-") + (injected ? "fault" : what == 3 ? "no-info" : nullEp ? "null" : "unknown"), H); if (res) M->violate("result-with-exception", H); }
    leaked("query"); closeWorld(true); if (k < 0) { nj = w.calls; na = gAllocs; } M->distinct(mixh(mixh(seed, what), k)); W = nullptr; } }
int main(int argc, char **argv) { Mon m; M = &m; TABLE = table(); long n = atol(argv[1]); const char *lv[] = {"trace", "debug", "info", "error", "nonsense", nullptr}; 
  const char *l = lv[(m.shard + m.seed) % 6]; if (l) setenv("ONNX_MLIR_JNI_LOG_LEVEL", l, 1); else unsetenv("ONNX_MLIR_JNI_LOG_LEVEL");
  static string f; switch ((m.shard + m.seed / 6) % 5) { case 0: f = "stdout"; break; case 1: f = m.tmp + "/jni.log"; break; case 2: f = m.tmp + "/absent/jni.log"; break; case 3: f = "stderr"; break; default: break; } if (f.empty()) unsetenv("ONNX_MLIR_JNI_LOG_FILE"); else setenv("ONNX_MLIR_JNI_LOG_FILE", f.c_str(), 1);
  m.run("calls", n, calls, 120); m.run("query", n, query); return m.finish(); }
