// Uniform access to the typed JNI entry points.
#pragma once
#include "common.h"
template <class T> struct Tr;
#define SX_TR(T, N, S)                                                                                                                        \
  template <> struct Tr<T> {                                                                                                                  \
    static const char *sig() { return S; }                                                                                                    \
    static const char *name() { return #N; }                                                                                                  \
    template <class... A> static T callV(JNIEnv *e, jobject o, jmethodID m, A... a) { return e->functions->Call##N##Method(e, o, m, a...); }   \
    static T callL(JNIEnv *e, jobject o, jmethodID m, va_list l) { return e->functions->Call##N##MethodV(e, o, m, l); }                        \
    static T callA(JNIEnv *e, jobject o, jmethodID m, jvalue *v) { return e->functions->Call##N##MethodA(e, o, m, v); }                        \
    template <class... A> static T callV(JNIEnv *e, jobject o, jclass c, jmethodID m, A... a) { return e->functions->CallNonvirtual##N##Method(e, o, c, m, a...); } \
    static T callL(JNIEnv *e, jobject o, jclass c, jmethodID m, va_list l) { return e->functions->CallNonvirtual##N##MethodV(e, o, c, m, l); } \
    static T callA(JNIEnv *e, jobject o, jclass c, jmethodID m, jvalue *v) { return e->functions->CallNonvirtual##N##MethodA(e, o, c, m, v); } \
    template <class... A> static T callV(JNIEnv *e, jclass o, jmethodID m, A... a) { return e->functions->CallStatic##N##Method(e, o, m, a...); } \
    static T callL(JNIEnv *e, jclass o, jmethodID m, va_list l) { return e->functions->CallStatic##N##MethodV(e, o, m, l); }                   \
    static T callA(JNIEnv *e, jclass o, jmethodID m, jvalue *v) { return e->functions->CallStatic##N##MethodA(e, o, m, v); }                   \
    SX_TR_FIELDS(T, N)                                                                                                                        \
  };
#define SX_TR_FIELDS(T, N)                                                                                                                    \
    static T get(JNIEnv *e, jobject o, jfieldID f) { return e->functions->Get##N##Field(e, o, f); }                                            \
    static void set(JNIEnv *e, jobject o, jfieldID f, T v) { e->functions->Set##N##Field(e, o, f, v); }                                        \
    static T get(JNIEnv *e, jclass o, jfieldID f) { return e->functions->GetStatic##N##Field(e, o, f); }                                       \
    static void set(JNIEnv *e, jclass o, jfieldID f, T v) { e->functions->SetStatic##N##Field(e, o, f, v); }
SX_TR(jboolean, Boolean, "Z")
SX_TR(jbyte, Byte, "B")
SX_TR(jchar, Char, "C")
SX_TR(jshort, Short, "S")
SX_TR(jint, Int, "I")
SX_TR(jlong, Long, "J")
SX_TR(jfloat, Float, "F")
SX_TR(jdouble, Double, "D")
SX_TR(jobject, Object, "Ljava/lang/Object;")
#undef SX_TR_FIELDS
#define SX_TR_FIELDS(T, N)
SX_TR(void, Void, "V")
#undef SX_TR
template <class T> static inline jvalue toV(T t) {
  jvalue v;
  memset(&v, 0x5A, sizeof v); // the unused bytes of the union carry nothing
  memcpy(&v, &t, sizeof t);
  return v;
}
// the value of T carried through C variadic promotion and back
template <class T> static inline bool carried(T got, T sent) { return same(got, sent); }
template <> inline bool carried<jfloat>(jfloat got, jfloat sent) { return same(got, sent) || (got != got && sent != sent); }
template <> inline bool carried<jdouble>(jdouble got, jdouble sent) { return same(got, sent) || (got != got && sent != sent); }
