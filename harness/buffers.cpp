// C18: direct byte buffers.
#include "common.h"
#include <jnivm/bytebuffer.h>
using namespace jnivm;
static jobject via(JNIEnv *env, jobject o) { // any kind of reference to the same object
  switch (sx_choose(4, "ref")) {
  case 0: return o;
  case 1: return env->NewLocalRef(o);
  case 2: return env->NewGlobalRef(o);
  default: return env->NewWeakGlobalRef(o);
  }
}
int main() {
  VM vm;
  JNIEnv *env = vm.GetJNIEnv();
  bool real = sx_choose(2, "real");
  void *p[2];
  jlong cap[2];
  jobject b[2];
  unsigned char *mem = nullptr;
  unsigned char content[4];
  int n = 1 + sx_choose(2, "count");
  for (int i = 0; i < n; i++) {
    if (real && i == 0) {
      mem = (unsigned char *)malloc(4);
      sx_symbolic(content, 4, "content");
      memcpy(mem, content, 4);
      p[i] = mem;
      cap[i] = 4;
    } else {
      p[i] = (void *)(uintptr_t)sx_any<uint64_t>("address"); // never accessed
      cap[i] = sx_any<jlong>("capacity");
    }
    b[i] = env->NewDirectByteBuffer(p[i], cap[i]);
    SX_ASSERT(b[i], "a buffer object");
  }
  for (int i = 0; i < n; i++) {
    jobject r = via(env, b[i]);
    SX_ASSERT(env->GetDirectBufferAddress(r) == p[i], "address");
    SX_ASSERT(env->GetDirectBufferCapacity(r) == cap[i], "capacity");
    SX_ASSERT(env->IsSameObject(r, b[i]), "same object");
    if (n == 2) SX_ASSERT(!env->IsSameObject(r, b[1 - i]), "buffers are distinct objects, whatever memory they describe");
    SX_ASSERT(env->IsSameObject(env->GetObjectClass(r), env->FindClass("java/nio/ByteBuffer")), "class");
    SX_ASSERT(env->IsInstanceOf(r, env->FindClass("java/nio/ByteBuffer")), "instance of its class");
  }
  if (real) {
    // the memory stays the caller's: seen through the buffer, not copied, not freed with it
    auto q = (unsigned char *)env->GetDirectBufferAddress(b[0]);
    jbyte w = sx_any<jbyte>("written");
    int at = sx_choose(4, "at");
    mem[at] = w;
    SX_ASSERT((jbyte)q[at] == w, "the buffer describes the memory itself");
    q[3 - at] = 7;
    SX_ASSERT(mem[3 - at] == 7, "the buffer describes the memory itself");
    auto sp = JNITypes<std::shared_ptr<ByteBuffer>>::JNICast(vm.GetEnv().get(), b[0]);
    std::weak_ptr<ByteBuffer> wk = sp;
    sp.reset();
    jobject g = nullptr;
    if (sx_choose(2, "global")) g = env->NewGlobalRef(b[0]);
    env->PushLocalFrame(2);
    env->PopLocalFrame(nullptr);
    SX_ASSERT(!wk.expired(), "alive while referenced");
    env->GetDirectBufferAddress(b[0]);
    if (g) env->DeleteGlobalRef(g);
    SX_ASSERT(mem[at] == (unsigned char)w, "memory untouched");
    free(mem); // a second free would be reported
    sx_reach("memory");
  }
  sx_reach("end");
  return 0;
}
