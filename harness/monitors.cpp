// C19: monitors exclude each other's holders, per object, recursively, for every schedule.
#include "common.h"
using namespace jnivm;
static VM *vm;
static jobject ref[2][3]; // object x kind of reference
static int inside[2];     // threads inside each monitor
static long counter[2];   // plain data guarded by the monitors
static int T, R;
struct Plan { int obj, kind[2], depth, both; };
static Plan plan[3];
static void body(void *a) {
  Plan &p = *(Plan *)a;
  JNIEnv *env;
  SX_ASSERT(vm->GetJavaVM()->AttachCurrentThread(&env, nullptr) == 0, "attach");
  for (int r = 0; r < R; r++) {
    // monitors are taken in one order, as a correct user does
    int first = p.both ? 0 : p.obj, last = p.both ? 1 : p.obj;
    for (int o = first; o <= last; o++)
      for (int d = 0; d < p.depth; d++) SX_ASSERT(env->MonitorEnter(ref[o][p.kind[d & 1]]) == 0, "enter");
    for (int o = first; o <= last; o++) {
      SX_ASSERT(inside[o]++ == 0, "at most one thread holds a monitor");
      counter[o]++;
    }
    sx_yield();
    for (int d = 1; d < p.depth; d++)
      for (int o = first; o <= last; o++) SX_ASSERT(env->MonitorExit(ref[o][p.kind[d & 1]]) == 0, "exit");
    if (p.depth > 1) sx_yield();
    for (int o = first; o <= last; o++) {
      SX_ASSERT(inside[o] == 1, "at most one thread holds a monitor until the last exit");
      counter[o]++;
      inside[o]--;
      SX_ASSERT(env->MonitorExit(ref[o][p.kind[0]]) == 0, "exit");
    }
  }
  vm->GetJavaVM()->DetachCurrentThread();
}
int main() {
  VM v;
  vm = &v;
  JNIEnv *env = v.GetJNIEnv();
  T = sx_param("T", 2);
  R = sx_param("R", 1);
  for (int o = 0; o < 2; o++) {
    jobject s = env->NewStringUTF(o ? "b" : "a");
    ref[o][0] = s;
    ref[o][1] = env->NewGlobalRef(s);
    ref[o][2] = env->NewWeakGlobalRef(s);
  }
  int t[3];
  long want[2] = {0, 0};
  bool hold = sx_choose(2, "main-holds-other"); // a monitor of another object blocks nobody
  for (int i = 0; i < T; i++) {
    Plan &p = plan[i];
    p.both = hold ? 0 : sx_choose(2, "both");
    p.obj = hold || p.both ? 0 : sx_choose(2, "obj");
    p.kind[0] = sx_choose(3, "kind");
    p.kind[1] = (p.kind[0] + 1) % 3;
    p.depth = 1 + sx_choose(2, "depth");
    for (int o = 0; o < 2; o++) if (p.both || p.obj == o) want[o] += 2 * R;
  }
  if (hold) env->MonitorEnter(ref[1][0]);
  for (int i = 0; i < T; i++) t[i] = sx_thread_create(body, &plan[i]);
  for (int i = 0; i < T; i++) sx_thread_join(t[i]);
  if (hold) { env->MonitorExit(ref[1][1]); sx_reach("hold"); }
  for (int o = 0; o < 2; o++) {
    env->MonitorEnter(ref[o][0]); // free again
    SX_ASSERT(counter[o] == want[o], "no update is lost");
    env->MonitorExit(ref[o][0]);
  }
  sx_reach("end");
  return 0;
}
