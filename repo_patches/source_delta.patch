From 67eb1e64716ad93dc0e310b109a3930e7fa84522 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:03:13 +0000
Subject: [PATCH 01/32] fix: keep the descriptor parsers inside malformed
 descriptors

---
 src/jnivm/internal/codegen/parseJNIType.cpp |  7 ++++++-
 src/jnivm/internal/findclass.cpp            |  3 +++
 src/jnivm/internal/skipJNIType.cpp          | 10 ++++++++--
 3 files changed, 17 insertions(+), 3 deletions(-)

diff --git a/src/jnivm/internal/codegen/parseJNIType.cpp b/src/jnivm/internal/codegen/parseJNIType.cpp
index 4ca4667..7109e60 100644
--- a/src/jnivm/internal/codegen/parseJNIType.cpp
+++ b/src/jnivm/internal/codegen/parseJNIType.cpp
@@ -66,6 +66,10 @@ const char *jnivm::ParseJNIType(const char *cur, const char *end, std::string &t
 		}
 		break;
 	case '[':
+		if(last + 1 == end) {
+			// Truncated descriptor, array without element type
+			break;
+		}
 		cur = ParseJNIType(last + 1, end, type);
 		if(!JNIVM_FAKE_JNI_SYNTAX) {
 			type = "std::shared_ptr<jnivm::Array<" + ( type.rfind("std::shared_ptr<" , 0) == 0 && type[type.length() - 1] == '>' ? type.substr(16, type.length() - 17) : type) + ">>";
@@ -122,7 +126,8 @@ const char *jnivm::ParseJNIType(const char *cur, const char *end, std::string &t
 																"::") +
 						">";
 		}
-		cur = cend;
+		// Stay inside of the descriptor if the ';' is missing
+		cur = cend != end ? cend : end - 1;
 		break;
 	}
 	return cur;
diff --git a/src/jnivm/internal/findclass.cpp b/src/jnivm/internal/findclass.cpp
index dd71499..d5d2cf1 100644
--- a/src/jnivm/internal/findclass.cpp
+++ b/src/jnivm/internal/findclass.cpp
@@ -110,6 +110,9 @@ void jnivm::Declare(JNIEnv *env, const char *signature) {
 			auto cend = std::find(cur, end, ';');
 			std::string classpath(cur + 1, cend);
 			InternalFindClass(env, classpath.data());
+			if(cend == end) {
+				break;
+			}
 			cur = cend;
 		}
 	}
diff --git a/src/jnivm/internal/skipJNIType.cpp b/src/jnivm/internal/skipJNIType.cpp
index adec7d6..2515918 100644
--- a/src/jnivm/internal/skipJNIType.cpp
+++ b/src/jnivm/internal/skipJNIType.cpp
@@ -2,6 +2,10 @@
 #include <algorithm>
 
 const char * jnivm::SkipJNIType(const char *cur, const char *end) {
+    if(cur == end) {
+            // Truncated descriptor, there is nothing left to skip
+            return end;
+    }
     switch (*cur) {
     case 'V':
             // Void has size 0 ignore it
@@ -16,10 +20,12 @@ const char * jnivm::SkipJNIType(const char *cur, const char *end) {
     case 'D':
             break;
     case '[':
-            cur = SkipJNIType(cur + 1, end) - 1;
-            break;
+            return SkipJNIType(cur + 1, end);
     case 'L':
             cur = std::find(cur, end, ';');
+            if(cur == end) {
+                    return end;
+            }
             break;
     case '(':
             return SkipJNIType(cur + 1, end);
-- 
2.43.0


From 5be26931e2a04ff80842dccb29d332a97df8437b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:22:09 +0000
Subject: [PATCH 02/32] fix: dispatch calls to the nearest inherited
 implementation

---
 src/jnivm/internal/method.cpp | 31 ++++++++++++++++---------------
 1 file changed, 16 insertions(+), 15 deletions(-)

diff --git a/src/jnivm/internal/method.cpp b/src/jnivm/internal/method.cpp
index a9fe678..f6bff70 100644
--- a/src/jnivm/internal/method.cpp
+++ b/src/jnivm/internal/method.cpp
@@ -165,27 +165,28 @@ template<> jobject jnivm::defaultVal(ENV* env, std::string signature) {
     return nullptr;
 }
 
-static Method* findNonVirtualOverload(Class*cl, Method*mid) {
-    if(!cl) {
-        return mid;
-    }
+static Method* findOverload(jnivm::ENV *env, Class*cl, Method*mid) {
     auto res = std::find_if(cl->methods.begin(), cl->methods.end(), [mid](auto&& m) {
         return !m->_static && mid->name == m->name && mid->signature == m->signature && m->nativehandle;
     });
     if(res != cl->methods.end()) {
         return res->get();
-    } else {
-        return nullptr;
     }
+    if(cl->baseclasses) {
+        for(auto&& base : cl->baseclasses(env)) {
+            auto r = base ? findOverload(env, base.get(), mid) : nullptr;
+            if(r) {
+                return r;
+            }
+        }
+    }
+    return nullptr;
 }
 
-static Method* findVirtualOverload(jnivm::ENV *env, Class*cl, Method*mid) {
-    auto r = findNonVirtualOverload(cl, mid);
-    if(r != nullptr) {
-        return r;
-    } else {
-        return findVirtualOverload(env, mid->GetBaseClasses(env)[0].get(), mid);
-    }
+// Nearest implementation of mid seen from cl, mid itself if there is none
+static Method* findOverloadOrDefault(jnivm::ENV *env, Class*cl, Method*mid) {
+    auto r = cl ? findOverload(env, cl, mid) : nullptr;
+    return r ? r : mid;
 }
 
 template<class T> T jnivm::MDispatchBase2<T>::CallMethod(JNIEnv *env, jobject obj, jmethodID id, jvalue *param) {
@@ -198,7 +199,7 @@ template<class T> T jnivm::MDispatchBase2<T>::CallMethod(JNIEnv *env, jobject ob
 #endif
     if (mid && mid->nativehandle) {
         auto cl = JNITypes<std::shared_ptr<Class>>::JNICast(ENV::FromJNIEnv(env), env->GetObjectClass(obj));
-        mid = findVirtualOverload(ENV::FromJNIEnv(env), cl.get(), mid);
+        mid = findOverloadOrDefault(ENV::FromJNIEnv(env), cl.get(), mid);
 #ifdef JNI_TRACE
         LOG("JNIVM", "Call Member Function Class=`%s` Method=`%s` Signature=`%s`", cl ? cl->nativeprefix.data() : "???", mid->name.data(), mid->signature.data());
 #endif
@@ -263,7 +264,7 @@ template<class T> T jnivm::MDispatchBase2<T>::CallMethod(JNIEnv *env, jobject ob
 #ifdef JNI_TRACE
         LOG("JNIVM", "Call NonVirtual Member Function Class=`%s` Method=`%s` Signature=`%s`", clz ? clz->nativeprefix.data() : "???", mid->name.data(), mid ? mid->signature.data() : "???");
 #endif
-        mid = findNonVirtualOverload(clz.get(), mid);
+        mid = findOverloadOrDefault(ENV::FromJNIEnv(env), clz.get(), mid);
         try {
             return static_cast<jnivm::impl::MethodHandleBase<T>*>(mid->nativehandle.get())->NonVirtualInstanceInvoke(ENV::FromJNIEnv(env), obj, param, jnivm::impl::MethodHandleBase<T>{});
         } catch (...) {
-- 
2.43.0


From 1b879033e03805c3c855bed957aa448fea0e408e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:46:37 +0000
Subject: [PATCH 03/32] fix: fabricate arrays of arrays with the declared
 number of dimensions

---
 src/jnivm/internal/method.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/jnivm/internal/method.cpp b/src/jnivm/internal/method.cpp
index f6bff70..a83fd06 100644
--- a/src/jnivm/internal/method.cpp
+++ b/src/jnivm/internal/method.cpp
@@ -115,7 +115,7 @@ template<> jobject jnivm::defaultVal(ENV* env, std::string signature) {
                 return env->GetJNIEnv()->NewDoubleArray(0);
             case 'L':
             case '[':
-                return env->GetJNIEnv()->NewObjectArray(0, env->GetJNIEnv()->FindClass(signature[off + 2] == 'L' && signature[signature.size() - 1] == ';' ? signature.substr(off + 3, signature.size() - (off + 4)).data() : &signature.data()[off + 1]), nullptr);
+                return env->GetJNIEnv()->NewObjectArray(0, env->GetJNIEnv()->FindClass(signature[off + 2] == 'L' && signature[signature.size() - 1] == ';' ? signature.substr(off + 3, signature.size() - (off + 4)).data() : &signature.data()[off + 2]), nullptr);
             default:
 #ifdef JNI_TRACE
             LOG("JNIVM", "Constructing array=`%s` failed unknown type", &signature.data()[off + 1]);
-- 
2.43.0


From 830818146f942e4fd217dee5147775e8a6cb3f69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:46:37 +0000
Subject: [PATCH 04/32] fix: tolerate a null class in field lookups

---
 src/jnivm/internal/field.cpp | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/src/jnivm/internal/field.cpp b/src/jnivm/internal/field.cpp
index e2e44cd..42bdb12 100644
--- a/src/jnivm/internal/field.cpp
+++ b/src/jnivm/internal/field.cpp
@@ -11,6 +11,21 @@ using namespace jnivm;
 template<bool isStatic, bool ReturnNull, bool trace>
 jfieldID jnivm::GetFieldID(JNIEnv *env, jclass cl_, const char *name, const char *type) {
     auto cl = JNITypes<std::shared_ptr<Class>>::JNICast(ENV::FromJNIEnv(env), cl_);
+    if(!cl) {
+#ifdef JNI_DEBUG
+        LOG("JNIVM", "Get%sFieldID class is null %s, %s", isStatic ? "Static" : "", name, type);
+#endif
+        if(ReturnNull) {
+            return nullptr;
+        }
+        // For Debugging purposes without valid parent class
+        auto orphan = std::make_shared<Field>();
+        orphan->name = name;
+        orphan->type = type;
+        orphan->_static = isStatic;
+        JNITypes<std::shared_ptr<Field>>::ToJNIType(ENV::FromJNIEnv(env), orphan);
+        return (jfieldID)orphan.get();
+    }
     std::lock_guard<std::mutex> lock(cl->mtx);
     std::string &classname = cl->name;
 
-- 
2.43.0


From 1fb043dd356ec6214ccda2b5d654c469b1da26ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:54:38 +0000
Subject: [PATCH 05/32] fix: describe pending exceptions that carry no c++
 exception

---
 src/jnivm/vm.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/jnivm/vm.cpp b/src/jnivm/vm.cpp
index b27b9d2..e5f87c0 100644
--- a/src/jnivm/vm.cpp
+++ b/src/jnivm/vm.cpp
@@ -99,6 +99,11 @@ jthrowable ExceptionOccurred(JNIEnv * env) {
 };
 void ExceptionDescribe(JNIEnv *env) {
 	if((ENV::FromJNIEnv(env))->current_exception) {
+		// Throwables created by native code don't have to carry a c++ exception
+		if(!(ENV::FromJNIEnv(env))->current_exception->except) {
+			LOG("JNIVM", "Exception without Message was thrown");
+			return;
+		}
 		try {
 			std::rethrow_exception((ENV::FromJNIEnv(env))->current_exception->except);
 		} catch (const std::exception& ex) {
-- 
2.43.0


From 9f71b716030b161c7cac06969ddc792703b0f273 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:55:46 +0000
Subject: [PATCH 06/32] fix: an exception rethrown by Method::invoke is no
 longer pending

---
 include/jnivm/method.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/jnivm/method.h b/include/jnivm/method.h
index bbba0f7..f00b800 100644
--- a/include/jnivm/method.h
+++ b/include/jnivm/method.h
@@ -138,7 +138,9 @@ template<class T, class... param> jvalue jnivm::Method::j2invoke(JNIEnv &env, T
         ret = jinvoke(*ENV::FromJNIEnv(&env), cl, args);
     }
     if((ENV::FromJNIEnv(&env))->current_exception) {
-        std::rethrow_exception((ENV::FromJNIEnv(&env))->current_exception->except);
+        // The caller receives the exception, it is no longer pending
+        auto pending = std::move((ENV::FromJNIEnv(&env))->current_exception);
+        std::rethrow_exception(pending->except);
     }
     return ret;
 }
-- 
2.43.0


From 613f3125c8094d44ff82f2031998d6eeb37fd013 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:55:46 +0000
Subject: [PATCH 07/32] fix: Method::invoke tolerates thrown objects that carry
 no c++ exception

---
 include/jnivm/method.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/jnivm/method.h b/include/jnivm/method.h
index f00b800..984272f 100644
--- a/include/jnivm/method.h
+++ b/include/jnivm/method.h
@@ -140,6 +140,10 @@ template<class T, class... param> jvalue jnivm::Method::j2invoke(JNIEnv &env, T
     if((ENV::FromJNIEnv(&env))->current_exception) {
         // The caller receives the exception, it is no longer pending
         auto pending = std::move((ENV::FromJNIEnv(&env))->current_exception);
+        if(!pending->except) {
+            // Throwables created by native code don't have to carry a c++ exception
+            throw std::runtime_error("Java exception without a c++ exception was thrown");
+        }
         std::rethrow_exception(pending->except);
     }
     return ret;
-- 
2.43.0


From ca3f01e21b125abc4bdccdc92803e5724d46419b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:00:31 +0000
Subject: [PATCH 08/32] fix: new primitive arrays do not leak their initial
 contents

---
 src/jnivm/internal/array.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/jnivm/internal/array.cpp b/src/jnivm/internal/array.cpp
index d220630..bc05375 100644
--- a/src/jnivm/internal/array.cpp
+++ b/src/jnivm/internal/array.cpp
@@ -1,4 +1,5 @@
 #include <jnivm/class.h>
+#include <algorithm>
 #include "array.hpp"
 
 using namespace jnivm;
@@ -28,7 +29,8 @@ void jnivm::SetObjectArrayElement(JNIEnv *env, jobjectArray a, jsize i, jobject
 }
 
 template <class T> typename JNITypes<T>::Array jnivm::NewArray(JNIEnv * env, jsize length) {
-    auto arr = length ? std::make_shared<Array<T>>(new T[length] {0}, length) : std::make_shared<Array<T>>(0);
+    auto arr = std::make_shared<Array<T>>(length);
+    std::fill_n(arr->getArray(), length, T());
     arr->clazz = InternalFindClass(ENV::FromJNIEnv(env), (std::string("[") + JNITypes<T>::GetJNISignature(ENV::FromJNIEnv(env))).data());
     return JNITypes<std::shared_ptr<Array<T>>>::ToJNIType(ENV::FromJNIEnv(env), arr);
 }
-- 
2.43.0


From 135ea379d870a399e5b62ba2a1ef7fadd2fd667e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:04:53 +0000
Subject: [PATCH 09/32] fix: typed arrays of three and more levels store
 elements through their own type

---
 include/jnivm/array.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/jnivm/array.h b/include/jnivm/array.h
index d8782ad..d26015c 100644
--- a/include/jnivm/array.h
+++ b/include/jnivm/array.h
@@ -243,14 +243,15 @@ namespace jnivm {
 
         template<class Z, class Base, class Y, class...others> class ArrayBaseImpl<Z, Base, Y, others...> : public ArrayBaseImpl<Z, Base, others...> {
             virtual std::shared_ptr<Y> Get(jint i, array_type_t<Y>) const override {
-                return ((std::shared_ptr<Z>*) Array<void>::getArray())[i];
+                // Only the most derived array knows the type of its storage
+                return dynamic_cast<const Array<Z>&>(*this).Get(i, array_type_t<Z>{});
             }
             virtual void Set(jint i, const std::shared_ptr<Y>& val) override {
                 std::shared_ptr<Z> nval(val, dynamic_cast<Z*>(val.get()));
                 if(val && !nval) {
                     throw std::runtime_error("Class Type Exception");
                 }
-                ((std::shared_ptr<Z>*) Array<void>::getArray())[i] = nval;
+                dynamic_cast<Array<Z>&>(*this).Set(i, nval);
             }
         };
 
-- 
2.43.0


From f440fce881683d1e28969ff3d35afd24a41d847d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:05:14 +0000
Subject: [PATCH 10/32] fix: object arrays are initialized with the object
 behind a global reference

---
 src/jnivm/internal/array.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/jnivm/internal/array.cpp b/src/jnivm/internal/array.cpp
index bc05375..0cf40c5 100644
--- a/src/jnivm/internal/array.cpp
+++ b/src/jnivm/internal/array.cpp
@@ -15,8 +15,9 @@ jobjectArray jnivm::NewObjectArray(JNIEnv * env, jsize length, jclass c, jobject
     auto arr = cl->InstantiateArray ? cl->InstantiateArray(ENV::FromJNIEnv(env), length) : std::make_shared<Array<Object>>(length);
     arr->clazz = std::move(cl);
     if(init) {
+        auto obj = JNITypes<std::shared_ptr<Object>>::JNICast(ENV::FromJNIEnv(env), init);
         for (jsize i = 0; i < length; i++) {
-            (*arr)[i] = (*(Object*)init).shared_from_this();
+            (*arr)[i] = obj;
         }
     }
     return JNITypes<std::shared_ptr<Array<Object>>>::ToJNIType(ENV::FromJNIEnv(env), arr);
-- 
2.43.0


From a97659ee381bf04228403613043fa48208f3270e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:03:40 +0000
Subject: [PATCH 11/32] fix: registering a native method again replaces its
 implementation

---
 src/jnivm/vm.cpp | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/src/jnivm/vm.cpp b/src/jnivm/vm.cpp
index e5f87c0..26c8e97 100644
--- a/src/jnivm/vm.cpp
+++ b/src/jnivm/vm.cpp
@@ -271,11 +271,19 @@ jint RegisterNatives(JNIEnv *env, jclass c, const JNINativeMethod *method, jint
 			ss << "Class \"" << clazz->nativeprefix << "\" registred native method: " << method->name << " signature: " << method->signature;
 			LOG("JNIVM", "%s", ss.str().data());
 #endif
-			auto m = std::make_shared<Method>();
-			m->name = method->name;
-			m->signature = method->signature;
-			m->native = method->fnPtr;
-			clazz->methods.push_back(m);
+			auto f = std::find_if(clazz->methods.begin(), clazz->methods.end(), [method](std::shared_ptr<Method>& m) {
+				return m->native && m->name == method->name && m->signature == method->signature;
+			});
+			if(f != clazz->methods.end()) {
+				// Registered again, the last registration wins
+				(*f)->native = method->fnPtr;
+			} else {
+				auto m = std::make_shared<Method>();
+				m->name = method->name;
+				m->signature = method->signature;
+				m->native = method->fnPtr;
+				clazz->methods.push_back(m);
+			}
 			method++;
 		}
 	}
-- 
2.43.0


From b64fcca23ea266be8eee93033063bc082839f014 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:05:00 +0000
Subject: [PATCH 12/32] fix: hooking a method does not attach to a native
 method of the same signature

---
 include/jnivm/hookManager.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/jnivm/hookManager.h b/include/jnivm/hookManager.h
index e489f96..5c2e2b6 100644
--- a/include/jnivm/hookManager.h
+++ b/include/jnivm/hookManager.h
@@ -49,7 +49,7 @@ namespace jnivm {
             auto ccl =
                     std::find_if(cl->methods.begin(), cl->methods.end(),
                                             [&id, &ssig](std::shared_ptr<Method> &m) {
-                                                return m->_static == isStatic && m->name == id && m->signature == ssig;
+                                                return !m->native && m->_static == isStatic && m->name == id && m->signature == ssig;
                                             });
             std::shared_ptr<Method> method;
             if (ccl != cl->methods.end()) {
@@ -70,7 +70,7 @@ namespace jnivm {
             auto ccl =
                     std::find_if(cl->methods.begin(), cl->methods.end(),
                                             [&id, &ssig](std::shared_ptr<Method> &m) {
-                                                return m->_static == isStatic && m->name == id && m->signature == ssig;
+                                                return !m->native && m->_static == isStatic && m->name == id && m->signature == ssig;
                                             });
             std::shared_ptr<Method> method;
             if (ccl != cl->methods.end()) {
-- 
2.43.0


From bc694d5d2179cafdf763bbd3acd9bad83a6eb9bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:10:33 +0000
Subject: [PATCH 13/32] fix: guard the class table and the environments by the
 VM lock on every path

---
 include/jnivm/env.h              |  2 +-
 include/jnivm/jnitypes.h         |  2 +-
 include/jnivm/vm.h               |  3 ++-
 src/jnivm/internal/findclass.cpp |  1 +
 src/jnivm/internal/method.cpp    |  2 +-
 src/jnivm/vm.cpp                 | 17 +++++++++--------
 6 files changed, 15 insertions(+), 12 deletions(-)

diff --git a/include/jnivm/env.h b/include/jnivm/env.h
index 5505207..aadb914 100644
--- a/include/jnivm/env.h
+++ b/include/jnivm/env.h
@@ -85,7 +85,7 @@ namespace jnivm {
 }
 
 template<class T> std::shared_ptr<jnivm::Class> jnivm::ENV::GetClass(const char *name) {
-    std::lock_guard<std::mutex> lock(vm->mtx);
+    std::lock_guard<std::recursive_mutex> lock(vm->mtx);
     auto& c = vm->typecheck[typeid(T)] = GetClass(name);
     c->Instantiate = jnivm::Factory<T>::CreateLambda();
     IsClass<T>::AddInherience(c, this);
diff --git a/include/jnivm/jnitypes.h b/include/jnivm/jnitypes.h
index 473101e..0eb2c39 100644
--- a/include/jnivm/jnitypes.h
+++ b/include/jnivm/jnitypes.h
@@ -274,7 +274,7 @@ template<class T> struct ClassName<T, true> {
 #include "env.h"
 
 template<class T, class B, class orgtype> std::string jnivm::JNITypesObjectBase<T, B, orgtype>::GetJNISignature(jnivm::ENV *env){
-    std::lock_guard<std::mutex> lock(env->GetVM()->mtx);
+    std::lock_guard<std::recursive_mutex> lock(env->GetVM()->mtx);
     auto r = env->GetVM()->typecheck.find(typeid(T));
     if(r != env->GetVM()->typecheck.end()) {
         return "L" + r->second->nativeprefix + ";";
diff --git a/include/jnivm/vm.h b/include/jnivm/vm.h
index 0e8a3e3..d995188 100644
--- a/include/jnivm/vm.h
+++ b/include/jnivm/vm.h
@@ -60,7 +60,8 @@ namespace jnivm {
         // Map of all classes hooked or implicitly declared
         std::unordered_map<std::string, std::shared_ptr<Class>> classes;
 
-        std::mutex mtx;
+        // Recursive, guards the members below, the environments and the class table
+        std::recursive_mutex mtx;
         // Stores all global references
         std::vector<std::shared_ptr<Object>> globals;
         // Stores all classes by c++ typeid
diff --git a/src/jnivm/internal/findclass.cpp b/src/jnivm/internal/findclass.cpp
index d5d2cf1..7beae90 100644
--- a/src/jnivm/internal/findclass.cpp
+++ b/src/jnivm/internal/findclass.cpp
@@ -8,6 +8,7 @@ std::shared_ptr<jnivm::Class> jnivm::InternalFindClass(ENV *env, const char *nam
 	auto prefix = name;
 	auto && nenv = *env;
 	auto && vm = nenv.GetVM();
+	std::lock_guard<std::recursive_mutex> lock(vm->mtx);
 #ifdef JNI_TRACE
 	if(trace) {
 		LOG("JNIVM", "FindClass %s", name);
diff --git a/src/jnivm/internal/method.cpp b/src/jnivm/internal/method.cpp
index a83fd06..1cfee7a 100644
--- a/src/jnivm/internal/method.cpp
+++ b/src/jnivm/internal/method.cpp
@@ -131,7 +131,7 @@ template<> jobject jnivm::defaultVal(ENV* env, std::string signature) {
 #endif
                 return JNITypes<std::shared_ptr<Object>>::ToJNIReturnType(env, c->Instantiate(env));
             } else {
-                std::lock_guard<std::mutex> guard(env->GetVM()->mtx);
+                std::lock_guard<std::recursive_mutex> guard(env->GetVM()->mtx);
                 bool safetocreatedummy = true;
                 for(auto&& ty : env->GetVM()->typecheck) {
                     if(ty.second == c) {
diff --git a/src/jnivm/vm.cpp b/src/jnivm/vm.cpp
index 26c8e97..7977b1b 100644
--- a/src/jnivm/vm.cpp
+++ b/src/jnivm/vm.cpp
@@ -28,7 +28,7 @@ jclass DefineClass(JNIEnv *, const char *, jobject, const jbyte *, jsize) {
 template<bool returnZero=false>
 jclass FindClass(JNIEnv *env, const char *name) {
 	auto&& nenv = *ENV::FromJNIEnv(env);
-	std::lock_guard<std::mutex> lock(nenv.GetVM()->mtx);
+	std::lock_guard<std::recursive_mutex> lock(nenv.GetVM()->mtx);
 	return InternalFindClass(env, name, returnZero, true);
 };
 jmethodID FromReflectedMethod(JNIEnv *env, jobject obj) {
@@ -160,7 +160,7 @@ jobject NewGlobalRef(JNIEnv * env, std::shared_ptr<Object> obj) {
 	if(!obj) return nullptr;
 	auto&& nenv = *ENV::FromJNIEnv(env);
 	auto&& nvm = *nenv.GetVM();
-	std::lock_guard<std::mutex> guard{nvm.mtx};
+	std::lock_guard<std::recursive_mutex> guard{nvm.mtx};
 	nvm.globals.emplace_back(obj);
 #endif
 	return (jobject)obj.get();
@@ -180,7 +180,7 @@ void DeleteGlobalRef(JNIEnv * env, std::shared_ptr<Object> obj) {
 	if(!obj) return;
 	auto&& nenv = *ENV::FromJNIEnv(env);
 	auto&& nvm = *nenv.GetVM();
-	std::lock_guard<std::mutex> guard{nvm.mtx};
+	std::lock_guard<std::recursive_mutex> guard{nvm.mtx};
 	auto fe = nvm.globals.end();
 	auto f = std::find(nvm.globals.begin(), fe, obj);
 	if(f != fe) {
@@ -317,7 +317,7 @@ jint MonitorExit(JNIEnv *env, jobject o) {
 
 jint GetJavaVM(JNIEnv * env, JavaVM ** vm) {
 	if(vm) {
-		std::lock_guard<std::mutex> lock((ENV::FromJNIEnv(env))->GetVM()->mtx);
+		std::lock_guard<std::recursive_mutex> lock((ENV::FromJNIEnv(env))->GetVM()->mtx);
 		*vm = (ENV::FromJNIEnv(env))->GetVM()->GetJavaVM();
 	}
 	return 0;
@@ -481,7 +481,7 @@ jnivm::VM::VM(bool skipInit, bool ReturnNull) : ninterface(ReturnNull ? GetNativ
 			[](JavaVM *vm, JNIEnv **penv, void * args) -> jint {
 #ifdef EnableJNIVMGC
 				auto&& nvm = *VM::FromJavaVM(vm);
-				std::lock_guard<std::mutex> lock(nvm.mtx);
+				std::lock_guard<std::recursive_mutex> lock(nvm.mtx);
 				auto&& nenv = nvm.jnienvs[pthread_self()];
 				if(!nenv) {
 					nenv = nvm.CreateEnv();
@@ -491,7 +491,7 @@ jnivm::VM::VM(bool skipInit, bool ReturnNull) : ninterface(ReturnNull ? GetNativ
 				}
 #else
 				if(penv) {
-					std::lock_guard<std::mutex> lock((VM::FromJavaVM(vm)))->mtx);
+					std::lock_guard<std::recursive_mutex> lock((VM::FromJavaVM(vm)))->mtx);
 					*penv = (VM::FromJavaVM(vm)))->GetJNIEnv();
 				}
 #endif
@@ -500,7 +500,7 @@ jnivm::VM::VM(bool skipInit, bool ReturnNull) : ninterface(ReturnNull ? GetNativ
 			[](JavaVM *vm) -> jint {
 #ifdef EnableJNIVMGC
 				auto&& nvm = *VM::FromJavaVM(vm);
-				std::lock_guard<std::mutex> lock(nvm.mtx);
+				std::lock_guard<std::recursive_mutex> lock(nvm.mtx);
 				auto fe = nvm.jnienvs.end();
 				auto f = nvm.jnienvs.find(pthread_self());
 				if(f != fe) {
@@ -514,7 +514,7 @@ jnivm::VM::VM(bool skipInit, bool ReturnNull) : ninterface(ReturnNull ? GetNativ
 #ifdef EnableJNIVMGC
 					return vm->AttachCurrentThread((JNIEnv**)penv, nullptr);
 #else
-					std::lock_guard<std::mutex> lock((VM::FromJavaVM(vm)))->mtx);
+					std::lock_guard<std::recursive_mutex> lock((VM::FromJavaVM(vm)))->mtx);
 					*penv = (VM::FromJavaVM(vm)))->GetJNIEnv();
 #endif
 				}
@@ -557,6 +557,7 @@ JNIEnv *VM::GetJNIEnv() {
 }
 
 const std::shared_ptr<ENV>& VM::GetEnv() {
+	std::lock_guard<std::recursive_mutex> lock(mtx);
 #ifdef EnableJNIVMGC
 	return jnienvs[pthread_self()];
 #else
-- 
2.43.0


From d57d8be77c30c4a4c11ab408f6861d912e8131a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:12:16 +0000
Subject: [PATCH 14/32] fix: threads looking up the same method receive the
 same id

---
 src/jnivm/internal/method.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/jnivm/internal/method.cpp b/src/jnivm/internal/method.cpp
index 1cfee7a..a3447ce 100644
--- a/src/jnivm/internal/method.cpp
+++ b/src/jnivm/internal/method.cpp
@@ -10,6 +10,8 @@ jmethodID jnivm::GetMethodID(JNIEnv *env, jclass cl, const char *str0, const cha
     std::string sname = str0 ? str0 : "";
     std::string ssig = str1 ? str1 : "";
     auto cur = JNITypes<std::shared_ptr<Class>>::JNICast(ENV::FromJNIEnv(env), cl);
+    // Looking up and adding a missing method is one step, ids are unique
+    std::unique_lock<std::mutex> lock;
     if(cur) {
         // Rewrite init to Static external function
         if(!isStatic && sname == "<init>") {
@@ -24,7 +26,7 @@ jmethodID jnivm::GetMethodID(JNIEnv *env, jclass cl, const char *str0, const cha
             return GetMethodID<true, ReturnNull, AllowNative, trace>(env, cl, str0, ssig.data());
         }
         else {
-            std::lock_guard<std::mutex> lock(cur->mtx);
+            lock = std::unique_lock<std::mutex>(cur->mtx);
             std::string &classname = cur->name;
             auto ccl =
                     std::find_if(cur->methods.begin(), cur->methods.end(),
@@ -166,6 +168,7 @@ template<> jobject jnivm::defaultVal(ENV* env, std::string signature) {
 }
 
 static Method* findOverload(jnivm::ENV *env, Class*cl, Method*mid) {
+    std::lock_guard<std::mutex> lock(cl->mtx);
     auto res = std::find_if(cl->methods.begin(), cl->methods.end(), [mid](auto&& m) {
         return !m->_static && mid->name == m->name && mid->signature == m->signature && m->nativehandle;
     });
-- 
2.43.0


From fa366e4937c6d519eb55c532eadc94f152d526a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:23:58 +0000
Subject: [PATCH 15/32] fix: threads converting the same object for the first
 time do not race on its class

---
 include/jnivm/jnitypes.h | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/include/jnivm/jnitypes.h b/include/jnivm/jnitypes.h
index 0eb2c39..c00b6f2 100644
--- a/include/jnivm/jnitypes.h
+++ b/include/jnivm/jnitypes.h
@@ -300,9 +300,12 @@ template<class T, class B, class orgtype> template<class Y> B jnivm::JNITypesObj
     
     std::shared_ptr<Object> obj(p, p.get());
     if(obj) {
-        auto clazz = obj->clazz.lock();
-        if(!clazz) {
-            obj->clazz = JNITypesObjectBase<Y, B>::GetClass(env);
+        {
+            // Threads may see the same object for the first time
+            std::lock_guard<std::recursive_mutex> lock(env->GetVM()->mtx);
+            if(obj->clazz.expired()) {
+                obj->clazz = JNITypesObjectBase<Y, B>::GetClass(env);
+            }
         }
         auto ref = (B)obj.get();
         env->localframe.front().push_back(std::move(obj));
-- 
2.43.0


From 81191f98658fb2f9696b8e42926fedc59e44a61f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:33:48 +0000
Subject: [PATCH 16/32] fix: reflected methods and fields lead back to their
 ids

---
 src/jnivm/vm.cpp | 18 ++++++------------
 1 file changed, 6 insertions(+), 12 deletions(-)

diff --git a/src/jnivm/vm.cpp b/src/jnivm/vm.cpp
index 7977b1b..d6166c0 100644
--- a/src/jnivm/vm.cpp
+++ b/src/jnivm/vm.cpp
@@ -32,23 +32,17 @@ jclass FindClass(JNIEnv *env, const char *name) {
 	return InternalFindClass(env, name, returnZero, true);
 };
 jmethodID FromReflectedMethod(JNIEnv *env, jobject obj) {
-	if(obj && env->functions->IsSameObject(env, env->functions->GetObjectClass(env, obj), FindClass(env, "java/lang/reflect/Method"))) {
-		return (jmethodID) obj;
-	} else {
-		return nullptr;
-	}
+	auto member = JNITypes<std::shared_ptr<Object>>::JNICast(ENV::FromJNIEnv(env), obj);
+	return (jmethodID) dynamic_cast<Method*>(member.get());
 };
 jfieldID FromReflectedField(JNIEnv *env, jobject obj) {
-	if(obj && env->functions->IsSameObject(env, env->functions->GetObjectClass(env, obj), FindClass(env, "java/lang/reflect/Field"))) {
-		return (jfieldID) obj;
-	} else {
-		return nullptr;
-	}
+	auto member = JNITypes<std::shared_ptr<Object>>::JNICast(ENV::FromJNIEnv(env), obj);
+	return (jfieldID) dynamic_cast<Field*>(member.get());
 };
 jobject ToReflectedMethod(JNIEnv * env, jclass c, jmethodID mid, jboolean isStatic) {
 	auto method = (Method*)mid;
 	if(c && method && method->_static == (bool)isStatic) {
-		return env->NewLocalRef((jobject) method);
+		return JNITypes<std::shared_ptr<Method>>::ToJNIType(ENV::FromJNIEnv(env), JNITypes<std::shared_ptr<Method>>::JNICast(ENV::FromJNIEnv(env), (jobject) method));
 	}
 	return 0;
 };
@@ -75,7 +69,7 @@ jboolean IsAssignableFrom(JNIEnv *env, jclass c1, jclass c2) {
 jobject ToReflectedField(JNIEnv * env, jclass c, jfieldID fid, jboolean isStatic) {
 	auto field = (Field*)fid;
 	if(c && field && field->_static == (bool)isStatic) {
-		return env->NewLocalRef((jobject) field);
+		return JNITypes<std::shared_ptr<Field>>::ToJNIType(ENV::FromJNIEnv(env), JNITypes<std::shared_ptr<Field>>::JNICast(ENV::FromJNIEnv(env), (jobject) field));
 	}
 	return 0;
 };
-- 
2.43.0


From 6a3ccc9a12f13b9f1058e38d4836276e5d30c162 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:37:47 +0000
Subject: [PATCH 17/32] fix: attaching an attached library does not initialize
 and finalize it again

---
 include/fake-jni/fake-jni.h | 3 +++
 src/fake-jni/fake-jni.cpp   | 9 ++++++++-
 2 files changed, 11 insertions(+), 1 deletion(-)

diff --git a/include/fake-jni/fake-jni.h b/include/fake-jni/fake-jni.h
index 54707e1..35dfa2c 100644
--- a/include/fake-jni/fake-jni.h
+++ b/include/fake-jni/fake-jni.h
@@ -64,6 +64,9 @@ namespace FakeJni {
         public:
             libinst(const std::string& rpath, JavaVM* javaVM, LibraryOptions loptions);
             ~libinst();
+            bool loaded() const {
+                return handle != nullptr;
+            }
         };
         std::unordered_map<std::string, std::unique_ptr<libinst>> libraries;
         // JNIInvokeInterface oldinterface;
diff --git a/src/fake-jni/fake-jni.cpp b/src/fake-jni/fake-jni.cpp
index a06bc77..d31cb12 100644
--- a/src/fake-jni/fake-jni.cpp
+++ b/src/fake-jni/fake-jni.cpp
@@ -88,7 +88,14 @@ FakeJni::Jvm::libinst::~libinst() {
 }
 
 void FakeJni::Jvm::attachLibrary(const std::string &rpath, const std::string &options, FakeJni::LibraryOptions loptions) {
-	libraries.insert({ rpath, std::make_unique<libinst>(rpath, this, loptions) });
+	// Don't initialize a library again, which is already attached
+	if(libraries.find(rpath) != libraries.end()) {
+		return;
+	}
+	auto lib = std::make_unique<libinst>(rpath, this, loptions);
+	if(lib->loaded()) {
+		libraries.insert({ rpath, std::move(lib) });
+	}
 }
 
 void FakeJni::Jvm::removeLibrary(const std::string &rpath, const std::string &options) {
-- 
2.43.0


From 3960dbf1eef30a7c705f0eed0ce1d85eb3d7735c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:44:24 +0000
Subject: [PATCH 18/32] fix: denied classes are not created by mentioning them
 or their nested classes

---
 include/baron/baron.h            | 2 +-
 include/jnivm/vm.h               | 5 +++++
 src/baron/jvm.cpp                | 9 ++++++++-
 src/jnivm/internal/findclass.cpp | 4 +++-
 src/jnivm/internal/method.cpp    | 9 ++++++++-
 5 files changed, 25 insertions(+), 4 deletions(-)

diff --git a/include/baron/baron.h b/include/baron/baron.h
index 6d7307f..76bc3e6 100644
--- a/include/baron/baron.h
+++ b/include/baron/baron.h
@@ -18,7 +18,7 @@ namespace Baron {
         Jvm(std::function<void(Jvm*)> setup);
         using jnivm::VM::AddHook;
         void printStatistics();
-        bool isClassDenied(const char * name) const;
+        bool isClassDenied(const char * name) const override;
         bool isMethodDenied(const char * name, const char * sig, const char * clazz = "") const;
         bool isFieldDenied(const char * name, const char * sig, const char * clazz = "") const;
         void denyClass(const char * name);
diff --git a/include/jnivm/vm.h b/include/jnivm/vm.h
index d995188..f2dc2a9 100644
--- a/include/jnivm/vm.h
+++ b/include/jnivm/vm.h
@@ -82,6 +82,11 @@ namespace jnivm {
 
         static VM* FromJavaVM(JavaVM * env);
 
+        // Override this, to avoid creating classes which are only mentioned by the (foreign) code
+        virtual bool isClassDenied(const char * name) const {
+            return false;
+        }
+
 #ifdef JNI_DEBUG
         // Dump all classes incl. function referenced or called from the (foreign) code
         // Namespace / Header Pre Declaration (no class body)
diff --git a/src/baron/jvm.cpp b/src/baron/jvm.cpp
index d933aee..74aff36 100644
--- a/src/baron/jvm.cpp
+++ b/src/baron/jvm.cpp
@@ -94,7 +94,14 @@ void Jvm::printStatistics() {
 }
 
 bool Baron::Jvm::isClassDenied(const char *name) const {
-    return denyClasses.find(name) != denyClasses.end();
+    std::string sname = name;
+    // Nested classes of a denied class are denied too, they would create it
+    for(auto pos = sname.find('$'); pos != std::string::npos; pos = sname.find('$', pos + 1)) {
+        if(denyClasses.find(sname.substr(0, pos)) != denyClasses.end()) {
+            return true;
+        }
+    }
+    return denyClasses.find(sname) != denyClasses.end();
 }
 
 bool Baron::Jvm::isMethodDenied(const char *name, const char *sig, const char *clazz) const {
diff --git a/src/jnivm/internal/findclass.cpp b/src/jnivm/internal/findclass.cpp
index 7beae90..f353d93 100644
--- a/src/jnivm/internal/findclass.cpp
+++ b/src/jnivm/internal/findclass.cpp
@@ -110,7 +110,9 @@ void jnivm::Declare(JNIEnv *env, const char *signature) {
 		if (*cur == 'L') {
 			auto cend = std::find(cur, end, ';');
 			std::string classpath(cur + 1, cend);
-			InternalFindClass(env, classpath.data());
+			if(!ENV::FromJNIEnv(env)->GetVM()->isClassDenied(classpath.data())) {
+				InternalFindClass(env, classpath.data());
+			}
 			if(cend == end) {
 				break;
 			}
diff --git a/src/jnivm/internal/method.cpp b/src/jnivm/internal/method.cpp
index a3447ce..46337d6 100644
--- a/src/jnivm/internal/method.cpp
+++ b/src/jnivm/internal/method.cpp
@@ -126,7 +126,14 @@ template<> jobject jnivm::defaultVal(ENV* env, std::string signature) {
             }
             
         } else if(signature[off + 1] == 'L' && signature[signature.size() - 1] == ';'){
-            auto c = env->GetClass(signature.substr(off + 2, signature.size() - (off + 3)).data());
+            auto name = signature.substr(off + 2, signature.size() - (off + 3));
+            auto c = InternalFindClass(env, name.data(), true);
+            if(!c) {
+                if(env->GetVM()->isClassDenied(name.data())) {
+                    return nullptr;
+                }
+                c = env->GetClass(name.data());
+            }
             if(c->Instantiate) {
 #ifdef JNI_TRACE
                 LOG("JNIVM", "Construct object=`%s` via default constructor", &signature.data()[off + 1]);
-- 
2.43.0


From 9451209d42b6aa106371a596e7836321e07bfee7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:44:31 +0000
Subject: [PATCH 19/32] fix: Baron answers lookups without a name like any
 other VM

---
 src/baron/jvm.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/baron/jvm.cpp b/src/baron/jvm.cpp
index 74aff36..93be5b0 100644
--- a/src/baron/jvm.cpp
+++ b/src/baron/jvm.cpp
@@ -105,7 +105,7 @@ bool Baron::Jvm::isClassDenied(const char *name) const {
 }
 
 bool Baron::Jvm::isMethodDenied(const char *name, const char *sig, const char *clazz) const {
-    auto results = { denyMethods.equal_range(""), denyMethods.equal_range(name) };
+    auto results = { denyMethods.equal_range(""), denyMethods.equal_range(name ? name : "") };
     for(auto && res : results) {
         for (auto i = res.first; i != res.second; ++i) {
             if(name && name[0] != '\0' && i->first != "" && i->first != name) {
@@ -123,7 +123,7 @@ bool Baron::Jvm::isMethodDenied(const char *name, const char *sig, const char *c
 }
 
 bool Baron::Jvm::isFieldDenied(const char *name, const char *sig, const char *clazz) const {
-    auto results = { denyFields.equal_range(""), denyFields.equal_range(name) };
+    auto results = { denyFields.equal_range(""), denyFields.equal_range(name ? name : "") };
     for(auto && res : results) {
         for (auto i = res.first; i != res.second; ++i) {
             if(name && name[0] != '\0' && i->first != "" && i->first != name) {
-- 
2.43.0


From 2218062fe39ea4f837074e7a47bd4724453dabf5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:50:53 +0000
Subject: [PATCH 20/32] fix: classes with native descriptors are registered on
 their first use, and only then

---
 include/fake-jni/fake-jni.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/fake-jni/fake-jni.h b/include/fake-jni/fake-jni.h
index 35dfa2c..48fdc16 100644
--- a/include/fake-jni/fake-jni.h
+++ b/include/fake-jni/fake-jni.h
@@ -265,8 +265,8 @@ namespace FakeJni {
                                             return getDescriptor();\
                                         }
 #define BEGIN_NATIVE_DESCRIPTOR(name, ...)  std::shared_ptr<jnivm::Class> name ::getDescriptor() {\
-                                                auto cl = jnivm::ENV::FromJNIEnv(&FakeJni::JniEnvContext().getJniEnv())->GetClass< name >( name ::getClassName().data());\
-                                                if(cl->methods.size() == 0 && cl->fields.size() == 0 && !cl->Instantiate && !cl->baseclasses) {\
+                                                auto cl = jnivm::ENV::FromJNIEnv(&FakeJni::JniEnvContext().getJniEnv())->GetClass( name ::getClassName().data());\
+                                                if(!cl->Instantiate && !cl->baseclasses) {\
                                                     registerClass();\
                                                 }\
                                                 return cl;\
-- 
2.43.0


From 91519a583ac8dc0579d43796133d12d0d87039aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:51:01 +0000
Subject: [PATCH 21/32] fix: createMainMethod works with VMs that do not make
 up classes

---
 src/fake-jni/fake-jni.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/fake-jni/fake-jni.cpp b/src/fake-jni/fake-jni.cpp
index d31cb12..d6320dc 100644
--- a/src/fake-jni/fake-jni.cpp
+++ b/src/fake-jni/fake-jni.cpp
@@ -189,12 +189,12 @@ jnivm::Class &jnivm::Object::getClass() {
 }
 
 void FakeJni::createMainMethod(FakeJni::Jvm &jvm, std::function<void (std::shared_ptr<FakeJni::JArray<FakeJni::JString>> args)>&& callback) {
-    std::shared_ptr<JClass> createMainMethod = jvm.findClass("fakejni/impl/createMainMethod");
+    std::shared_ptr<JClass> createMainMethod = jnivm::VM::FromJavaVM(&jvm)->GetEnv()->GetClass("fakejni/impl/createMainMethod");
     createMainMethod->Hook(jnivm::VM::FromJavaVM(&jvm)->GetEnv().get(), "main", std::move(callback));
 }
 
 void FakeJni::createMainMethod(FakeJni::Jvm &jvm, std::function<void (FakeJni::JArray<FakeJni::JString>* args)>&& callback) {
-    std::shared_ptr<JClass> createMainMethod = jvm.findClass("fakejni/impl/createMainMethod");
+    std::shared_ptr<JClass> createMainMethod = jnivm::VM::FromJavaVM(&jvm)->GetEnv()->GetClass("fakejni/impl/createMainMethod");
     createMainMethod->Hook(jnivm::VM::FromJavaVM(&jvm)->GetEnv().get(), "main", [callback](std::shared_ptr<FakeJni::JArray<FakeJni::JString>> args) {
         callback(args.get());
     });
-- 
2.43.0


From ca714cd819573c544fd963c4f5253c1f5ea1f49b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:52:11 +0000
Subject: [PATCH 22/32] fix: start skips classes that only have an instance
 method main

---
 include/jnivm/method.h    | 3 +++
 src/fake-jni/fake-jni.cpp | 3 ++-
 2 files changed, 5 insertions(+), 1 deletion(-)

diff --git a/include/jnivm/method.h b/include/jnivm/method.h
index 984272f..0405a7f 100644
--- a/include/jnivm/method.h
+++ b/include/jnivm/method.h
@@ -57,6 +57,9 @@ namespace jnivm {
         MethodProxy* operator->() {
             return this;
         }
+        bool isStatic() const {
+            return _static || _native;
+        }
         operator bool() const {
             return (bool)_member ^ (bool)_static || (bool)_native;
         }
diff --git a/src/fake-jni/fake-jni.cpp b/src/fake-jni/fake-jni.cpp
index d6320dc..da5516b 100644
--- a/src/fake-jni/fake-jni.cpp
+++ b/src/fake-jni/fake-jni.cpp
@@ -120,7 +120,8 @@ void FakeJni::Jvm::start(std::shared_ptr<FakeJni::JArray<FakeJni::JString>> args
 	for(auto&& c : classes) {
 		LocalFrame frame(*this);
 		auto main = c.second->getMethod("([Ljava/lang/String;)V", "main");
-		if(main != nullptr) {
+		// Skip classes, which only have an instance method
+		if(main.isStatic()) {
 			main->invoke(frame.getJniEnv(), c.second.get(), args);
 			return;
 		}
-- 
2.43.0


From 9f5a5123c51a0c10fb94100b95ca1ab7e403f661 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:21:05 +0000
Subject: [PATCH 23/32] fix: calls through an unimplemented method id reach the
 implementation of the object's class

---
 src/jnivm/internal/method.cpp | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/src/jnivm/internal/method.cpp b/src/jnivm/internal/method.cpp
index 46337d6..874f762 100644
--- a/src/jnivm/internal/method.cpp
+++ b/src/jnivm/internal/method.cpp
@@ -207,9 +207,12 @@ template<class T> T jnivm::MDispatchBase2<T>::CallMethod(JNIEnv *env, jobject ob
     if(!id)
         LOG("JNIVM", "CallMethod field is null");
 #endif
-    if (mid && mid->nativehandle) {
-        auto cl = JNITypes<std::shared_ptr<Class>>::JNICast(ENV::FromJNIEnv(env), env->GetObjectClass(obj));
+    auto cl = mid && obj ? JNITypes<std::shared_ptr<Class>>::JNICast(ENV::FromJNIEnv(env), env->GetObjectClass(obj)) : nullptr;
+    if (mid) {
+        // mid may be unimplemented itself, the class of the object decides
         mid = findOverloadOrDefault(ENV::FromJNIEnv(env), cl.get(), mid);
+    }
+    if (mid && mid->nativehandle) {
 #ifdef JNI_TRACE
         LOG("JNIVM", "Call Member Function Class=`%s` Method=`%s` Signature=`%s`", cl ? cl->nativeprefix.data() : "???", mid->name.data(), mid->signature.data());
 #endif
@@ -226,7 +229,6 @@ template<class T> T jnivm::MDispatchBase2<T>::CallMethod(JNIEnv *env, jobject ob
         }
     } else {
 #ifdef JNI_TRACE
-        auto cl = JNITypes<std::shared_ptr<Class>>::JNICast(ENV::FromJNIEnv(env), env->GetObjectClass(obj));
         LOG("JNIVM", "Call Unknown Member Function Class=`%s` Method=`%s` Signature=`%s`", cl ? cl->nativeprefix.data() : "???", mid ? mid->name.data() : "???", mid ? mid->signature.data() : "???");
 #endif
         return defaultVal<T>(ENV::FromJNIEnv(env), mid ? mid->signature : "");
@@ -269,12 +271,15 @@ template<class T> T jnivm::MDispatchBase2<T>::CallMethod(JNIEnv *env, jobject ob
     if(!id)
         LOG("JNIVM", "CallMethod field is null");
 #endif
+    auto clz = JNITypes<std::shared_ptr<Class>>::JNICast(ENV::FromJNIEnv(env), cl);
+    if (mid) {
+        // mid may be unimplemented itself, the named class decides
+        mid = findOverloadOrDefault(ENV::FromJNIEnv(env), clz.get(), mid);
+    }
     if (mid && mid->nativehandle) {
-        auto clz = JNITypes<std::shared_ptr<Class>>::JNICast(ENV::FromJNIEnv(env), cl); 
 #ifdef JNI_TRACE
         LOG("JNIVM", "Call NonVirtual Member Function Class=`%s` Method=`%s` Signature=`%s`", clz ? clz->nativeprefix.data() : "???", mid->name.data(), mid ? mid->signature.data() : "???");
 #endif
-        mid = findOverloadOrDefault(ENV::FromJNIEnv(env), clz.get(), mid);
         try {
             return static_cast<jnivm::impl::MethodHandleBase<T>*>(mid->nativehandle.get())->NonVirtualInstanceInvoke(ENV::FromJNIEnv(env), obj, param, jnivm::impl::MethodHandleBase<T>{});
         } catch (...) {
@@ -288,7 +293,6 @@ template<class T> T jnivm::MDispatchBase2<T>::CallMethod(JNIEnv *env, jobject ob
         }
     } else {
 #ifdef JNI_TRACE
-        auto clz = JNITypes<std::shared_ptr<Class>>::JNICast(ENV::FromJNIEnv(env), cl);
         LOG("JNIVM", "Call Unknown NonVirtual Member Function Class=`%s` Method=`%s` Signature=`%s`", clz ? clz->nativeprefix.data() : "???", mid ? mid->name.data() : "???", mid ? mid->signature.data() : "???");
 #endif
         return defaultVal<T>(ENV::FromJNIEnv(env), mid ? mid->signature : "");
-- 
2.43.0


From d0f65e4f9e3c963bd5ddad333c99072797774d58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:24:59 +0000
Subject: [PATCH 24/32] fix: implementations that are bound again while they
 run stay alive until they return

---
 src/jnivm/internal/field.cpp  | 6 ++++--
 src/jnivm/internal/method.cpp | 9 ++++++---
 2 files changed, 10 insertions(+), 5 deletions(-)

diff --git a/src/jnivm/internal/field.cpp b/src/jnivm/internal/field.cpp
index 42bdb12..0c9a1bd 100644
--- a/src/jnivm/internal/field.cpp
+++ b/src/jnivm/internal/field.cpp
@@ -135,7 +135,8 @@ template<bool RetNull, class T, class O> T jnivm::GetField(JNIEnv *env, O obj, j
         auto cl = Util::GetClass(ENV::FromJNIEnv(env), obj);
         LOG("JNIVM", "Invoked Field Getter Class=`%s` Field=`%s` Signature=`%s`", cl ? cl->nativeprefix.data() : "???", fid->name.data(), fid->type.data());
 #endif
-        return Caller<std::is_same<O, jclass>::value>::template Get<T>(fid->getnativehandle.get(), ENV::FromJNIEnv(env), Util::GetParam(ENV::FromJNIEnv(env), obj));
+        auto handle = fid->getnativehandle; // stays alive even if the field is bound again meanwhile
+        return Caller<std::is_same<O, jclass>::value>::template Get<T>(handle.get(), ENV::FromJNIEnv(env), Util::GetParam(ENV::FromJNIEnv(env), obj));
     } else {
 #ifdef JNI_TRACE
         auto cl = Util::GetClass(ENV::FromJNIEnv(env), obj);
@@ -164,7 +165,8 @@ template<class T, class O> void jnivm::SetField(JNIEnv *env, O obj, jfieldID id,
         jvalue val;
         memset(&val, 0, sizeof(val));
         memcpy(&val, &value, sizeof(T));
-        return Caller<std::is_same<O, jclass>::value>::template Set<T>(fid->setnativehandle.get(), ENV::FromJNIEnv(env), Util::GetParam(ENV::FromJNIEnv(env), obj), &val);
+        auto handle = fid->setnativehandle; // stays alive even if the field is bound again meanwhile
+        return Caller<std::is_same<O, jclass>::value>::template Set<T>(handle.get(), ENV::FromJNIEnv(env), Util::GetParam(ENV::FromJNIEnv(env), obj), &val);
     } else {
 #ifdef JNI_TRACE
         auto cl = Util::GetClass(ENV::FromJNIEnv(env), obj);
diff --git a/src/jnivm/internal/method.cpp b/src/jnivm/internal/method.cpp
index 874f762..a1af276 100644
--- a/src/jnivm/internal/method.cpp
+++ b/src/jnivm/internal/method.cpp
@@ -217,7 +217,8 @@ template<class T> T jnivm::MDispatchBase2<T>::CallMethod(JNIEnv *env, jobject ob
         LOG("JNIVM", "Call Member Function Class=`%s` Method=`%s` Signature=`%s`", cl ? cl->nativeprefix.data() : "???", mid->name.data(), mid->signature.data());
 #endif
         try {
-            return static_cast<jnivm::impl::MethodHandleBase<T>*>(mid->nativehandle.get())->InstanceInvoke(ENV::FromJNIEnv(env), obj, param, jnivm::impl::MethodHandleBase<T>{});
+            auto handle = mid->nativehandle; // stays alive even if the method is bound again meanwhile
+            return static_cast<jnivm::impl::MethodHandleBase<T>*>(handle.get())->InstanceInvoke(ENV::FromJNIEnv(env), obj, param, jnivm::impl::MethodHandleBase<T>{});
         } catch (...) {
             auto cur = std::make_shared<Throwable>();
             cur->except = std::current_exception();
@@ -281,7 +282,8 @@ template<class T> T jnivm::MDispatchBase2<T>::CallMethod(JNIEnv *env, jobject ob
         LOG("JNIVM", "Call NonVirtual Member Function Class=`%s` Method=`%s` Signature=`%s`", clz ? clz->nativeprefix.data() : "???", mid->name.data(), mid ? mid->signature.data() : "???");
 #endif
         try {
-            return static_cast<jnivm::impl::MethodHandleBase<T>*>(mid->nativehandle.get())->NonVirtualInstanceInvoke(ENV::FromJNIEnv(env), obj, param, jnivm::impl::MethodHandleBase<T>{});
+            auto handle = mid->nativehandle; // stays alive even if the method is bound again meanwhile
+            return static_cast<jnivm::impl::MethodHandleBase<T>*>(handle.get())->NonVirtualInstanceInvoke(ENV::FromJNIEnv(env), obj, param, jnivm::impl::MethodHandleBase<T>{});
         } catch (...) {
             auto cur = std::make_shared<Throwable>();
             cur->except = std::current_exception();
@@ -313,7 +315,8 @@ template<class T> T jnivm::MDispatchBase2<T>::CallMethod(JNIEnv *env, jclass _cl
         LOG("JNIVM", "Call Static Function Class=`%s` Method=`%s` Signature=`%s`", cl ? cl->nativeprefix.data() : "???", mid->name.data(), mid ? mid->signature.data() : "???");
 #endif
         try {
-             return static_cast<jnivm::impl::MethodHandleBase<T>*>(mid->nativehandle.get())->StaticInvoke(ENV::FromJNIEnv(env), cl.get(), param, jnivm::impl::MethodHandleBase<T>{});
+            auto handle = mid->nativehandle; // stays alive even if the method is bound again meanwhile
+            return static_cast<jnivm::impl::MethodHandleBase<T>*>(handle.get())->StaticInvoke(ENV::FromJNIEnv(env), cl.get(), param, jnivm::impl::MethodHandleBase<T>{});
         } catch (...) {
             auto cur = std::make_shared<Throwable>();
             cur->except = std::current_exception();
-- 
2.43.0


From d03072614816abffd6c83e98ea3d4c3aa54b0c6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:30:53 +0000
Subject: [PATCH 25/32] fix: exceptions from field accessors become pending
 instead of unwinding into foreign code

---
 src/jnivm/internal/field.cpp | 22 ++++++++++++++++++++--
 1 file changed, 20 insertions(+), 2 deletions(-)

diff --git a/src/jnivm/internal/field.cpp b/src/jnivm/internal/field.cpp
index 0c9a1bd..bbb50e4 100644
--- a/src/jnivm/internal/field.cpp
+++ b/src/jnivm/internal/field.cpp
@@ -96,6 +96,15 @@ namespace Util {
     jobject GetParam(jnivm::ENV* env, jobject c) {
         return c;
     }
+    // Like exceptions of methods, they can not propagate into foreign code
+    static void SetException(JNIEnv* env) {
+        auto cur = std::make_shared<Throwable>();
+        cur->except = std::current_exception();
+        (ENV::FromJNIEnv(env))->current_exception = cur;
+#ifdef JNI_TRACE
+        env->ExceptionDescribe();
+#endif
+    }
 };
 
 template<bool> struct Caller {
@@ -136,7 +145,12 @@ template<bool RetNull, class T, class O> T jnivm::GetField(JNIEnv *env, O obj, j
         LOG("JNIVM", "Invoked Field Getter Class=`%s` Field=`%s` Signature=`%s`", cl ? cl->nativeprefix.data() : "???", fid->name.data(), fid->type.data());
 #endif
         auto handle = fid->getnativehandle; // stays alive even if the field is bound again meanwhile
-        return Caller<std::is_same<O, jclass>::value>::template Get<T>(handle.get(), ENV::FromJNIEnv(env), Util::GetParam(ENV::FromJNIEnv(env), obj));
+        try {
+            return Caller<std::is_same<O, jclass>::value>::template Get<T>(handle.get(), ENV::FromJNIEnv(env), Util::GetParam(ENV::FromJNIEnv(env), obj));
+        } catch (...) {
+            Util::SetException(env);
+            return defaultVal<T>(ENV::FromJNIEnv(env), fid->type);
+        }
     } else {
 #ifdef JNI_TRACE
         auto cl = Util::GetClass(ENV::FromJNIEnv(env), obj);
@@ -166,7 +180,11 @@ template<class T, class O> void jnivm::SetField(JNIEnv *env, O obj, jfieldID id,
         memset(&val, 0, sizeof(val));
         memcpy(&val, &value, sizeof(T));
         auto handle = fid->setnativehandle; // stays alive even if the field is bound again meanwhile
-        return Caller<std::is_same<O, jclass>::value>::template Set<T>(handle.get(), ENV::FromJNIEnv(env), Util::GetParam(ENV::FromJNIEnv(env), obj), &val);
+        try {
+            Caller<std::is_same<O, jclass>::value>::template Set<T>(handle.get(), ENV::FromJNIEnv(env), Util::GetParam(ENV::FromJNIEnv(env), obj), &val);
+        } catch (...) {
+            Util::SetException(env);
+        }
     } else {
 #ifdef JNI_TRACE
         auto cl = Util::GetClass(ENV::FromJNIEnv(env), obj);
-- 
2.43.0


From 46a6429f780797bb7e681a290e8682d3b17011ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:36:15 +0000
Subject: [PATCH 26/32] fix: objects get the class of their own type, not that
 of the C++ declaration they are first handed out by

---
 include/jnivm/jnitypes.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/jnivm/jnitypes.h b/include/jnivm/jnitypes.h
index c00b6f2..dab6454 100644
--- a/include/jnivm/jnitypes.h
+++ b/include/jnivm/jnitypes.h
@@ -304,7 +304,9 @@ template<class T, class B, class orgtype> template<class Y> B jnivm::JNITypesObj
             // Threads may see the same object for the first time
             std::lock_guard<std::recursive_mutex> lock(env->GetVM()->mtx);
             if(obj->clazz.expired()) {
-                obj->clazz = JNITypesObjectBase<Y, B>::GetClass(env);
+                // The object may be of a derived type
+                auto r = env->GetVM()->typecheck.find(typeid(*obj));
+                obj->clazz = r != env->GetVM()->typecheck.end() && r->second ? r->second : JNITypesObjectBase<Y, B>::GetClass(env);
             }
         }
         auto ref = (B)obj.get();
-- 
2.43.0


From d0110b054e07328b03cb0439cce6792a9a4cc0bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:40:01 +0000
Subject: [PATCH 27/32] fix: regions and indexes outside of arrays and strings
 raise exceptions instead of touching other memory

---
 src/jnivm/internal/array.cpp  | 58 ++++++++++++++++++++++++++++++++---
 src/jnivm/internal/pending.h  | 14 +++++++++
 src/jnivm/internal/string.cpp | 39 ++++++++++++++++-------
 3 files changed, 96 insertions(+), 15 deletions(-)
 create mode 100644 src/jnivm/internal/pending.h

diff --git a/src/jnivm/internal/array.cpp b/src/jnivm/internal/array.cpp
index 0cf40c5..6cefb7d 100644
--- a/src/jnivm/internal/array.cpp
+++ b/src/jnivm/internal/array.cpp
@@ -1,13 +1,36 @@
 #include <jnivm/class.h>
+#include <jnivm/throwable.h>
 #include <algorithm>
+#include <stdexcept>
 #include "array.hpp"
+#include "pending.h"
 
 using namespace jnivm;
 
+static bool CheckRegion(ENV *env, const Array<void> *a, jsize start, jsize len) {
+    jsize size = a ? a->getSize() : 0;
+    if(start < 0 || len < 0 || start > size || len > size - start) {
+        SetPendingException(env, std::make_exception_ptr(std::out_of_range("Array Index Out Of Bounds")));
+        return false;
+    }
+    return true;
+}
+
+static bool CheckLength(ENV *env, jsize length) {
+    if(length < 0) {
+        SetPendingException(env, std::make_exception_ptr(std::length_error("Negative Array Size")));
+        return false;
+    }
+    return true;
+}
+
 jsize jnivm::GetArrayLength(JNIEnv *env, jarray a) {
     return a ? JNITypes<std::shared_ptr<Array<void>>>::JNICast(ENV::FromJNIEnv(env), a)->getSize() : 0;
 }
 jobjectArray jnivm::NewObjectArray(JNIEnv * env, jsize length, jclass c, jobject init) {
+    if(!CheckLength(ENV::FromJNIEnv(env), length)) {
+        return nullptr;
+    }
     auto cl0 = JNITypes<std::shared_ptr<Class>>::JNICast(ENV::FromJNIEnv(env), c);
     auto classname = cl0->nativeprefix[0] == '[' ? "[" + cl0->nativeprefix : "[L" + cl0->nativeprefix + ";";
     auto cl = InternalFindClass(ENV::FromJNIEnv(env), classname.data());
@@ -16,20 +39,41 @@ jobjectArray jnivm::NewObjectArray(JNIEnv * env, jsize length, jclass c, jobject
     arr->clazz = std::move(cl);
     if(init) {
         auto obj = JNITypes<std::shared_ptr<Object>>::JNICast(ENV::FromJNIEnv(env), init);
-        for (jsize i = 0; i < length; i++) {
-            (*arr)[i] = obj;
+        try {
+            for (jsize i = 0; i < length; i++) {
+                (*arr)[i] = obj;
+            }
+        } catch (...) {
+            SetPendingException(ENV::FromJNIEnv(env), std::current_exception());
+            return nullptr;
         }
     }
     return JNITypes<std::shared_ptr<Array<Object>>>::ToJNIType(ENV::FromJNIEnv(env), arr);
 }
 jobject jnivm::GetObjectArrayElement(JNIEnv *env, jobjectArray a, jsize i ) {
-    return JNITypes<std::shared_ptr<Object>>::ToJNIType(ENV::FromJNIEnv(env), (std::shared_ptr<Object>) (*JNITypes<std::shared_ptr<Array<Object>>>::JNICast(ENV::FromJNIEnv(env), a))[i]);
+    auto ja = JNITypes<std::shared_ptr<Array<Object>>>::JNICast(ENV::FromJNIEnv(env), a);
+    if(!CheckRegion(ENV::FromJNIEnv(env), ja.get(), i, 1)) {
+        return nullptr;
+    }
+    return JNITypes<std::shared_ptr<Object>>::ToJNIType(ENV::FromJNIEnv(env), (std::shared_ptr<Object>) (*ja)[i]);
 }
 void jnivm::SetObjectArrayElement(JNIEnv *env, jobjectArray a, jsize i, jobject v) {
-    (*JNITypes<std::shared_ptr<Array<Object>>>::JNICast(ENV::FromJNIEnv(env), a))[i] = v ? JNITypes<std::shared_ptr<Object>>::JNICast(ENV::FromJNIEnv(env), v) : nullptr;
+    auto ja = JNITypes<std::shared_ptr<Array<Object>>>::JNICast(ENV::FromJNIEnv(env), a);
+    if(!CheckRegion(ENV::FromJNIEnv(env), ja.get(), i, 1)) {
+        return;
+    }
+    auto obj = v ? JNITypes<std::shared_ptr<Object>>::JNICast(ENV::FromJNIEnv(env), v) : nullptr;
+    try {
+        (*ja)[i] = obj;
+    } catch (...) {
+        SetPendingException(ENV::FromJNIEnv(env), std::current_exception());
+    }
 }
 
 template <class T> typename JNITypes<T>::Array jnivm::NewArray(JNIEnv * env, jsize length) {
+    if(!CheckLength(ENV::FromJNIEnv(env), length)) {
+        return nullptr;
+    }
     auto arr = std::make_shared<Array<T>>(length);
     std::fill_n(arr->getArray(), length, T());
     arr->clazz = InternalFindClass(ENV::FromJNIEnv(env), (std::string("[") + JNITypes<T>::GetJNISignature(ENV::FromJNIEnv(env))).data());
@@ -52,12 +96,18 @@ void jnivm::ReleaseArrayElements(JNIEnv *, typename JNITypes<T>::Array a, T *car
 template <class T>
 void jnivm::GetArrayRegion(JNIEnv *env, typename JNITypes<T>::Array a, jsize start, jsize len, T * buf) {
     auto ja = JNITypes<std::shared_ptr<Array<T>>>::JNICast(ENV::FromJNIEnv(env), a);
+    if(!CheckRegion(ENV::FromJNIEnv(env), ja.get(), start, len) || !len) {
+        return;
+    }
     memcpy(buf, ja->getArray() + start, sizeof(T)* len);
 }
 
 template <class T>
 void jnivm::SetArrayRegion(JNIEnv *env, typename JNITypes<T>::Array a, jsize start, jsize len, const T * buf) {
     auto ja = JNITypes<std::shared_ptr<Array<T>>>::JNICast(ENV::FromJNIEnv(env), a);
+    if(!CheckRegion(ENV::FromJNIEnv(env), ja.get(), start, len) || !len) {
+        return;
+    }
     memcpy(ja->getArray() + start, buf, sizeof(T)* len);
 }
 
diff --git a/src/jnivm/internal/pending.h b/src/jnivm/internal/pending.h
new file mode 100644
index 0000000..e58d23d
--- /dev/null
+++ b/src/jnivm/internal/pending.h
@@ -0,0 +1,14 @@
+#pragma once
+#include <jnivm/env.h>
+#include <jnivm/throwable.h>
+#include <exception>
+#include <memory>
+
+namespace jnivm {
+    // C++ exceptions can not propagate into foreign code, they become pending instead
+    inline void SetPendingException(ENV * env, std::exception_ptr except) {
+        auto th = std::make_shared<Throwable>();
+        th->except = std::move(except);
+        env->current_exception = std::move(th);
+    }
+}
diff --git a/src/jnivm/internal/string.cpp b/src/jnivm/internal/string.cpp
index 0504e7b..2c6d638 100644
--- a/src/jnivm/internal/string.cpp
+++ b/src/jnivm/internal/string.cpp
@@ -1,10 +1,30 @@
 #include <jnivm/class.h>
 #include "string.hpp"
 #include "stringUtil.h"
+#include "pending.h"
 #include <stdexcept>
 
 using namespace jnivm;
 
+// Finds a region that is completely inside the string
+static const char *FindRegion(ENV *env, const std::string *str, jsize start, jsize length) {
+    auto cur = str ? str->data() : "", end = cur + (str ? str->length() : 0);
+    auto skip = [&cur, end](jsize count) {
+        for(; count > 0 && cur != end; count--) {
+            cur += UTFToJCharLength(cur);
+        }
+        return count == 0;
+    };
+    if(skip(start)) {
+        auto begin = cur;
+        if(skip(length)) {
+            return begin;
+        }
+    }
+    SetPendingException(env, std::make_exception_ptr(std::out_of_range("String Index Out Of Bounds")));
+    return nullptr;
+}
+
 jstring jnivm::NewString(JNIEnv *env, const jchar * str, jsize size) {
     std::stringstream ss;
     char out[3];
@@ -75,12 +95,11 @@ void jnivm::ReleaseStringUTFChars(JNIEnv * env, jstring str, const char * cstr)
 
 void jnivm::GetStringRegion(JNIEnv *env, jstring str, jsize start, jsize length, jchar * buf) {
     std::shared_ptr<std::string> cstr = JNITypes<std::shared_ptr<String>>::JNICast(ENV::FromJNIEnv(env), str);
-    jchar* bend = buf + length;
-    auto cur = cstr->data(), end = cur + cstr->length();
-    while(start) {
-        cur += UTFToJCharLength(cur);
-        start--;
+    auto cur = FindRegion(ENV::FromJNIEnv(env), cstr.get(), start, length);
+    if(!cur) {
+        return;
     }
+    jchar* bend = buf + length;
     while(buf != bend) {
         int size;
         *buf = UTFToJChar(cur, size);
@@ -91,11 +110,9 @@ void jnivm::GetStringRegion(JNIEnv *env, jstring str, jsize start, jsize length,
 
 void jnivm::GetStringUTFRegion(JNIEnv *env, jstring str, jsize start, jsize len, char * buf) {
     std::shared_ptr<std::string> cstr = JNITypes<std::shared_ptr<String>>::JNICast(ENV::FromJNIEnv(env), str);
-    char * bend = buf + len;
-    auto cur = cstr->data(), end = cur + cstr->length();
-    while(start) {
-        cur += UTFToJCharLength(cur);
-        start--;
+    auto cur = FindRegion(ENV::FromJNIEnv(env), cstr.get(), start, len);
+    if(!cur) {
+        return;
     }
     while(len) {
         int size = UTFToJCharLength(cur);
@@ -105,4 +122,4 @@ void jnivm::GetStringUTFRegion(JNIEnv *env, jstring str, jsize start, jsize len,
         len--;
     }
     *buf = '\0';
-};
\ No newline at end of file
+};
-- 
2.43.0


From 09f57f4a3679b2a23a30cc7c612d9089296ccdb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:44:17 +0000
Subject: [PATCH 28/32] fix: copies of arrays have elements of their own

---
 include/jnivm/array.h | 83 +++++++++++++++++++++++++++++++++++++++++++
 1 file changed, 83 insertions(+)

diff --git a/include/jnivm/array.h b/include/jnivm/array.h
index d26015c..3a9a58f 100644
--- a/include/jnivm/array.h
+++ b/include/jnivm/array.h
@@ -1,6 +1,8 @@
 #pragma once
 #include "object.h"
+#include <algorithm>
 #include <cstring>
+#include <memory>
 #include <string>
 #include <vector>
 #include <stdexcept>
@@ -22,9 +24,17 @@ namespace jnivm {
         protected:
             Array() {}
             Array(void* data, jsize length) : data(data), length(length) {}
+            // Elements are copied by the arrays, which know their type
+            Array(const Array& other, void* data) : Object(other), data(data), length(other.length) {}
+            Array(const Array& other) = delete;
+            Array& operator=(const Array& other) = delete;
             void setArray(void* data) {
                 this->data = data;
             }
+            void setArray(void* data, jsize length) {
+                this->data = data;
+                this->length = length;
+            }
         public:
             using Type = void;
             inline void* getArray() {
@@ -45,8 +55,28 @@ namespace jnivm {
         class Array : public Array<void> {
         private:
             bool owner = true;
+            static T* Copy(const Array& other) {
+                if(!other.owner) {
+                    return const_cast<T*>(other.getArray());
+                }
+                auto data = new T[other.getSize()];
+                std::copy_n(other.getArray(), other.getSize(), data);
+                return data;
+            }
         public:
             using Type = T;
+            Array(const Array& other) : Array<void>(other, Copy(other)), owner(other.owner) {}
+            Array& operator=(const Array& other) {
+                if(this != &other) {
+                    auto data = Copy(other);
+                    if(owner) {
+                        delete[] getArray();
+                    }
+                    setArray(data, other.getSize());
+                    owner = other.owner;
+                }
+                return *this;
+            }
             Array(jsize length) : Array<void>(new T[length], length) {}
             Array() : Array<void>(nullptr, 0) {
                 owner = false;
@@ -173,8 +203,35 @@ namespace jnivm {
             virtual void Set(jint i, const std::shared_ptr<Object>& val) {
                 ((std::shared_ptr<Object>*) getArray())[i] = val;
             }
+        protected:
+            // Replaces the elements with null elements
+            virtual void Reset(jsize size) {
+                auto data = new std::shared_ptr<Object>[size];
+                delete[] (std::shared_ptr<Object>*) getArray();
+                setArray(data, size);
+            }
+        private:
+            static std::shared_ptr<Object>* Copy(const Array& other) {
+                auto data = new std::shared_ptr<Object>[other.getSize()];
+                for(jsize i = 0; i < other.getSize(); i++) {
+                    data[i] = other.Get(i, array_type_t<Object>{});
+                }
+                return data;
+            }
         public:
             Array() : Array<void>(nullptr, 0) {}
+            Array(const Array& other) : Array<void>(other, Copy(other)) {}
+            Array& operator=(const Array& other) {
+                if(this != &other) {
+                    std::unique_ptr<std::shared_ptr<Object>[]> data(Copy(other));
+                    jsize size = other.getSize();
+                    Reset(size);
+                    for(jsize i = 0; i < size; i++) {
+                        Set(i, data[i]);
+                    }
+                }
+                return *this;
+            }
             Array(jsize size) : Array<void>(new std::shared_ptr<Object>[size], size) {}
             inline Arrayguard<Object, false> operator[](jint i) {
                 return { *this, i };
@@ -199,7 +256,33 @@ namespace jnivm {
             virtual void Set(jint i, const std::shared_ptr<Y>& val) {
                 ((std::shared_ptr<Y>*) Array<void>::getArray())[i] = val;
             }
+        protected:
+            virtual void Reset(jsize size) override {
+                auto data = new std::shared_ptr<Y>[size];
+                delete[] (std::shared_ptr<Y>*) Array<void>::getArray();
+                Array<void>::setArray(data, size);
+            }
+        private:
+            static std::shared_ptr<Y>* Copy(const Array& other) {
+                auto data = new std::shared_ptr<Y>[other.getSize()];
+                for(jsize i = 0; i < other.getSize(); i++) {
+                    data[i] = other.Get(i, array_type_t<Y>{});
+                }
+                return data;
+            }
         public:
+            Array(const Array& other) : Array<void>(other, Copy(other)) {}
+            Array& operator=(const Array& other) {
+                if(this != &other) {
+                    std::unique_ptr<std::shared_ptr<Y>[]> data(Copy(other));
+                    jsize size = other.getSize();
+                    Reset(size);
+                    for(jsize i = 0; i < size; i++) {
+                        Set(i, data[i]);
+                    }
+                }
+                return *this;
+            }
             //using T = std::shared_ptr<Y>;
             //using Type = T;
             Array(jsize length) : Array<void>(new std::shared_ptr<Y>[length], length) {}
-- 
2.43.0


From 821482dae1f9b2419e41ebda4c1b60f45725438a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:45:40 +0000
Subject: [PATCH 29/32] fix: include <string> where maps with string keys are
 used

Without JNIVM_ENABLE_DEBUG nothing else included it before, so the library did not build.
---
 include/jnivm/class.h | 1 +
 include/jnivm/vm.h    | 1 +
 2 files changed, 2 insertions(+)

diff --git a/include/jnivm/class.h b/include/jnivm/class.h
index dd096c3..5bc2236 100644
--- a/include/jnivm/class.h
+++ b/include/jnivm/class.h
@@ -1,6 +1,7 @@
 #pragma once
 #include "object.h"
 #include <mutex>
+#include <string>
 #include <unordered_map>
 #include <vector>
 #include <functional>
diff --git a/include/jnivm/vm.h b/include/jnivm/vm.h
index f2dc2a9..287310b 100644
--- a/include/jnivm/vm.h
+++ b/include/jnivm/vm.h
@@ -1,6 +1,7 @@
 #ifndef JNIVM_VM_H_1
 #define JNIVM_VM_H_1
 #include <memory>
+#include <string>
 #include <mutex>
 #include <vector>
 #include <unordered_map>
-- 
2.43.0


From 4a28638f006a3a1bc2ebe238352993a67d2fb025 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:03:51 +0000
Subject: [PATCH 30/32] fix: keep a copy of callables passed as lvalues to
 Class::Hook

They were kept by reference, so a local callable or member pointer was
used after its lifetime ended.
---
 include/jnivm/class.h | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/include/jnivm/class.h b/include/jnivm/class.h
index 5bc2236..cbf7ebc 100644
--- a/include/jnivm/class.h
+++ b/include/jnivm/class.h
@@ -112,30 +112,30 @@ namespace jnivm {
     }
 
     template<class T> void Class::Hook(ENV* env, const std::string& id, T&& t) {
-        impl::HookManagerHelper2<T, Function<T>::type>::install(env, this, id, std::move(t));
+        impl::HookManagerHelper2<std::decay_t<T>, Function<std::decay_t<T>>::type>::install(env, this, id, std::decay_t<T>(std::forward<T>(t)));
     }
 
     template<class T> void Class::HookInstance(ENV * env, const std::string & id, T && t) {
-        impl::HookManagerHelper2<T, (FunctionType)((int)Function<T>::type | (int)FunctionType::Instance)>::install(env, this, id, std::move(t));
+        impl::HookManagerHelper2<std::decay_t<T>, (FunctionType)((int)Function<std::decay_t<T>>::type | (int)FunctionType::Instance)>::install(env, this, id, std::decay_t<T>(std::forward<T>(t)));
     }
 
     template<class T> void Class::HookInstanceFunction(ENV* env, const std::string& id, T&& t) {
-        impl::HookManagerHelper2<T, FunctionType::Instance>::install(env, this, id, std::move(t));
+        impl::HookManagerHelper2<std::decay_t<T>, FunctionType::Instance>::install(env, this, id, std::decay_t<T>(std::forward<T>(t)));
     }
 
     template<class T> void Class::HookInstanceGetterFunction(ENV* env, const std::string& id, T&& t) {
-        impl::HookManagerHelper2<T, FunctionType::InstanceGetter>::install(env, this, id, std::move(t));
+        impl::HookManagerHelper2<std::decay_t<T>, FunctionType::InstanceGetter>::install(env, this, id, std::decay_t<T>(std::forward<T>(t)));
     }
     template<class T> void Class::HookInstanceSetterFunction(ENV* env, const std::string& id, T&& t) {
-        impl::HookManagerHelper2<T, FunctionType::InstanceSetter>::install(env, this, id, std::move(t));
+        impl::HookManagerHelper2<std::decay_t<T>, FunctionType::InstanceSetter>::install(env, this, id, std::decay_t<T>(std::forward<T>(t)));
     }
     template<class T> void Class::HookGetterFunction(ENV* env, const std::string& id, T&& t) {
-        impl::HookManagerHelper2<T, FunctionType::Getter>::install(env, this, id, std::move(t));
+        impl::HookManagerHelper2<std::decay_t<T>, FunctionType::Getter>::install(env, this, id, std::decay_t<T>(std::forward<T>(t)));
     }
     template<class T> void Class::HookSetterFunction(ENV* env, const std::string& id, T&& t) {
-        impl::HookManagerHelper2<T, FunctionType::Setter>::install(env, this, id, std::move(t));
+        impl::HookManagerHelper2<std::decay_t<T>, FunctionType::Setter>::install(env, this, id, std::decay_t<T>(std::forward<T>(t)));
     }
     template<class T> void jnivm::Class::HookInstanceProperty(jnivm::ENV *env, const std::string &id, T &&t) {
-        impl::HookManagerHelper2<T, FunctionType::InstanceProperty>::install(env, this, id, std::move(t));
+        impl::HookManagerHelper2<std::decay_t<T>, FunctionType::InstanceProperty>::install(env, this, id, std::decay_t<T>(std::forward<T>(t)));
     }
 }
\ No newline at end of file
-- 
2.43.0


From 44c7140127833cc0052f9af7befef658a3546964 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:38:00 +0000
Subject: [PATCH 31/32] fix: attaching and removing libraries from entry points
 of libraries

A library is known as attached only after its JNI_OnLoad returned, hence
it was loaded again if this function attached it, directly or through
another library. Destroying the VM destroyed the map of libraries while
JNI_OnUnload functions could still use it.
---
 include/fake-jni/fake-jni.h |  1 +
 src/fake-jni/fake-jni.cpp   | 24 ++++++++++++++++++++----
 2 files changed, 21 insertions(+), 4 deletions(-)

diff --git a/include/fake-jni/fake-jni.h b/include/fake-jni/fake-jni.h
index 48fdc16..fc21460 100644
--- a/include/fake-jni/fake-jni.h
+++ b/include/fake-jni/fake-jni.h
@@ -75,6 +75,7 @@ namespace FakeJni {
         Jvm(bool skipInit, bool returnNull);
     public:
         Jvm();
+        ~Jvm();
 
         // compatibility stub
         void registerDefaultSignalHandler() {}
diff --git a/src/fake-jni/fake-jni.cpp b/src/fake-jni/fake-jni.cpp
index da5516b..d3b51c0 100644
--- a/src/fake-jni/fake-jni.cpp
+++ b/src/fake-jni/fake-jni.cpp
@@ -88,13 +88,21 @@ FakeJni::Jvm::libinst::~libinst() {
 }
 
 void FakeJni::Jvm::attachLibrary(const std::string &rpath, const std::string &options, FakeJni::LibraryOptions loptions) {
-	// Don't initialize a library again, which is already attached
-	if(libraries.find(rpath) != libraries.end()) {
+	// Don't initialize a library again, which is already attached or is just being attached
+	if(!libraries.insert({ rpath, nullptr }).second) {
 		return;
 	}
-	auto lib = std::make_unique<libinst>(rpath, this, loptions);
+	std::unique_ptr<libinst> lib;
+	try {
+		lib = std::make_unique<libinst>(rpath, this, loptions);
+	} catch(...) {
+		libraries.erase(rpath);
+		throw;
+	}
 	if(lib->loaded()) {
-		libraries.insert({ rpath, std::move(lib) });
+		libraries[rpath] = std::move(lib);
+	} else {
+		libraries.erase(rpath);
 	}
 }
 
@@ -102,6 +110,14 @@ void FakeJni::Jvm::removeLibrary(const std::string &rpath, const std::string &op
 	libraries.erase(rpath);
 }
 
+// JNI_OnUnload may attach or remove libraries
+FakeJni::Jvm::~Jvm() {
+	while(!libraries.empty()) {
+		auto lib = std::move(libraries.begin()->second);
+		libraries.erase(libraries.begin());
+	}
+}
+
 std::shared_ptr<FakeJni::JObject> FakeJni::Env::resolveReference(jobject obj) {
     return jnivm::JNITypes<std::shared_ptr<JObject>>::JNICast(this, obj);
 }
-- 
2.43.0


From 6ead209f97b87fa84efd678a2a582b900d9d9e13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:10:07 +0000
Subject: [PATCH 32/32] fix: unknown methods that return boolean[] yield an
 empty array, too

With JNI_RETURN_NON_ZERO unknown methods return an empty array for every
primitive element type but boolean.
---
 src/jnivm/internal/method.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/jnivm/internal/method.cpp b/src/jnivm/internal/method.cpp
index a1af276..a9394cb 100644
--- a/src/jnivm/internal/method.cpp
+++ b/src/jnivm/internal/method.cpp
@@ -101,6 +101,8 @@ template<> jobject jnivm::defaultVal(ENV* env, std::string signature) {
 #endif
             switch (signature[off + 2])
             {
+            case 'Z':
+                return env->GetJNIEnv()->NewBooleanArray(0);
             case 'B':
                 return env->GetJNIEnv()->NewByteArray(0);
             case 'S':
-- 
2.43.0

