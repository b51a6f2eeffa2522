"""The properties: one entry per property; tools/gen.py writes properties.jsonl, MANIFEST.json and the table of DESIGN.md from it."""
PROPS = []
def P(id, title, statement, over, qtext, why, files, mechanism, bounds, outside="", assumptions=(), how=""):
    PROPS.append(dict(id=id, title=title, statement=statement, over=over, qtext=qtext, why=why, files=files, mechanism=mechanism,
                      bounds=bounds, outside=outside, assumptions=list(assumptions), how=how))

P("C01", "Strings survive every conversion between their two encodings",
  "A string made from any sequence of 16-bit units, NUL and unpaired surrogates included, reports that length and gives back exactly those units through every reading function, and its modified UTF-8 form decodes to the same string again. The UTF-8 length, the UTF-8 bytes and UTF-8 regions agree with each other and with the standard modified UTF-8 encoding. UTF-8 forms are NUL-terminated, UTF-16 copies are released without leaking, and later strings never change the content of earlier ones.",
  ["inputs"], "every string of up to N arbitrary 16-bit units, every region of it, every reading function",
  "The tests convert a handful of fixed texts; the interesting strings (NUL, lone or swapped surrogates, boundaries of the encoding ranges, partial regions) are rare among 65536^N.",
  ["src/jnivm/internal/string.cpp", "src/jnivm/internal/stringUtil.cpp", "include/jnivm/string.h"],
  [("encoding and decoding of modified UTF-8", "src/jnivm/internal/stringUtil.cpp"), ("JNI string functions", "src/jnivm/internal/string.cpp")],
  "strings of 0..3 arbitrary 16-bit units (quick), 0..4 (thorough); every start/length of regions inside the string",
  "longer strings (the coder works unit by unit without state beyond a surrogate pair); allocation failure")
P("C02", "Any byte sequence can be made into a string without memory errors",
  "Making a string from any NUL-terminated byte sequence, well-formed or not, and then reading it through any function touches only memory that belongs to the input, the string or the caller's buffer. Lengths, characters and regions reported for such a string agree with each other. Regions outside the string are refused without writing anything.",
  ["inputs"], "every byte sequence of up to N bytes before the terminator, every region",
  "Truncated and ill-formed sequences at the end of the input are absent from the tests, and an over-read by one or two bytes does not fail a test.",
  ["src/jnivm/internal/string.cpp", "src/jnivm/internal/stringUtil.cpp"],
  [("decoder that steps by lead byte", "src/jnivm/internal/stringUtil.cpp"), ("range checks of region functions", "src/jnivm/internal/string.cpp")],
  "byte sequences of 0..3 arbitrary bytes (quick), 0..5 (thorough); arbitrary 32-bit region start and length",
  "longer inputs; null pointers for the text")
P("C03", "Arguments and results of calls travel unchanged in every call form",
  "A method implemented in C++ receives exactly the receiver and the argument values native code passed, and native code gets back exactly the value it returned. This holds for all primitive and reference types, for static, virtual, non-virtual and constructor calls, and equally for the variadic, argument-list and argument-array forms.",
  ["inputs"], "all argument values of all types, all call kinds, all three ways of passing arguments",
  "The tests pass a few small constants; sign extension, promotion of small types, 64-bit and floating point bit patterns and mixed orders are left out.",
  ["src/jnivm/internal/method.cpp", "src/jnivm/internal/jValuesfromValist.cpp", "include/jnivm/wrap.h", "include/jnivm/jnitypes.h"],
  [("unpacking of variadic arguments by descriptor", "src/jnivm/internal/jValuesfromValist.cpp"), ("call dispatch per type", "src/jnivm/internal/method.cpp"), ("adapters around bound callables", "include/jnivm/wrap.h")],
  "all 2^8..2^64 values of every parameter, narrow ones passed as any int; parameter lists of up to twenty parameters mixing all types",
  "arguments whose count or type contradicts the descriptor; NaN payload bits of float, which the C variadic promotion may quiet",
  ["the System V x86-64 calling convention for variadic calls, as clang lowers it"])
P("C04", "Descriptors are parsed without memory errors and according to their grammar",
  "Looking up or declaring a method or field with any descriptor text, well-formed or not, never reads outside that text or crashes. A well-formed descriptor is split into exactly its parameter and return types, for calls as well as for generated declarations, and declares exactly the classes it names.",
  ["inputs"], "every descriptor text of up to N arbitrary characters, and generated well-formed descriptors",
  "Descriptors come from the foreign code being run; the tests only use well-formed ones.",
  ["src/jnivm/internal/skipJNIType.cpp", "src/jnivm/internal/jValuesfromValist.cpp", "src/jnivm/internal/findclass.cpp", "src/jnivm/internal/codegen"],
  [("type skipper", "src/jnivm/internal/skipJNIType.cpp"), ("declaration of referenced classes", "src/jnivm/internal/findclass.cpp"), ("printing of types", "src/jnivm/internal/codegen")],
  "descriptors of up to 4 (quick) / 6 (thorough) characters drawn from the significant characters of the grammar and one other; class names of up to 5 / 7 characters in four well-formed descriptors",
  "longer descriptors; null descriptors are part of C08")
P("C05", "A call runs the implementation of the receiver's class or its nearest ancestor",
  "A virtual call runs the implementation of the object's own class if it has one, otherwise the nearest inherited one, searching bases in declared order. A non-virtual call does the same starting from the class named in the call. Static methods of the same name and signature never take part. The id called through need not have an implementation itself.",
  ["inputs", "configurations"], "every subset (also none) of a hierarchy of five classes with two inheritance paths implementing the method, every object class, every class the method was looked up on",
  "The tests override once in a two-level hierarchy; which level wins depends on combinations of definitions.",
  ["src/jnivm/internal/method.cpp", "include/jnivm/extends.h"],
  [("overload search", "src/jnivm/internal/method.cpp"), ("declared bases", "include/jnivm/extends.h")],
  "hierarchy of four levels with an additional second base; all 32 placements of implementations, ids without an implementation of their own included",
  "deeper hierarchies; more than two bases")
P("C06", "Class lookup is consistent: one class per name",
  "Looking up the same class name always yields the same class, and different names always yield different classes, whatever the names contain and in whichever order they are first seen. In lookup-only mode exactly the registered classes are found and a failed lookup creates nothing.",
  ["inputs", "histories"], "all pairs of names of up to N characters over the significant characters, in every order of first use",
  "Names with nested and package separators in unusual places share storage in the name tree; the tests use a few regular names.",
  ["src/jnivm/internal/findclass.cpp", "src/jnivm/internal/codegen/namespace.cpp", "include/jnivm/vm.h"],
  [("name table and name tree", "src/jnivm/internal/findclass.cpp")],
  "names of up to 2 (quick) / 3 (thorough) characters over letters, '/', '$', '[', ';' and digits",
  "longer names; null names; control characters")
P("C07", "Member lookup is stable, exact and respects inheritance",
  "Looking up the same member of the same class twice yields the same id; two members that differ in name, signature or staticness have different ids. An own member is preferred over inherited ones, an inherited member is found by its declaring class's id, and a constructor is found only in its own class. Lookup-only mode finds exactly what exists and declares nothing.",
  ["inputs", "histories"], "all combinations of where a member is defined in a hierarchy, of the kind of member, of the name and signature looked up, and of the mode",
  "Tests look up members that exist once; confusions need a same-named member with another signature, staticness or level.",
  ["src/jnivm/internal/method.cpp", "src/jnivm/internal/field.cpp"],
  [("member search with fall-back to bases and fabrication", "src/jnivm/internal/method.cpp"), ("field search", "src/jnivm/internal/field.cpp")],
  "three-level hierarchy, two names, two signatures, static and instance methods and fields, constructors with two signatures in three classes; pairs of arbitrary names of up to 1 (quick) / 2 (thorough) characters with types that extend or prefix each other",
  "longer histories of lookups")
P("C08", "Unknown members and null arguments are harmless",
  "Calling a method or using a field that nothing implements, or that was looked up on no class, or on a null receiver, or through a null id, does nothing but yield zero: null or, where configured, an empty object of exactly the declared type. It never crashes, raises nothing and changes nothing else.",
  ["inputs", "configurations"], "all types, call kinds, call forms, fabricating and lookup-only mode, both settings of fabricated results",
  "Foreign code probes many members that do not exist; tests cover a few types and one configuration.",
  ["src/jnivm/internal/method.cpp", "src/jnivm/internal/field.cpp"],
  [("default values by signature", "src/jnivm/internal/method.cpp"), ("guards on ids and receivers", "src/jnivm/internal/field.cpp")],
  "all call forms and kinds for all ten result types, sixteen declared object and array types",
  "null class references in functions that describe a class, null environments")
P("C09", "Fields read back what was written to them, and nothing else changes",
  "Reading a field through the interface yields the value last written, through the interface or from C++, for every type, static or instance, direct or inherited, and for accessor functions exactly what they return. A write reaches only the named field of the named object. References are kept alive by a field and released when it is overwritten.",
  ["inputs", "histories"], "all values of all types, own and inherited, static and instance, variable- and function-backed fields",
  "Tests write one constant to a few fields; truncation, swapped accessors and aliasing between objects need other values and second objects.",
  ["src/jnivm/internal/field.cpp", "include/jnivm/hookManager.h", "include/jnivm/wrap.h"],
  [("field access per type", "src/jnivm/internal/field.cpp"), ("adapters around bound variables and accessors", "include/jnivm/wrap.h")],
  "all values of every primitive type; object, string and array fields; two objects and two fields, and fields of one name and other types",
  "accessor functions that throw")
P("C10", "Exceptions become pending, stay pending until cleared and keep their identity",
  "Any C++ exception thrown by a method, constructor or field accessor implementation becomes the pending exception of the calling thread and a call yields zero; objects thrown through the interface, by any kind of reference, become pending as themselves. The pending exception can be tested, obtained and described without changing it, is replaced by a newer one and gone after clearing. The original C++ exception is preserved, and a cleared exception object is released.",
  ["histories", "inputs"], "every history of N operations (throwing by different means, calls that may throw, clearing, inspecting, frames) and every result type, call kind and call form",
  "The tests throw and clear once each with one exception type; stale or lost exceptions need sequences.",
  ["src/jnivm/vm.cpp", "src/jnivm/internal/method.cpp", "include/jnivm/throwable.h"],
  [("capture of C++ exceptions around implementations", "src/jnivm/internal/method.cpp"), ("pending exception of an environment", "src/jnivm/vm.cpp")],
  "histories of 3 (quick) / 4 (thorough) operations; every result type, kind and form for single calls; arbitrary thresholds and arguments",
  "throwing null; foreign (non-C++) exceptions")
P("C11", "Invoking a method object delivers arguments, result and exception",
  "Invoking a method object from C++ runs its implementation, bound or native, once with exactly the receiver and arguments given and returns exactly its result. If the method raises an exception, exactly that exception comes out of the invocation, nothing stays pending and later invocations are unaffected.",
  ["inputs", "histories"], "all argument values of all types, static and instance, bound and native implementations, every way of raising, two invocations in a row",
  "One test invokes one throwing method once; a stale exception shows only at the second call.",
  ["include/jnivm/method.h", "src/jnivm/method.cpp"],
  [("conversion of arguments and results", "src/jnivm/method.cpp"), ("rethrow of the pending exception", "include/jnivm/method.h")],
  "four-parameter methods of every primitive type plus object and void results; two consecutive invocations",
  "invocation while an exception is already pending; native implementations that throw C++ exceptions")
P("C12", "Subtype queries agree with the declared inheritance",
  "One class is assignable to another exactly if it is that class or inherits from it through declared bases, and an object is an instance of exactly the classes its own class is assignable to. The superclass is the first declared base. None of this depends on the order in which classes were registered or first seen, or on the kind of reference used.",
  ["configurations", "inputs"], "all pairs among eleven classes with multiple inheritance, registration orders, reference kinds",
  "Tests query a few pairs in a chain.",
  ["src/jnivm/vm.cpp", "include/jnivm/extends.h"],
  [("walk over declared bases", "src/jnivm/vm.cpp")],
  "eleven classes, some of one simple name in several packages, fourteen registration orders, three reference kinds",
  "null objects and classes; classes whose bases were never registered")
P("C13", "Local references keep objects alive exactly as long as their frame says",
  "An object stays valid while any local reference to it remains, and is destroyed as soon as the last one is deleted or its frame is popped, for every nesting of frames. Popping a frame releases exactly the references made in it, and its result remains valid in the enclosing frame.",
  ["histories"], "every history of N operations (push, pop with and without result, create, duplicate, delete; through local, global or weak references) on two objects, among others",
  "The tests push and pop once; premature release and leaks need particular interleavings of frames and duplicates.",
  ["src/jnivm/vm.cpp", "include/jnivm/env.h"],
  [("stack of frames holding shared references", "include/jnivm/env.h"), ("frame recycling", "src/jnivm/vm.cpp")],
  "histories of 5 (quick) / 6 (thorough) operations on two objects, frames up to depth 6",
  "deleting a reference made in an outer frame while an inner frame holds one to the same object; negative capacities")
P("C14", "Global and weak references behave as specified over every history",
  "A global reference keeps its object alive until deleted; a weak one does not, and yields nothing once the object is gone. References compare equal exactly if they name the same object, an empty weak reference equals null, and each reference reports its own kind. Deleting a reference affects no other reference.",
  ["histories"], "every history of N operations creating and deleting local, global and weak references to two objects from one another",
  "Tests create and delete one of each; chains (a global from a weak from a global) and dead weak references are sequences.",
  ["src/jnivm/vm.cpp", "include/jnivm/weak.h", "include/jnivm/jnitypes.h"],
  [("wrapper objects for references", "include/jnivm/weak.h"), ("unwrapping", "include/jnivm/jnitypes.h")],
  "histories of 4 (quick) / 5 (thorough) operations, two objects, two global and two weak references",
  "using a deleted reference")
P("C15", "Primitive arrays hold exactly what was stored, with no access outside them",
  "A new primitive array has the requested length and class and all elements zero; element pointers, regions and the C++ view all show the same elements. Writing a region or element changes exactly those elements, reading a region writes exactly the part asked for. A copy made in C++ has elements of its own, unless it copies a view of foreign memory. The array is released, without leak, with its last reference.",
  ["inputs"], "all eight element types, all lengths up to N, all regions inside the array, all element values, all access paths",
  "Tests use one or two types; off-by-one and element-size mistakes in one instantiation stay unseen.",
  ["src/jnivm/internal/array.cpp", "include/jnivm/array.h"],
  [("array functions", "src/jnivm/internal/array.cpp"), ("array storage", "include/jnivm/array.h")],
  "lengths 0..3 (quick) / 0..7 (thorough), every region inside the array, arbitrary contents",
  "element pointers of null arrays; regions outside the array (see C33)")
P("C16", "Object arrays respect their element type and keep elements alive",
  "An element read is the element stored, whatever kind of reference was used to store or initialise it, and null stays null. An array keeps its elements alive until they are overwritten or it dies. An array of a derived type viewed as an array of any base type gives the same objects, and a store of an object of another type is refused and changes nothing. Copies and assigned arrays hold the same objects in elements of their own.",
  ["inputs", "configurations"], "lengths, element classes, initial values, reference kinds, positions; every base view of a four-level hierarchy",
  "Base views are tested for one level; deeper levels reinterpret the storage differently.",
  ["src/jnivm/internal/array.cpp", "include/jnivm/array.h"],
  [("typed storage and base views", "include/jnivm/array.h"), ("array functions", "src/jnivm/internal/array.cpp")],
  "lengths 0..2, one (quick) / three (thorough) stores, four-level hierarchy, nested arrays up to 2 x 2; an element that is the last reference to its object, overwritten, copied and released",
  "indexes outside the array (see C33); arrays of types with several bases (not supported by the library at compile time)")
P("C17", "Native methods registered by native code are the ones that run",
  "After any history of registering, re-registering and unregistering native methods on a class and its base, a lookup of a native method yields the implementation registered last for exactly that name, signature and class, or the nearest base's, and nothing after unregistration. Calling it passes receiver and arguments unchanged. Methods implemented in C++ under the same name and signature are neither replaced nor hidden by it.",
  ["histories"], "every history of N register / replace / unregister / bind operations on two classes and three signatures",
  "Tests register once and call; replacement, removal and coexistence with C++ methods are sequences.",
  ["src/jnivm/vm.cpp", "src/jnivm/internal/method.cpp", "include/jnivm/hookManager.h"],
  [("registration table of the class", "src/jnivm/vm.cpp"), ("lookup with AllowNative", "src/jnivm/internal/method.cpp")],
  "histories of 3 (quick) / 4 (thorough) operations, two classes, three signatures, two implementations each",
  "a null function pointer in the table; a FakeJni method proxy for a name bound both as static and as member")
P("C18", "Direct byte buffers describe exactly the memory they were made for",
  "A direct byte buffer reports exactly the address and capacity it was created with, through every kind of reference, and is an instance of java.nio.ByteBuffer. The memory stays the caller's: it is neither copied, changed nor freed. Two buffers are distinct objects even over the same memory.",
  ["inputs"], "all 64-bit addresses and capacities, all reference kinds",
  "The test uses one small buffer; truncation of capacities and ownership mistakes stay unseen.",
  ["src/jnivm/vm.cpp", "include/jnivm/bytebuffer.h", "src/jnivm/bytebuffer.cpp"],
  [("buffer object", "include/jnivm/bytebuffer.h")],
  "all 2^64 addresses and capacities, up to two buffers, four reference kinds",
  "reference arguments that are no buffers")
P("C19", "Monitors exclude each other's holders for every schedule",
  "Between MonitorEnter and the matching last MonitorExit no other thread is inside the monitor of the same object, whatever kind of reference either thread used. Monitors can be entered repeatedly by their holder, monitors of different objects do not block each other, and a released monitor can be entered again.",
  ["schedules", "configurations"], "every interleaving of two threads entering one or two monitors through different references",
  "Tests run monitors on one thread or with one lucky schedule.",
  ["src/jnivm/vm.cpp", "include/jnivm/object.h"],
  [("recursive lock per object", "include/jnivm/object.h"), ("unwrapping of references", "src/jnivm/vm.cpp")],
  "two threads plus the main one, one (quick) / two (thorough) rounds, nesting depth two; schedules with at most 2 (quick) / 3 (thorough) preemptions at lock operations, and at most 1 / 2 preemptions at lock and atomic operations",
  "more threads and preemptions; exiting a monitor that is not held; deadlocks caused by the user's own lock order")
P("C20", "Every attached thread has exactly one environment of its own",
  "A thread that attaches gets an environment that differs from those of all other attached threads and stays the same until it detaches, through every way of asking for it. Pending exceptions and local references belong to their thread: nothing another thread does changes them. Detaching releases the thread's local references and nothing else, and attaching again starts afresh.",
  ["schedules", "histories"], "every interleaving of two threads attaching, working and detaching beside the main thread",
  "Tests attach one thread at a time; mixing up environments needs interleaved attachments.",
  ["src/jnivm/vm.cpp", "include/jnivm/env.h", "include/jnivm/vm.h"],
  [("environments by thread", "src/jnivm/vm.cpp"), ("per-thread state", "include/jnivm/env.h")],
  "two threads plus the main one, two operations each; schedules with at most 1 (quick) / 2 (thorough) preemptions at lock operations, and at most 1 preemption at lock and atomic operations",
  "more threads; using an environment of another thread")
P("C21", "Concurrent use by attached threads neither races nor gives different answers",
  "Threads that look up or create classes, methods and fields, make references, arrays, strings and objects, call methods, implemented or not, reflect members, register native methods and use FakeJni contexts and frames at the same time never corrupt shared state: no data race, no deadlock. Threads asking for the same class or member get the same identifier, different members get different ones, and every operation returns what it would return alone.",
  ["schedules", "inputs"], "every interleaving of two threads performing any two of twenty-two operations on shared and distinct names, and any two of nine through FakeJni",
  "Two lookups racing on the same class tables is a matter of the schedule; tests are sequential.",
  ["src/jnivm/internal/findclass.cpp", "src/jnivm/internal/method.cpp", "src/jnivm/internal/field.cpp", "src/jnivm/vm.cpp", "include/jnivm/jnitypes.h"],
  [("class table", "src/jnivm/internal/findclass.cpp"), ("member tables", "src/jnivm/internal/method.cpp"), ("global references", "src/jnivm/vm.cpp")],
  "two threads, one operation each (quick) / two each (thorough), with at most 2 preemptions at lock operations, and at most 1 (quick) / 2 (thorough) preemptions at lock and atomic operations",
  "more threads; binding C++ types and methods while other threads already run",
  ["types and methods implemented in C++ are bound before threads use the VM concurrently"])
P("C22", "Reflected methods and fields lead back to the ids they were made from",
  "ToReflectedMethod and ToReflectedField give a local reference to the one reflected object of a member, an instance of java.lang.reflect.Method or Field, when the member is of the kind asked for, else null. FromReflectedMethod and FromReflectedField give back exactly the member's id through every kind of reference to it, and null for null and for every other object. Ids stay valid when all references to the reflected object are gone.",
  ["inputs", "configurations"], "bound, native, constructor, unknown, static and instance members of a class and its base; all reference kinds; with and without a frame",
  "Tests reflect one method and one field directly after looking them up.",
  ["src/jnivm/vm.cpp"],
  [("reflection functions", "src/jnivm/vm.cpp"), ("references", "include/jnivm/jnitypes.h")],
  "nine members of a two-level hierarchy, every pair of them, four reference kinds each",
  "reflecting a member on a class that does not have it")
P("C23", "Attached libraries are initialized, finalized and closed exactly once each",
  "FakeJni::Jvm::attachLibrary opens a library once and calls its JNI_OnLoad, if it has one, with the VM attached; attaching it again changes nothing. removeLibrary and the destruction of the VM call JNI_OnUnload, if it has one, and then close the handle, once per library that was opened. A library that cannot be opened is not attached and can be attached later; other libraries are never affected. All this also holds if entry points attach or remove libraries themselves, including their own. Plain names fall back to entry points of the program itself, with the name as suffix.",
  ["histories", "faults"], "every history of N attach and remove operations on three libraries, any of them failing to open at any time, with any subset of entry points, also with entry points that attach another library, themselves or each other, and that remove or attach libraries while they are finalized",
  "Tests do not load libraries; pairing of initialization and finalization depends on the history and on failures.",
  ["src/fake-jni/fake-jni.cpp", "include/fake-jni/fake-jni.h"],
  [("library handles", "src/fake-jni/fake-jni.cpp")],
  "histories of 4 (quick) / 5 (thorough) operations, three libraries, six ways of nesting, loader functions supplied by the harness",
  "the operating system's loader; removing a library from within its own JNI_OnLoad; two threads attaching libraries")
P("C24", "FakeJni contexts and frames nest and undo exactly what they did",
  "A JniEnvContext attaches the thread if it has no environment and detaches it at its end only if it attached it; inner contexts and frames see the same environment. A LocalFrame releases at its end, by return or by exception, the local references made inside it and no others; global references stay. A frame without VM needs an attached thread and reports its absence. A thread that ends attached is detached and its references are released; destroying the VM ends the environment of its thread.",
  ["histories", "faults"], "every tree of nested contexts and frames up to a depth, left by return, by a C++ exception or with a JNI exception pending, and contexts ended in any order, on the VM's thread, a new thread and an attached thread",
  "Tests use one frame on the VM's thread.",
  ["src/fake-jni/fake-jni.cpp", "include/fake-jni/fake-jni.h", "src/jnivm/vm.cpp"],
  [("JniEnvContext and ThreadContext", "src/fake-jni/fake-jni.cpp"), ("LocalFrame", "include/fake-jni/fake-jni.h")],
  "nesting up to 3 scopes deep, up to two scopes beside the first level, exceptions pending in the outermost (quick) / all scopes (thorough); up to 4 contexts ended in any order",
  "several VMs on one thread; detaching by hand inside a scope")
P("C25", "Baron makes up exactly what is not denied, and keeps what exists",
  "Baron::Jvm makes up missing classes, methods and fields on lookup unless denied. A denied class, and a class nested in it, is found only if it exists already: neither lookups, signatures that mention it nor results of made-up methods create it. A method or field is denied exactly if a rule matches its name, signature and class, empty parts of a rule matching everything. Existing ones stay found, with the same id, and members and classes no rule covers behave as if there were no rules.",
  ["histories", "inputs"], "every history of N deny and lookup operations on three classes and on methods or fields of two classes, with arbitrary names",
  "The test denies a few names one after the other; rules interact with each other and with what was made up before.",
  ["src/baron/jvm.cpp", "include/baron/baron.h", "src/jnivm/internal/findclass.cpp", "src/jnivm/internal/method.cpp"],
  [("deny rules", "src/baron/jvm.cpp"), ("classes mentioned in signatures", "src/jnivm/internal/findclass.cpp"), ("made-up results", "src/jnivm/internal/method.cpp")],
  "histories of 3 (quick) / 4 (thorough) operations, one-character arbitrary member names, three signatures, two host classes, one nested class",
  "denying names while other threads look them up; queries with an empty name")
P("C26", "Native descriptors and main methods of FakeJni take effect exactly as written",
  "A class with a native descriptor exists in a VM from its registration or the first use of one of its objects on, however often and in whatever order classes are registered, and in every VM anew. Its constructors, fields and methods, and those of its registered bases, are found exactly as listed: static if marked static or bound as static, with the types of the C++ members, and access the C++ object. Jvm::start calls exactly one static main, once, with the arguments given, whether made with createMainMethod, bound or registered by native code, and reports if there is none.",
  ["histories", "inputs"], "every sequence of N registrations and uses of two classes in one VM and then another; arbitrary values of members and arguments; every combination of main methods in three classes",
  "Tests register everything up front, once, and never call start.",
  ["include/fake-jni/fake-jni.h", "src/fake-jni/fake-jni.cpp", "src/fake-jni/method.cpp"],
  [("descriptors", "include/fake-jni/fake-jni.h"), ("start and createMainMethod", "src/fake-jni/fake-jni.cpp")],
  "two classes with eleven members, up to 2 (quick) / 3 (thorough) registrations and uses, two VMs one after the other, FakeJni and Baron VMs; five kinds of members with arbitrary modifiers, in both settings of JNIVM_FAKE_JNI_MINECRAFT_LINUX_COMPAT",
  "using an object of a derived class whose base is never registered; exceptions thrown by main")
P("C27", "Generated C++ declares, defines and binds what was discovered, with its types",
  "The generated sources contain every class the foreign code looked up or mentioned, except those the library has itself, once, in its namespace or enclosing class. Each class declares exactly its discovered fields, methods and constructors once, static where static, with the C++ types their JNI descriptors stand for; every function and static field is defined once; every class is registered and every member bound once, to its declaration. Methods that native code implements are left out. Both syntaxes agree in this.",
  ["inputs", "histories"], "all well-formed descriptors up to N characters and near misses of the special class names; all combinations of N discoveries out of forty",
  "The test compiles one generated file; other types, nestings and repeated lookups are not in it.",
  ["src/jnivm/internal/codegen/parseJNIType.cpp", "src/jnivm/internal/codegen/method.cpp", "src/jnivm/internal/codegen/field.cpp", "src/jnivm/internal/codegen/class.cpp", "src/jnivm/internal/codegen/namespace.cpp", "src/jnivm/internal/codegen/vm.cpp"],
  [("types", "src/jnivm/internal/codegen/parseJNIType.cpp"), ("members", "src/jnivm/internal/codegen/method.cpp"), ("classes", "src/jnivm/internal/codegen/class.cpp")],
  "descriptors up to 4 (quick) / 5 (thorough) characters and five special names with one arbitrary letter; 2 (quick) / 3 (thorough) lookups of six kinds of members in five classes; compared without white space; std::regex replaced by a model of its ECMAScript subset",
  "whether the text compiles: members that C++ can not overload, names that are keywords, order of nested classes; writing the file")
P("C28", "A VM releases everything it made, once, and repeated work needs no more memory",
  "Whatever was done with a VM, when it is destroyed every object it made, except those C++ code or another VM still holds, is destroyed exactly once, everything that bindings captured is released, and no memory stays behind; objects held by C++ code stay usable. Work done inside a local frame, again and again, does not use more and more memory. A thread that attached, worked and detached leaves nothing behind either.",
  ["histories"], "every combination of N out of twenty-four operations, kept or undone, also on a second thread; every pair of operations repeated in a frame",
  "Tests look at a few weak pointers; leaks and reference cycles depend on the combination of operations.",
  ["src/jnivm/vm.cpp", "src/jnivm/env.cpp", "include/jnivm/class.h", "include/jnivm/object.h", "src/jnivm/internal/method.cpp"],
  [("local frames and environments", "src/jnivm/vm.cpp"), ("classes and members own bindings", "include/jnivm/class.h")],
  "2 (quick) / 3 (thorough) operations out of twenty-four; four repetitions; one further thread",
  "cycles between user objects; work without a frame on a thread that never detaches")
P("C29", "Several VMs in a process do not affect each other",
  "VMs that exist at the same time have their own functions tables, environments, classes, identifiers, bindings, references and exceptions. Nothing done in one VM, including destroying it and making another one in its place, changes what can be observed in another one, also when both use the same C++ types under different class names.",
  ["histories"], "every history of N operations on two VMs that bind the same C++ types to swapped class names, destroyed in either order",
  "Tests use one VM at a time; state shared by mistake shows only with two.",
  ["src/jnivm/vm.cpp", "include/jnivm/vm.h", "include/jnivm/jnitypes.h"],
  [("state of a VM", "include/jnivm/vm.h"), ("types by VM", "include/jnivm/jnitypes.h")],
  "two VMs, histories of 2 (quick) / 4 (thorough) of sixteen operations, one thread",
  "objects passed from one VM to another; VMs on several threads")
P("C30", "Binding a member again replaces its implementation and nothing else",
  "A method or field can be bound before or after foreign code looked it up, and again at any time, with any supported form of callable or variable: its identifier stays valid, from then on the implementation bound last runs, and getters and setters are replaced independently. Members that differ in class, name, signature or being static keep theirs. The VM keeps a copy of what it is given. The replaced implementation is released, with what it captured, but not before it returned if it is running.",
  ["histories", "inputs"], "every history of N bindings and lookups of sixteen methods of two classes or of four fields, and all arguments",
  "Tests bind once, before lookup; order and repetition of bindings are histories.",
  ["include/jnivm/hookManager.h", "include/jnivm/wrap.h", "include/jnivm/class.h", "src/jnivm/internal/method.cpp", "src/jnivm/internal/field.cpp"],
  [("search for the member to bind", "include/jnivm/hookManager.h"), ("forms of callables", "include/jnivm/wrap.h")],
  "histories of 2 (quick) / 3 (thorough) operations; arbitrary arguments; lambdas, std::function, functions, member functions, variables and member variables; in VMs that make up members and that do not; three members of one name among seven types; eleven kinds of callables in variables that are gone",
  "a static member made up for a derived class before its base got one; bindings made concurrently with use")
P("C31", "References reach C++ code as the object they denote, or not at all",
  "A reference passed as argument, receiver, constructor argument or field value reaches C++ code, by shared pointer, pointer or reference, as exactly the object it denotes, whatever kind of reference it is; null and weak references to released objects arrive as null. If the object is not of the C++ type expected, or null is passed where a C++ reference is expected, the implementation does not run, fields keep their value and an exception is pending. An object is never taken for one of another type.",
  ["inputs", "configurations"], "every combination of twelve parameter types, thirteen values, four kinds of reference, four C++ forms and seven places",
  "The tests pass matching types; which mismatches are caught depends on type, form and place.",
  ["include/jnivm/jnitypes.h", "include/jnivm/wrap.h", "src/jnivm/internal/field.cpp", "src/jnivm/internal/method.cpp"],
  [("checked conversion of references", "include/jnivm/jnitypes.h"), ("conversion of arguments", "include/jnivm/wrap.h")],
  "thirteen values, twelve types; arrays by shared pointer only; single calls",
  "wrong references passed to functions of the JNI table itself (lengths of things that are not arrays and the like); invalid pointers")
P("C32", "Objects C++ code hands out keep their identity and have their own class",
  "An object C++ code hands out - as result, field, getter value, array element, constructor result or argument of a native method, and declared as its own type or as any of its bases, as often and in whatever order - arrives as exactly that object: the same reference target with the same state, null as null, and a copy where it is handed out by value. GetObjectClass, IsInstanceOf and virtual calls go by the type registered for the object itself, and it lives as long as a reference to it does.",
  ["inputs", "configurations"], "22 ways to hand an object out, three earlier uses, two object types, null or not, arbitrary contents",
  "Tests hand objects out as their own type; class and identity depend on what they were declared as first.",
  ["include/jnivm/jnitypes.h", "include/jnivm/wrap.h", "include/jnivm/array.h", "src/jnivm/internal/array.cpp"],
  [("class of objects by their type", "include/jnivm/jnitypes.h"), ("conversion of results", "include/jnivm/wrap.h")],
  "one object with two bases and a C++ type derived from it that nobody registered; 22 ways; single calls",
  "the class of arrays made by C++ code; functions that return pointers, which do not compile")
P("C33", "Regions and indexes outside arrays and strings are refused and touch nothing",
  "Reading or writing a region or element that is not completely inside an array, or reading a region that is not completely inside a string, leaves an exception pending and neither changes the array nor writes to the caller's buffer; regions inside, empty ones at the end included, work as usual. Arrays of negative length are not made, objects of another type are not stored in typed arrays: again an exception is pending. No C++ exception unwinds into the calling foreign code.",
  ["inputs"], "all 32-bit starts, lengths and indexes, all element types, all contents, arrays and strings up to length N",
  "The tests stay inside; an overflowing sum of start and length or a negative start is one value in billions.",
  ["src/jnivm/internal/array.cpp", "src/jnivm/internal/string.cpp", "include/jnivm/array.h"],
  [("range checks of arrays", "src/jnivm/internal/array.cpp"), ("range checks of strings", "src/jnivm/internal/string.cpp")],
  "arrays and strings of length 0..3 (quick) / 0..5 (thorough), null arrays and strings included; arbitrary start, length and index",
  "element access from C++ (operator[] is not checked); allocation failure for huge lengths; references that are not arrays or strings; malformed strings (see C02)")
P("C34", "Building with other diagnostic options changes no behaviour",
  "A library built with call tracing (JNI_TRACE), or without debug support (no JNI_DEBUG, no code generation), behaves as the default build: lookups and their stability, inheritance and subtype queries, calls and their arguments, fields, references, arrays, strings, exceptions, registered natives, deny rules, descriptors, bindings, libraries, teardown and isolation meet the same statements, and the diagnostic output itself touches only valid memory.",
  ["inputs", "histories"], "every input and history of the harnesses listed, in both builds",
  "The test suite is built in two configurations, always with debug support; what is only compiled in one of them (the traced parameters, the lookup of classes without the tree of namespaces) is run by few tests.",
  ["src/jnivm/vm.cpp", "src/jnivm/internal/findclass.cpp", "src/jnivm/internal/method.cpp", "src/jnivm/internal/field.cpp", "src/jnivm/internal/log.h", "src/jnivm/class.cpp"],
  [("tracing", "src/jnivm/internal/log.h"), ("class lookup of both builds", "src/jnivm/internal/findclass.cpp")],
  "19 harnesses of the other properties, each with their smallest bounds (quick) or close to their quick ones (thorough), once with tracing and once without debug support",
  "builds without garbage collection (EnableJNIVMGC off) do not compile at this commit; the text of the output; enclosing classes of nested names are only created with debug support")
P("C35", "Replaced interface functions are called where they apply, and only there",
  "A hook added with AddHook is applied, in the order of adding, exactly once to the table of every environment made after it, including the first one if it was added before initialize(); it sees what earlier hooks left, so wrapped functions still work and no other function changes. Environments made earlier keep their functions. OverrideJNINativeInterface and OverrideJNIInvokeInterface replace the functions of that environment or VM only, at once and for every handle already given out, and a table which names another identity (reserved0) is refused with runtime_error, so environment and VM still lead to each other. This holds for environments made by the library's default VM, by a custom VM, by FakeJni and by Baron.",
  ["histories"], "every history of adding hooks of three kinds before and after initialize(), attaching and detaching threads, and overriding the tables of an environment and of the VM, for four kinds of VM",
  "The test suite has one test which replaces one function in one kind of VM; order, wrapping, later threads and the independence of environments are never checked.",
  ["include/jnivm/vm.h", "src/jnivm/vm.cpp", "src/jnivm/env.cpp", "src/fake-jni/jvm.cpp", "src/baron/jvm.cpp"],
  [("hooks and overrides of the VM", "src/jnivm/vm.cpp"), ("overrides of an environment", "src/jnivm/env.cpp"), ("environments of FakeJni", "src/fake-jni/jvm.cpp"), ("environments of Baron", "src/baron/jvm.cpp")],
  "histories of 3 operations (thorough: 5) after up to two hooks added before initialize(), up to 6 hooks, up to three further threads one at a time",
  "the five lookup functions Baron replaces itself after all hooks; hooks that throw; hooks added while another thread attaches")
P("C36", "C++ code and foreign code are told the same about classes and objects",
  "FakeJni::Jvm::findClass gives the object FindClass gives, and null exactly where FindClass does: for a FakeJni VM where the name was never declared, for a Baron VM where it is also denied. getClasses lists every known class exactly once, under the name getName reports. Object::getClass, getClassInternal and GetObjectClass agree for every kind of object. resolveReference leads from a local, global or weak reference, and from createLocalReference or createGlobalReference, to the object itself, and from null or a cleared weak reference to null; the kind of each reference and what it keeps alive are as in JNI. Class::getMethod finds the method the JNI lookup finds, tells whether it is static, runs it on the right kind of receiver and refuses the other, and never guesses between two.",
  ["inputs", "histories"], "every history of lookups from both sides, declarations, registrations and objects of six kinds behind four kinds of references, for both VMs",
  "The FakeJni tests use the C++ interface and the JNI tests the JNI one; only a few compare an answer of both, each for one class and one state of the VM.",
  ["src/fake-jni/fake-jni.cpp", "src/fake-jni/jvm.cpp", "src/fake-jni/method.cpp", "src/baron/jvm.cpp", "include/fake-jni/fake-jni.h", "include/jnivm/method.h", "src/jnivm/internal/findclass.cpp"],
  [("classes of FakeJni and Baron", "src/fake-jni/fake-jni.cpp"), ("method proxies", "include/jnivm/method.h"), ("references of environments", "include/fake-jni/fake-jni.h")],
  "histories of 2 operations (thorough: 3) over seven class names and one class with two method descriptors, then one more lookup and the list of all classes",
  "enclosing classes of nested names (only created with debug support); getClass of objects which were never handed out and have no descriptor; several threads (C20)")
NA = {}
