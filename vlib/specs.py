INTERNAL_LABEL = "end"
SPECS = {}
def H(src, reach=(), **k):
    d = dict(src=src, reach=["end"] + list(reach))
    d.update(k)
    return d
SPECS["C01"] = dict(harnesses=[H("str_roundtrip.cpp", ["utf", "region", "utfregion", "chars", "independent"], quick=dict(N=3), thorough=dict(N=4))])
SPECS["C02"] = dict(harnesses=[H("str_bytes.cpp", ["length", "chars", "region", "rejected", "inside", "outside"], quick=dict(N=3), thorough=dict(N=5))])
SPECS["C03"] = dict(harnesses=[H("args.cpp", ["static", "instance", "member", "nonvirtual", "wide", "ctor", "narrow"])])
SPECS["C04"] = dict(harnesses=[H("descr.cpp", ["method", "field", "wellformed", "malformed", "codegen-method", "codegen-field", "call", "declares", "longer"], quick=dict(N=4), thorough=dict(N=6, NAME=7))])
SPECS["C05"] = dict(harnesses=[H("dispatch.cpp", ["virtual", "nonvirtual", "abstract", "nowhere"])])
SPECS["C06"] = dict(harnesses=[H("classes.cpp", ["equal", "different", "found", "notfound"], quick=dict(N=2), thorough=dict(N=3))])
SPECS["C07"] = dict(harnesses=[H("members.cpp", ["found", "own", "inherited", "fabricated"], thorough=dict(FULL=1)), H("ctors.cpp", ["constructed", "unknown", "none"], weight=0.2), H("keys.cpp", ["equal", "different"], weight=0.5, quick=dict(N=1), thorough=dict(N=2))])
SPECS["C08"] = dict(harnesses=[H("unknown.cpp", ["unknown-method", "null-method", "unknown-field", "null-field", "fabricated", "null-object", "nulls"]), H("unknown.cpp", ["unknown-method", "null-method", "unknown-field", "null-field", "nulls"], variant=dict(nonzero=0), weight=0.5)])
SPECS["C09"] = dict(harnesses=[H("fields.cpp", ["static", "instance", "inherited", "bool", "refs", "clear", "overwrite"])])
SPECS["C10"] = dict(harnesses=[H("exceptions.cpp", ["threw", "returned", "other", "history", "accessor"], quick=dict(N=3), thorough=dict(N=4))])
SPECS["C11"] = dict(harnesses=[H("invoke.cpp", ["returned", "threw", "threw-object", "other"])])
SPECS["C12"] = dict(harnesses=[H("subtype.cpp")])
SPECS["C13"] = dict(harnesses=[H("locals.cpp", ["pop", "pop-result", "delete"], quick=dict(N=5), thorough=dict(N=6))])
SPECS["C14"] = dict(harnesses=[H("globals.cpp", ["delete-local", "global", "weak", "local", "weak-live", "weak-dead", "no-global"], quick=dict(N=4), thorough=dict(N=5))])
SPECS["C15"] = dict(harnesses=[H("parrays.cpp", ["setregion", "elements", "cpp", "copied", "large"], quick=dict(N=3), thorough=dict(N=7))])
SPECS["C16"] = dict(harnesses=[H("oarrays.cpp", ["refused", "stored", "typed", "view-refused", "view-stored", "nested", "copied"], thorough=dict(STORES=3))])
SPECS["C17"] = dict(harnesses=[H("natives.cpp", ["unregister", "bound", "missing", "native"], quick=dict(N=3), thorough=dict(N=4))])
SPECS["C18"] = dict(harnesses=[H("buffers.cpp", ["memory"])])
SPECS["C19"] = dict(harnesses=[H("monitors.cpp", ["hold"], quick=dict(T=2, R=1, _preempt=2), thorough=dict(T=2, R=2, _preempt=3)), H("monitors.cpp", [], atomics=True, weight=0.5, quick=dict(T=2, R=1, _preempt=1), thorough=dict(T=2, R=1, _preempt=2))])
SPECS["C20"] = dict(harnesses=[H("attach.cpp", ["again", "detach", "published"], quick=dict(_preempt=1), thorough=dict(FULL=1, _preempt=2)), H("attach.cpp", ["again", "detach"], atomics=True, quick=dict(SMALL=1, _preempt=1), thorough=dict(_preempt=1))])
SPECS["C21"] = dict(harnesses=[H("concurrent.cpp", ["same-lookup", "stays"], quick=dict(_preempt=2), thorough=dict(TWO=1, _preempt=2)),
                               H("concurrent.cpp", ["same-lookup", "stays"], atomics=True, quick=dict(_preempt=1), thorough=dict(_preempt=2))])
SPECS["C21"]["harnesses"] += [H("concurrent_fake.cpp", [], quick=dict(_preempt=1), thorough=dict(_preempt=2)), H("concurrent_fake.cpp", [], atomics=True, quick=dict(_preempt=1), thorough=dict(_preempt=1))]
SPECS["C22"] = dict(harnesses=[H("reflect.cpp", ["other-kind", "frame"])])
SPECS["C23"] = dict(harnesses=[H("library.cpp", ["again", "own", "static", "failed", "remove", "open-at-exit", "nested"], quick=dict(N=4), thorough=dict(N=5))])
SPECS["C24"] = dict(harnesses=[H("context.cpp", ["throw", "no-env", "detached", "raw", "early", "pending"], quick=dict(DEPTH=3), thorough=dict(DEPTH=3, PEND=3))])
SPECS["C25"] = dict(harnesses=[H("deny.cpp", ["class-denied", "class-known", "member-denied", "member-known", "no-object"], quick=dict(N=3), thorough=dict(N=4))])
SPECS["C26"] = dict(harnesses=[H("descriptor.cpp", ["base", "derived", "without-base", "again", "modifiers", "refused"], quick=dict(N=2), thorough=dict(N=3)), H("descriptor.cpp", ["modifiers", "refused"], variant=dict(compat=1), weight=0.2), H("start.cpp", ["called", "nothing"], weight=0.3)])
SPECS["C27"] = dict(harnesses=[H("gentypes.cpp", ["field", "result", "params", "several", "many", "constructor"], quick=dict(N=4), thorough=dict(N=5)),
                               H("gentypes.cpp", ["field", "result", "params", "several", "many", "constructor"], variant=dict(fake=1), quick=dict(N=4), thorough=dict(N=5)),
                               H("gencode.cpp", ["native"], quick=dict(N=2), thorough=dict(N=3)),
                               H("gencode.cpp", ["native"], variant=dict(fake=1), quick=dict(N=2), thorough=dict(N=3))])
SPECS["C28"] = dict(harnesses=[H("teardown.cpp", ["steady", "torn-down", "thread", "held"], quick=dict(N=2), thorough=dict(N=3))])
SPECS["C29"] = dict(harnesses=[H("isolation.cpp", ["replaced"], quick=dict(N=2), thorough=dict(N=4))])
SPECS["C30"] = dict(harnesses=[H("binding.cpp", ["again", "after-lookup", "field-again", "running", "types", "variables"], quick=dict(N=2), thorough=dict(N=3))])
SPECS["C31"] = dict(harnesses=[H("refs.cpp", ["refused", "same", "null", "receiver", "constructor", "stored", "kept"])])
SPECS["C32"] = dict(harnesses=[H("results.cpp", ["null", "same", "copy"])])
SPECS["C33"] = dict(harnesses=[H("outside.cpp", ["inside", "outside"], quick=dict(N=3), thorough=dict(N=5))])

SPECS["C35"] = dict(harnesses=[H("hooks.cpp", ["thread", "again", "invoke", "override", "handle"], quick=dict(N=3), thorough=dict(N=5))])

SPECS["C36"] = dict(harnesses=[H("cppview.cpp", ["found", "not-found", "object", "weak", "registered", "all"], quick=dict(N=2), thorough=dict(N=3))])

SPECS["C34"] = dict(harnesses=[])
for _v in (dict(debug=0), dict(trace=1)):
    for _src, _q, _t in (("classes.cpp", 2, 3), ("members.cpp", 0, 0), ("ctors.cpp", 0, 0), ("subtype.cpp", 0, 0), ("dispatch.cpp", 0, 0), ("args.cpp", 0, 0), ("unknown.cpp", 0, 0), ("fields.cpp", 0, 0),
                         ("exceptions.cpp", 2, 3), ("invoke.cpp", 0, 0), ("natives.cpp", 2, 3), ("reflect.cpp", 0, 0), ("deny.cpp", 2, 3), ("descriptor.cpp", 1, 2), ("refs.cpp", 0, 0), ("teardown.cpp", 1, 2), ("isolation.cpp", 1, 2), ("binding.cpp", 1, 2), ("library.cpp", 2, 3)):
        SPECS["C34"]["harnesses"].append(H(_src, quick=dict(N=_q, LITE=1), thorough=dict(N=_t), variant=_v))
