"""P18: traced exceptions.  The holder's two states (addresses, or the resolved trace) with vectors of any length."""
from dv.spec import *
from dv.elfspec import truth, cases, QUERY, local
from specs.P15 import SF_SIZE

T = [TU("exceptions.cpp")]
H = r"^cpptrace::v1::detail::lazy_trace_holder::"
I64 = ir.Ty("int", 64)


def an_exception(e, st):
    """an object derived from std::exception"""
    x, vt = st.new_obj("exception", 16, "heap"), st.new_obj("vtable", 40, "input")
    for i in (0, 8, 16):
        e.put(st, Ptr(vt).add(i), 8, engine.FnPtr("_ZNKSt9exception4whatEv"))
    e.put(st, Ptr(x), 8, Ptr(vt))
    return Ptr(x)


def fill(c, p, resolved, name):
    """a holder in the given state, holding any trace"""
    eng = c.eng
    n = c.int(name + ".frames")
    c.st.assume(ult(n, 1 << 40))
    t = type("H", (), {})()
    t.p, t.n, t.resolved = p, n, resolved
    es = SF_SIZE if resolved else 8
    f = eng.fresh_fn(name + ".address", 64)
    t.f = f
    if resolved:
        et = c.type_like(r"^struct.cpptrace::v1::stacktrace_frame$")
        S = z3.Function(name + "!char", z3.BitVecSort(64), z3.BitVecSort(64), z3.BitVecSort(64), z3.BitVecSort(8))
        w = {w: z3.Function(name + "!f%d" % w, z3.BitVecSort(64), z3.BitVecSort(64), z3.BitVecSort(8 * w)) for w in (1, 4, 8)}
        ln = z3.Function(name + "!len", z3.BitVecSort(64), z3.BitVecSort(64), z3.BitVecSort(64))

        def base(i, fo, ww, ty):
            i = bv(i, 64)
            if fo == 0:
                return f(i)
            if fo in (24, 56):
                return Str.sym((name, fo, i.get_id()), ln(i, bv(fo, 64)), lambda j: S(i, bv(fo, 64), bv(j, 64)))
            return w[ww](i, bv(fo, 64))
        o = c.st.new_obj(name + " frames", Lin.of(n).scale(es).val(), "heap", engine.Arr(es, base, (), models.flatten(et)))
    else:
        et = I64
        o = c.st.new_obj(name + " addresses", Lin.of(n).scale(8).val(), "heap", engine.Arr(8, lambda i, fo, w, ty: f(bv(i, 64)), (), [(0, 8, I64)]))
    c.put(p, 1, 1 if resolved else 0)
    c.put(p.add(8), 24, Vec(o, n, es))
    t.et, t.es, t.o = et, es, o
    return t


def any_holder(c, resolved, name):
    return fill(c, c.raw(name, 32), resolved, name)


def is_trace(c, o, p, t, what, own=True):
    """the holder at p is in t's state and holds t's trace"""
    st = o.st
    c.ensure(o, eqv(c.get(p, 1, st=st), 1 if t.resolved else 0, 8), what + ": the same kind of trace")
    v = models.getvec(c.eng, st, p.add(8), t.et)
    c.ensure(o, eqv(v.len, t.n), what + ": as many frames")
    if v.obj is not None:
        c.ensure(o, st.mem.get(v.obj.id) is not None, what + ": its trace is alive")
        if st.mem.get(v.obj.id) is None:
            return v
        k = bv(c.int("k"), 64)
        A = st.mem[v.obj.id]
        c.ensure(o, Implies(ult(k, t.n), eqv(c.eng.arr_byte(A, Lin.of(k).scale(t.es), 8), t.f(k))), what + ": the same frames")
    return v


for r in (False, True):
    N = "resolved" if r else "raw"

    @spec("P18", "copying a holder (%s)" % N, T, secs=60)
    def _(c, r=r):
        c.common()
        t = any_holder(c, r, "other")
        d = c.raw("new", 32)
        for o in c.normal(c.run(H + r"lazy_trace_holder\(cpptrace::v1::detail::lazy_trace_holder const&\)", [d, t.p])):
            v = is_trace(c, o, d, t, "the copy")
            w = is_trace(c, o, t.p, t, "the original")
            c.ensure(o, v.obj is not w.obj or v.obj is None, "independent")

    @spec("P18", "moving a holder (%s)" % N, T, secs=60)
    def _(c, r=r):
        c.common()
        t = any_holder(c, r, "other")
        d = c.raw("new", 32)
        for o in c.normal(c.run(H + r"lazy_trace_holder\(cpptrace::v1::detail::lazy_trace_holder&&\)", [d, t.p])):
            v = is_trace(c, o, d, t, "the new one")
            w = models.getvec(c.eng, o.st, t.p.add(8), t.et)
            c.ensure(o, v.obj is not w.obj or v.obj is None, "independent")
            c.ensure(o, eqv(c.get(t.p, 1, st=o.st), 1 if r else 0, 8), "the source can be destroyed")

    @spec("P18", "assigning a holder to itself (%s)" % N, T, secs=60)
    def _(c, r=r):
        c.common()
        t = any_holder(c, r, "self")
        for o in c.normal(c.run(H + r"operator=\(cpptrace::v1::detail::lazy_trace_holder const&\)", [t.p, t.p])):
            is_trace(c, o, t.p, t, "it is unchanged")
        for o in c.normal(c.run(H + r"operator=\(cpptrace::v1::detail::lazy_trace_holder&&\)", [t.p, t.p])):
            is_trace(c, o, t.p, t, "it is unchanged by a move")

    for s in (False, True):
        for mv in (False, True):
            @spec("P18", "assigning a holder by %s (%s to %s)" % ("move" if mv else "copy", N, "resolved" if s else "raw"), T, secs=60)
            def _(c, r=r, s=s, mv=mv):
                c.common()
                t, d = any_holder(c, r, "other"), any_holder(c, s, "old")
                for o in c.normal(c.run(H + r"operator=\(cpptrace::v1::detail::lazy_trace_holder%s\)" % ("&&" if mv else " const&"), [d.p, t.p])):
                    v = is_trace(c, o, d.p, t, "the destination")
                    if not mv:
                        is_trace(c, o, t.p, t, "the source")
                    w = models.getvec(c.eng, o.st, t.p.add(8), t.et)
                    c.ensure(o, v.obj is not w.obj or v.obj is None, "independent")
                    c.ensure(o, eqv(c.get(t.p, 1, st=o.st), 1 if r else 0, 8), "the source can be destroyed")
                    c.ensure(o, o.st.mem.get(d.o.id) is None or v.obj is d.o or models.getvec(c.eng, o.st, t.p.add(8), t.et).obj is d.o, "the old trace is released")

    @spec("P18", "reading a holder (%s)" % N, T, secs=60)
    def _(c, r=r):
        c.common()
        t = any_holder(c, r, "holder")
        for rx, good in ((r"get_raw_trace\(\) const", not r), (r"get_resolved_trace\(\) const", r)):
            outs = c.run(H + rx, [t.p])
            for o in outs:
                c.ensure(o, (o.kind == "ret") == good, "the trace it holds is given, the other is refused")
                if o.kind == "ret":
                    c.ensure(o, o.val.obj is t.p.obj and o.val.off.const() == t.p.add(8).off.const(), "in place")
                is_trace(c, o, t.p, t, "it is unchanged")
        for o in c.normal(c.run(H + r"is_resolved\(\) const", [t.p])):
            c.ensure(o, eqv(o.val, r, 1) if not isinstance(o.val, bool) else o.val == r, "its state")


@spec("P18", "a resolved trace is resolved no more", T, secs=60)
def _(c):
    c.common()
    t = any_holder(c, True, "holder")

    def resolve(e, st, a, ins):
        e.oblige(st, "a resolved trace is not resolved again", False)
        raise engine.Infeasible()
    c.contract(r"^cpptrace::v1::raw_trace::resolve\(\) const", resolve, "resolve", discharged="P15")
    for o in c.normal(c.run(H + r"get_resolved_trace\(\)$", [t.p])):
        c.ensure(o, o.val.obj is t.p.obj and o.val.off.const() == t.p.add(8).off.const(), "the trace it holds")
        is_trace(c, o, t.p, t, "it is unchanged")


@spec("P18", "a raw trace is resolved once, and kept", T + [TU("cpptrace.cpp")], secs=60)
def _(c):
    c.common()
    eng = c.eng
    t = any_holder(c, False, "holder")
    et = c.type_like(r"^struct.cpptrace::v1::stacktrace_frame$")
    c.st.ghost["resolutions"] = 0
    r = any_holder(c, True, "resolved")
    made = []

    def resolve(e, st, a, ins):
        st.ghost["resolutions"] += 1
        try:
            v = models.getvec(e, st, a[1], I64)
        except Unsupported:
            v = None
        if v is None or v.es != 8:
            e.oblige(st, "addresses are resolved", False)
            raise engine.Infeasible()
        k = bv(e.fresh("k", 64), 64)
        e.oblige(st, "the addresses of the holder are resolved", And(eqv(v.len, t.n), Implies(ult(k, t.n), eqv(e.arr_byte(st.mem[v.obj.id], Lin.of(k).scale(8), 8), t.f(k)))))
        if st.decide(e.fresh("resolve.fails", 1)):
            st.ghost["failed"] = True
            raise engine.Throw("_ZTISt13runtime_error", an_exception(e, st))
        e.put(st, a[0], 24, Vec(r.o, r.n, SF_SIZE))
    c.contract(r"^cpptrace::v1::raw_trace::resolve\(\) const", resolve, "resolve", discharged="P15")
    c.contract(r"should_absorb_trace_exceptions\(\)", lambda e, st, a, ins: e.fresh("absorb", 1), "should_absorb_trace_exceptions", discharged="P20")
    c.model(r"^_ZNKSt9exception4whatEv$", lambda e, st, a, ins: NULL)
    full = 0
    for o in c.normal(c.run(H + r"get_resolved_trace\(\)$", [t.p])):
        g = o.st.ghost
        c.ensure(o, o.val.obj is t.p.obj and o.val.off.const() == t.p.add(8).off.const(), "the trace it holds")
        c.ensure(o, g["resolutions"] <= 1, "resolved at most once")
        c.ensure(o, eqv(c.get(t.p, 1, st=o.st), 1, 8), "the holder is resolved now")
        if g["resolutions"] and not g.get("failed"):
            full += 1
            is_trace(c, o, t.p, r, "the resolved trace")
        else:
            c.ensure(o, eqv(models.getvec(eng, o.st, t.p.add(8), et).len, 0), "an empty trace")
            if not g["resolutions"]:
                c.ensure(o, eqv(t.n, 0), "only an empty trace is not resolved")
        c.ensure(o, o.st.mem.get(t.o.id) is None, "the addresses are released")
    if not full:
        raise Unsupported("no path resolves")


# ------------------------------------------------------------------ descriptions
def exc_object(c, what):
    """any lazy_exception: its own message(), a holder in any state (by contract), what_string as given"""
    eng = c.eng
    t = type("X", (), {})()
    t.p = c.raw("exception", 160)
    vt = c.st.new_obj("vtable", 64, "input")
    for i, n in enumerate(("dtor", "dtor0", "what", "message", "trace")):
        c.put(Ptr(vt).add(8 * i), 8, engine.FnPtr("virtual$" + n))
    c.put(t.p, 8, Ptr(vt))
    t.msg, t.ms = c.cstr("message")
    c.model(r"^virtual\$message$", lambda e, st, a, ins: t.msg)
    t.text = eng.fresh_str(c.st, "rendered trace")
    st_p = c.raw("resolved trace", 24)

    def get(e, st, a, ins):
        e.oblige(st, "the exception's own trace", a[0].obj is t.p.obj and a[0].off.const() == 8)
        st.ghost["resolved"] += 1
        return st_p
    c.st.ghost["resolved"] = 0
    c.contract(H + r"get_resolved_trace\(\)$", get, "get_resolved_trace", discharged="P18: a raw trace is resolved once, and kept")

    def to_string(e, st, a, ins):
        e.oblige(st, "its resolved trace is rendered", a[1].obj is st_p.obj)
        models.setstr(e, st, a[0], t.text)
    c.contract(r"^cpptrace::v1::stacktrace::to_string(\[abi:cxx11\])?\((bool)?\) const", to_string, "stacktrace::to_string", discharged="P07")
    models.setstr(eng, c.st, t.p.add(40), what)
    t.trace = st_p
    return t


@spec("P18", "the description is the message and the rendered trace", T, secs=60)
def _(c):
    c.common()
    c.keep = True
    t = exc_object(c, Str())
    for o in c.normal(c.run(r"^cpptrace::v1::lazy_exception::what\(\) const", [t.p])):
        w = models.getstr(c.eng, o.st, t.p.add(40))
        n, m = t.ms.len, t.text.len
        c.ensure(o, eqv(w.len, (Lin.of(n) + Lin.of(m) + 2).val()), "the length of its parts")
        k = bv(c.int("k"), 64)
        c.ensure(o, Implies(ult(k, n), eqv(w.at(k), t.ms.at(k), 8)), "starts with the message")
        c.ensure(o, eqv(w.at(bv(n, 64)), 58, 8), "a colon")
        c.ensure(o, eqv(w.at(bv(n, 64) + 1), 10, 8), "a line break")
        c.ensure(o, Implies(ult(k, m), eqv(w.at(bv(n, 64) + 2 + k), t.text.at(k), 8)), "then the rendered trace")
        s = models.snapshot(c.eng, o.st, o.val)
        c.ensure(o, Implies(ult(k, w.len), eqv(s(k), w.at(k), 8)), "that is what is returned")
        c.ensure(o, eqv(s(w.len), 0, 8), "zero-terminated")


@spec("P18", "a description once made stays", T, secs=60)
def _(c):
    c.common()
    c.keep = True
    w0 = c.eng.fresh_str(c.st, "what_string")
    c.st.assume(Not(eqv(w0.len, 0)))
    t = exc_object(c, w0)
    for o in c.normal(c.run(r"^cpptrace::v1::lazy_exception::what\(\) const", [t.p])):
        w = models.getstr(c.eng, o.st, t.p.add(40))
        c.ensure(o, models.str_eq_goal(w, w0), "unchanged")
        s = models.snapshot(c.eng, o.st, o.val)
        k = bv(c.int("k"), 64)
        c.ensure(o, Implies(ult(k, w.len), eqv(s(k), w0.at(k), 8)), "returned")


@spec("P18", "the trace and the message of an exception", T, secs=60)
def _(c):
    c.common()
    c.keep = True
    t = exc_object(c, Str())
    for o in c.normal(c.run(r"^cpptrace::v1::lazy_exception::trace\(\) const", [t.p])):
        c.ensure(o, o.val.obj is t.trace.obj, "the resolved trace")
    m = c.eng.fresh_str(c.st, "user message")
    models.setstr(c.eng, c.st, t.p.add(72), m)
    c.st.ghost["resolved"] = 0
    for o in c.normal(c.run(r"^cpptrace::v1::exception_with_message::message\(\) const", [t.p])):
        s = models.snapshot(c.eng, o.st, o.val)
        k = bv(c.int("k"), 64)
        c.ensure(o, Implies(ult(k, m.len), eqv(s(k), m.at(k), 8)), "the message it was built with")
        c.ensure(o, eqv(s(m.len), 0, 8), "zero-terminated")
        c.ensure(o, o.st.ghost["resolved"] == 0, "nothing is resolved for it")


for kind in ("std", "other", "made"):
    @spec("P18", "a nested exception reports the wrapped one (%s)" % kind, T, secs=60)
    def _(c, kind=kind):
        """layout: lazy_exception (72 bytes), ptr at 72, message_value at 80"""
        c.common()
        c.keep = True
        eng = c.eng
        p = c.raw("nested", 112)
        w, ws = c.cstr("what")
        old = eng.fresh_str(c.st, "message_value")
        c.st.assume(Not(eqv(old.len, 0)))
        models.setstr(eng, c.st, p.add(80), old if kind == "made" else Str())
        name = eng.fresh_str(c.st, "type name")
        wrapped = c.st.new_obj("wrapped", 8, "heap")
        c.put(p.add(72), 8, Ptr(wrapped))
        c.st.ghost["thrown"] = 0

        def rethrow(e, st, a, ins):
            q = e.raw_load(st, a[0], 8, ir.PTR)
            e.oblige(st, "the wrapped exception", isinstance(q, Ptr) and q.obj is wrapped)
            st.ghost["thrown"] += 1
            if kind == "std":
                raise engine.Throw("_ZTISt13runtime_error", an_exception(e, st))
            raise engine.Throw("_ZTIi", Ptr(st.new_obj("thrown", 8, "heap")))
        c.model(r"^std::rethrow_exception\(", rethrow)
        c.model(r"exception_ptr::exception_ptr\(std::__exception_ptr::exception_ptr const&\)", lambda e, st, a, ins: e.put(st, a[0], 8, e.raw_load(st, a[1], 8, ir.PTR)))
        c.model(r"^_ZNKSt9exception4whatEv$", lambda e, st, a, ins: w)
        c.contract(r"exception_type_name", lambda e, st, a, ins: models.setstr(e, st, a[0], name), "exception_type_name")
        for o in c.normal(c.run(r"^cpptrace::v1::nested_exception::message\(\) const", [p])):
            m = models.getstr(eng, o.st, p.add(80))
            k = bv(c.int("k"), 64)
            if kind == "made":
                c.ensure(o, models.str_eq_goal(m, old), "a message once made stays")
                c.ensure(o, o.st.ghost["thrown"] == 0, "without looking again")
            else:
                pre, tail = ("Nested exception: ", ws) if kind == "std" else ("Nested exception holding instance of ", name)
                c.ensure(o, eqv(m.len, (Lin.of(tail.len) + len(pre)).val()), "the length of its parts")
                for i, ch in enumerate(pre):
                    c.ensure(o, eqv(m.at(i), ord(ch), 8), "its prefix")
                c.ensure(o, Implies(ult(k, tail.len), eqv(m.at(k + len(pre)), tail.at(k), 8)), "the wrapped exception's description")
            s = models.snapshot(eng, o.st, o.val)
            c.ensure(o, Implies(ult(k, m.len), eqv(s(k), m.at(k), 8)), "that is what is returned")
            c.ensure(o, eqv(s(m.len), 0, 8), "zero-terminated")
