"""P17: the C interface.  Traces are vectors of any length holding any strings; what is handed over lives on the heap."""
import re
from dv.spec import *
from dv.elfspec import truth, cases, QUERY, local
from specs.P15 import object_frames, addresses, sret, SF_SIZE, OF_SIZE, NULLV

T = [TU("ctrace.cpp")]
CF, CO = 48, 24   # ctrace_stacktrace_frame, ctrace_object_frame
I8, I32, I64 = ir.I8, ir.Ty("int", 32), ir.Ty("int", 64)


# ------------------------------------------------------------------ strings
@spec("P17", "an owning string is a zero-terminated copy of its own", T, secs=60)
def _(c):
    c.common()
    eng = c.eng
    sv, s, _ = c.sv("text")
    for o in c.normal(c.run(r"^ctrace::generate_owning_string\(", sv)):
        p = o.val
        c.ensure(o, p.obj is not None and p.obj.kind == "heap" and not p.null, "it is on the heap")
        c.ensure(o, eqv(p.off.val(), 0), "its start can be released")
        c.ensure(o, eqv(p.obj.size, (Lin.of(s.len) + 1).val()), "it has room for the text and its terminator")
        snap = models.snapshot(eng, o.st, p)
        c.ensure(o, Forall(lambda k: Implies(ult(k, s.len), eqv(snap(k), s.at(k), 8)), None, "the text"), "it holds the text")
        c.ensure(o, eqv(snap(s.len), 0, 8), "zero-terminated")


def owning(c, made):
    """generate_owning_string by its contract: a fresh block holding the text"""
    eng = c.eng

    def gen(e, st, a, ins):
        p, n = a[0], a[1]
        q = e.bytes_obj(st, "owned", e.fresh_str(st, "owned text"), nul=True)
        q.kind = "heap"
        made[q.id] = (n, models.snapshot(e, st, p))
        return Ptr(q)
    c.contract(r"^ctrace::generate_owning_string\(", gen, "generate_owning_string", discharged="P17: an owning string is a zero-terminated copy of its own")


def holds(c, o, p, s, made, what):
    """p is a block of its own made from exactly the characters of s"""
    st = o.st
    if not isinstance(p, Ptr) or p.obj is None or p.obj.id not in made:
        c.ensure(o, False, what + " is a string of its own")
        return
    n, snap = made[p.obj.id]
    c.ensure(o, eqv(p.off.val(), 0), what + " is a string of its own")
    c.ensure(o, eqv(n, s.len), what + ": all of it")
    c.ensure(o, Forall(lambda k: Implies(ult(k, s.len), eqv(snap(k), s.at(k), 8)), None, what), what + " is copied")


def sframe(c):
    """any C++ frame"""
    t = type("F", (), {})()
    t.p = c.raw("frame", SF_SIZE)
    t.raw, t.oa, t.line, t.col, t.inl = c.int("raw"), c.int("object"), c.int("line", 32), c.int("column", 32), c.int("inline", 8)
    c.st.assume(ule(t.inl, 1, 8))
    t.file, t.sym = c.eng.fresh_str(c.st, "filename"), c.eng.fresh_str(c.st, "symbol")
    for off, w, v in ((0, 8, t.raw), (8, 8, t.oa), (16, 4, t.line), (20, 4, t.col), (88, 1, t.inl)):
        c.put(t.p.add(off), w, v)
    models.setstr(c.eng, c.st, t.p.add(24), t.file)
    models.setstr(c.eng, c.st, t.p.add(56), t.sym)
    return t


@spec("P17", "an object frame keeps its fields (to C)", T, secs=60)
def _(c):
    c.common()
    made = {}
    owning(c, made)
    f = c.raw("frame", OF_SIZE)
    raw, oa, path = c.int("raw"), c.int("object"), c.eng.fresh_str(c.st, "path")
    c.put(f, 8, raw)
    c.put(f.add(8), 8, oa)
    models.setstr(c.eng, c.st, f.add(16), path)
    for o in c.normal(c.run(r"^ctrace::convert_object_frame\(", [f])):
        c.ensure(o, eqv(c.get(o.val, 8, st=o.st), raw), "raw address")
        c.ensure(o, eqv(c.get(o.val.add(8), 8, st=o.st), oa), "object address")
        holds(c, o, c.getp(o.val.add(16), st=o.st), path, made, "path")


@spec("P17", "a frame keeps its fields (to C)", T, secs=60)
def _(c):
    c.common()
    made = {}
    owning(c, made)
    t = sframe(c)

    def demangle(e, st, a, ins):
        s = models.getstr(e, st, a[1])
        e.oblige(st, "the frame's symbol is demangled", models.str_eq_goal(s, t.sym))
        r = e.fresh_str(st, "demangled")
        st.ghost["dem"] = r
        models.setstr(e, st, a[0], r)
    c.contract(r"^cpptrace::v1::detail::demangle\(", demangle, "demangle", discharged="P19")
    for o in c.normal(c.run(r"^ctrace::convert_stacktrace_frame\(cpptrace::v1::stacktrace_frame const", [t.p])):
        g = lambda off, w: c.get(o.val.add(off), w, st=o.st)
        c.ensure(o, eqv(g(0, 8), t.raw), "raw address")
        c.ensure(o, eqv(g(8, 8), t.oa), "object address")
        c.ensure(o, eqv(g(16, 4), t.line, 32), "line, or the marker of its absence")
        c.ensure(o, eqv(g(20, 4), t.col, 32), "column, or the marker of its absence")
        c.ensure(o, Not(eqv(g(40, 1), 0, 8)) == Not(eqv(t.inl, 0, 8)), "inlined")
        holds(c, o, c.getp(o.val.add(24), st=o.st), t.file, made, "path")
        holds(c, o, c.getp(o.val.add(32), st=o.st), o.st.ghost["dem"], made, "symbol")


for nf in (False, True):
    for ns in (False, True):
        @spec("P17", "a frame keeps its fields (from C%s%s)" % (", no path" if nf else "", ", no symbol" if ns else ""), T, secs=60)
        def _(c, nf=nf, ns=ns):
            c.common()
            f = c.raw("frame", CF)
            v = {}
            for off, w in ((0, 8), (8, 8), (16, 4), (20, 4), (40, 1)):
                v[off] = c.int("field%d" % off, 8 * w)
                c.put(f.add(off), w, v[off])
            txt = {}
            for off, null in ((24, nf), (32, ns)):
                p, s = (NULL, Str()) if null else c.cstr("text%d" % off)
                c.put(f.add(off), 8, p)
                txt[off] = s
            for o in c.normal(c.run(r"^ctrace::convert_stacktrace_frame\(ctrace_stacktrace_frame const", [f])):
                g = lambda off, w: c.get(o.val.add(off), w, st=o.st)
                c.ensure(o, eqv(g(0, 8), v[0]), "raw address")
                c.ensure(o, eqv(g(8, 8), v[8]), "object address")
                c.ensure(o, eqv(g(16, 4), v[16], 32), "line, or its absence")
                c.ensure(o, eqv(g(20, 4), v[20], 32), "column, or its absence")
                c.ensure(o, eqv(g(88, 1), Ite(eqv(v[40], 0, 8), 0, 1, 8), 8), "inlined")
                c.ensure(o, models.str_eq_goal(models.getstr(c.eng, o.st, o.val.add(24)), txt[24]), "path")
                c.ensure(o, models.str_eq_goal(models.getstr(c.eng, o.st, o.val.add(56)), txt[32]), "symbol")


# ------------------------------------------------------------------ whole traces
def result_array(c, size, fields):
    """new[] of the array of C frames: elements start unset"""
    eng = c.eng
    new = []

    def f(e, st, a, ins):
        o = st.new_obj("C frames", models.norm64(a[0]), "heap", engine.Arr(size, lambda i, fo, w, ty: e.fresh("unset", 8 * w) if not ty == ir.PTR else NULL, (), fields))
        new.append((o, a[0]))
        return Ptr(o)
    c.model(r"^operator new\[\]\(unsigned long\)$", f)
    c.model(r"^_Znam$", f)
    return new


def conv(name, rx, convrx, esrc, edst, fields, mk):
    @spec("P17", name, T, secs=120)
    def _(c):
        c.common()
        c.keep = True
        eng = c.eng
        n = c.int("frames")
        c.st.assume(ult(n, 1 << 40))
        src = c.st.new_obj("trace data", Lin.of(n).scale(esrc).val(), "heap", engine.Arr(esrc, lambda i, fo, w, ty: Unsupported, (), []))
        vp = c.raw("trace", 24)
        c.put(vp, 24, Vec(src, n, esrc))
        new = result_array(c, edst, fields)
        eng.by_invariant.append("std::transform")
        tag = eng.fresh_fn("converted", 64)
        seen = []

        def one_frame(e, st, a, ins):
            # the converted frame k is marked in its first field
            p = a[1] if len(a) > 1 else a[0]
            e.oblige(st, "a frame of the trace is converted", p.obj is src)
            k = p.off.div(esrc)[0].val()
            e.oblige(st, "within the trace", ult(k, n))
            if len(a) > 1:
                e.put(st, a[0], 8, tag(bv(k, 64)))
                for off, w, ty in fields[1:]:
                    e.put(st, a[0].add(off), w, NULL if ty == ir.PTR else e.fresh("other", 8 * w))
            return None
        c.contract(convrx, one_frame, "converting one frame", discharged="P17: a frame keeps its fields")
        at = lambda st, nm: next((x for x in (local(st, nm), local(st, nm + ".addr")) if x is not None), None)

        def tmpl(e, entry, mods, steps, ctx):
            def f(st):
                a, b = at(st, "__first"), at(st, "__result")
                if not (isinstance(a, Ptr) and isinstance(b, Ptr) and a.obj is src and new and b.obj is new[-1][0]):
                    return True
                return eqv(Lin.of(a.off.val()).val() if edst == esrc else a.off.div(esrc)[0].val(), b.off.div(edst)[0].val())

            def g(st):
                a = at(st, "__first")
                return ule(a.off.div(esrc)[0].val(), n) if isinstance(a, Ptr) and a.obj is src else True
            return [("in step", f), ("within", g)]

        def one(e, h, b, ctx):
            seen.append(1)
            p, r, r1 = at(h, "__first"), at(h, "__result"), at(b, "__result")
            q = Out("ret", b, None)
            k = p.off.div(esrc)[0].val()
            c.ensure(q, eqv(r.off.div(edst)[0].val(), k), "to the same place")
            c.ensure(q, eqv(c.get(Ptr(new[-1][0], Lin.of(k).scale(edst)), 8, st=b), tag(bv(k, 64))), "it is stored")
            c.ensure(q, eqv(r1.off.div(edst)[0].val(), bv(k, 64) + 1), "one frame after the other")
            j = bv(c.int("other frame"), 64)
            A = lambda st: eng.arr_byte(st.mem[new[-1][0].id], Lin.of(j).scale(edst), 8)
            c.ensure(q, Implies(And(ult(j, n), Not(eqv(j, k))), eqv(A(h), A(b))), "the others stay")
        eng.loop_templates.append(tmpl)
        eng.loop_steps.append(one)
        for o in c.normal(c.run(rx, [vp])):
            r = mk(c, o)
            c.ensure(o, r[0].obj is new[-1][0] and r[0].off.const() == 0, "the array is handed over")
            c.ensure(o, eqv(r[1], n), "with its length")
            c.ensure(o, eqv(new[-1][1], Lin.of(n).scale(edst).val()), "of that many frames")
        if not seen:
            raise Unsupported("no step of the loop was seen")


def pair(c, o):
    return (o.val[0], o.val[1]) if isinstance(o.val, (list, tuple)) else (c.getp(o.val, st=o.st), c.get(o.val.add(8), 8, st=o.st))


FO = [(0, 8, I64), (8, 8, I64), (16, 8, ir.PTR)]
FS = [(0, 8, I64), (8, 8, I64), (16, 4, I32), (20, 4, I32), (24, 8, ir.PTR), (32, 8, ir.PTR), (40, 1, I8)]
conv("every object frame is converted, in order", r"^ctrace::c_convert\(std::vector<cpptrace::v1::object_frame", r"^ctrace::convert_object_frame\(", OF_SIZE, CO, FO, pair)
conv("every frame is converted, in order", r"^ctrace::c_convert\(std::vector<cpptrace::v1::stacktrace_frame", r"^ctrace::convert_stacktrace_frame\(cpptrace::v1::stacktrace_frame", SF_SIZE, CF, FS, pair)


def c_frames(c, size, strs):
    """any C trace: an array of frames whose strings are blocks of their own (string number m of frame k is Ptr(strings, m + len(strs)*k))"""
    eng = c.eng
    n = c.int("frames")
    c.st.assume(ult(n, 1 << 40))
    strings = c.st.new_obj("owned strings", 1 << 50, "heap")

    def base(i, fo, w, ty):
        if fo in strs:
            return Ptr(strings, Lin.of(bv(i, 64)).scale(len(strs)) + strs.index(fo))
        return eng.fresh("field", 8 * w)
    fields = [f for f in (FS if size == CF else FO)]
    arr = c.st.new_obj("C frames", Lin.of(n).scale(size).val(), "heap", engine.Arr(size, base, (), fields))
    h = c.raw("handle", 16)
    c.put(h, 8, Ptr(arr))
    c.put(h.add(8), 8, n)
    return h, arr, n, strings


def freeing(name, rx, size, strs):
    @spec("P17", name, T, secs=60)
    def _(c):
        c.common()
        c.keep = True
        eng = c.eng
        h, arr, n, strings = c_frames(c, size, strs)
        fname = re.sub(r"[\^$\\(]", "", rx)
        eng.by_invariant.append(fname)
        for m in range(len(strs)):
            c.st.ghost["freed%d" % m] = 0

        def free(e, st, a, ins):
            p = a[0]
            ok = isinstance(p, Ptr) and p.obj is strings
            e.oblige(st, "a string of the trace is released", ok)
            q = p.off.val()
            for m in range(len(strs)):
                if st.decide(eqv(z3.URem(bv(q, 64), bv(len(strs), 64)) if len(strs) > 1 else 0, m)):
                    e.oblige(st, "the next one, once", eqv(q, (Lin.of(st.ghost["freed%d" % m]).scale(len(strs)) + m).val()))
                    st.ghost["freed%d" % m] = (Lin.of(st.ghost["freed%d" % m]) + 1).val()
                    return None
        c.contract(r"^ctrace::free_owning_string\(char const\*\)", free, "free_owning_string", discharged="P17: an owning string is released once")
        c.eng.loop_templates.append(lambda e, entry, mods, steps, ctx: [("released so far", lambda st, m=m: eqv(st.ghost["freed%d" % m], local(st, "i"))) for m in range(len(strs))] + [("within", lambda st: ule(local(st, "i"), n))])
        for o in c.normal(c.run(rx, [h])):
            for m in range(len(strs)):
                c.ensure(o, eqv(o.st.ghost["freed%d" % m], n), "every string is released")
            c.ensure(o, o.st.mem.get(arr.id) is None, "the array is released")
            c.ensure(o, eqv(c.get(h.add(8), 8, st=o.st), 0), "the handle is empty")
            c.ensure(o, c.getp(h, st=o.st).null, "the handle is null")


# (the callee contracts stay in the bounded run: their inputs are abstract)
freeing("freeing a trace releases everything once", r"^ctrace_free_stacktrace$", CF, [24, 32])
freeing("freeing an object trace releases everything once", r"^ctrace_free_object_trace$", CO, [16])


@spec("P17", "freeing a raw trace", T, secs=30)
def _(c):
    c.common()
    arr = c.st.new_obj("addresses", c.int("size"), "heap")
    h = c.raw("handle", 16)
    c.put(h, 8, Ptr(arr))
    c.put(h.add(8), 8, c.int("frames"))
    for o in c.normal(c.run(r"^ctrace_free_raw_trace$", [h])):
        c.ensure(o, o.st.mem.get(arr.id) is None, "the array is released")
        c.ensure(o, c.getp(h, st=o.st).null and c.get(h.add(8), 8, st=o.st) == 0, "the handle is empty")


for fn in ("stacktrace", "object_trace", "raw_trace", "owning_string"):
    @spec("P17", "freeing an empty %s changes nothing" % fn.replace("_", " "), T, secs=30)
    def _(c, fn=fn):
        c.common()
        for o in c.normal(c.run(r"^ctrace_free_%s$" % fn, [NULL])):
            c.ensure(o, True, "harmless")
        h = c.raw("handle", 16)
        c.put(h, 8, NULL)
        c.put(h.add(8), 8, c.int("frames"))
        for o in c.normal(c.run(r"^ctrace_free_%s$" % fn, [h])):
            c.ensure(o, c.getp(h, st=o.st).null, "the handle stays empty")


@spec("P17", "an owning string is released once", T, secs=30)
def _(c):
    c.common()
    b = c.st.new_obj("string", c.int("size"), "heap")
    for o in c.normal(c.run(r"^ctrace::free_owning_string\(char const\*\)", [Ptr(b)])):
        c.ensure(o, o.st.mem.get(b.id) is None, "it is released")
    b = c.st.new_obj("string", c.int("size"), "heap")
    h = c.raw("handle", 8)
    c.put(h, 8, Ptr(b))
    for o in c.normal(c.run(r"^ctrace_free_owning_string$", [h])):
        c.ensure(o, o.st.mem.get(b.id) is None, "it is released")
        c.ensure(o, c.getp(h, st=o.st).null, "the handle is empty")


@spec("P17", "every frame is converted back, in order", T, secs=120)
def _(c):
    c.common()
    c.keep = True
    eng = c.eng
    h, arr, n, strings = c_frames(c, CF, [24, 32])
    eng.by_invariant.append("cpp_convert")
    tag = eng.fresh_fn("converted", 64)
    et = c.type_like(r"^struct.cpptrace::v1::stacktrace_frame$")
    seen = []

    def one_frame(e, st, a, ins):
        p = a[1]
        e.oblige(st, "a frame of the trace is converted", p.obj is arr)
        k = p.off.div(CF)[0].val()
        e.oblige(st, "within the trace", ult(k, n))
        for off, w in ((8, 8), (16, 4), (20, 4), (88, 1)):
            e.put(st, a[0].add(off), w, e.fresh("other", 8 * w))
        e.put(st, a[0], 8, tag(bv(k, 64)))
        for off in (24, 56):
            models.setstr(e, st, a[0].add(off), e.fresh_str(st, "text"))
    c.contract(r"^ctrace::convert_stacktrace_frame\(ctrace_stacktrace_frame const", one_frame, "converting one frame", discharged="P17: a frame keeps its fields (from C)")
    vec = lambda st: models.getvec(eng, st, Ptr(next(o for o in st.top().allocas if o.name.startswith("new_frames"))), et)
    A = lambda st, j: eng.arr_byte(st.mem[vec(st).obj.id], Lin.of(j).scale(SF_SIZE), 8)

    def one(e, hd, b, ctx):
        seen.append(1)
        k = vec(hd).len
        q = Out("ret", b, None)
        c.ensure(q, eqv(vec(b).len, (Lin.of(k) + 1).val()), "one frame after the other")
        c.ensure(q, eqv(A(b, k), tag(bv(k, 64))), "it is stored")
        j = bv(c.int("other frame"), 64)
        if vec(hd).obj is not None:
            c.ensure(q, Implies(ult(j, k), eqv(A(hd, j), A(b, j))), "the others stay")
    eng.loop_templates.append(lambda e, entry, mods, steps, ctx: [("as many as done", lambda st: eqv(vec(st).len, local(st, "i"))), ("within", lambda st: ule(local(st, "i"), n))])
    eng.loop_steps.append(one)
    for o in c.normal(c.run(r"^ctrace::cpp_convert\(", [h])):
        c.ensure(o, eqv(models.getvec(eng, o.st, o.val, et).len, n), "as many frames")
    if not seen:
        raise Unsupported("no step of the loop was seen")


@spec("P17", "nothing is converted back to nothing", T, secs=30)
def _(c):
    c.common()
    et = c.type_like(r"^struct.cpptrace::v1::stacktrace_frame$")
    h = c.raw("handle", 16)
    c.put(h, 8, NULL)
    c.put(h.add(8), 8, c.int("frames"))
    for p in (NULL, h):
        for o in c.normal(c.run(r"^ctrace::cpp_convert\(", [p])):
            c.ensure(o, eqv(models.getvec(c.eng, o.st, o.val, et).len, 0), "no frames")


# ------------------------------------------------------------------ generating and resolving
def fails(e, st, name):
    if st.decide(e.fresh(name + ".fails", 1)):
        raise engine.Throw("_ZTISt13runtime_error")


def below(c, seen):
    """the library under the interface: each may fail; what is asked of it and what it gives is recorded"""
    eng = c.eng
    RES = {}

    def result(e, st, a, what, es):
        o = st.new_obj(what, 1 << 40, "heap", engine.Arr(es, lambda i, fo, w, ty: e.fresh("field", 8 * w), (), [(0, 8, I64)]))
        n = e.fresh(what + ".size", 64)
        st.assume(ult(n, 1 << 40))
        e.put(st, a[0], 24, Vec(o, n, es))
        RES[what] = (o, n)

    def capture(e, st, a, ins):
        st.ghost["skip"], st.ghost["depth"] = a[1], a[2]
        fails(e, st, "capture_frames")
        f = e.fresh_fn("captured", 64)
        o = st.new_obj("captured", 1 << 40, "heap", engine.Arr(8, lambda i, fo, w, ty: f(bv(i, 64)), (), [(0, 8, I64)]))
        n = e.fresh("captured.size", 64)
        st.assume(ult(n, 1 << 30))
        e.put(st, a[0], 24, Vec(o, n, 8))
        st.ghost["captured"] = (o, n, f)

    def asked(what, es, key):
        def g(e, st, a, ins):
            v = models.getvec(e, st, a[1], I64)
            snap = (st.mem[v.obj.id] if v.obj is not None else None)
            st.ghost[key] = (v.len, (lambda k, arr=snap: e.arr_byte(arr, Lin.of(k).scale(8), 8)))
            fails(e, st, key)
            result(e, st, a, what, es)
            st.ghost["result"] = RES[what]
        return g
    c.contract(r"^cpptrace::v1::detail::capture_frames\(", capture, "capture_frames", discharged="P14")
    c.contract(r"^cpptrace::v1::detail::resolve_frames\(std::vector<unsigned long", asked("resolved", SF_SIZE, "asked"), "resolve_frames", discharged="P15")
    c.contract(r"^cpptrace::v1::detail::get_frames_object_info\(", asked("objects", OF_SIZE, "asked"), "get_frames_object_info", discharged="P22")

    def conv(e, st, a, ins):
        v = models.getvec(e, st, a[-1], I64)
        st.ghost["converted"] = v.obj
        q = st.new_obj("converted", 1 << 40, "heap")
        st.ghost["out"] = (Ptr(q), v.len)
        if len(a) > 1:
            e.put(st, a[0], 8, Ptr(q))
            e.put(st, a[0].add(8), 8, v.len)
            return None
        return (Ptr(q), v.len)
    c.contract(r"^ctrace::c_convert\(", conv, "c_convert", discharged="P17: every frame is converted, in order")


def outcome(c, o, name):
    """the converted result of what was asked for, or the empty handle after a failure"""
    st = o.st
    p, n = pair(c, o)
    if "out" in st.ghost:
        c.ensure(o, st.ghost["converted"] is st.ghost["result"][0], name + ": the result is what is converted")
        c.ensure(o, p.obj is st.ghost["out"][0].obj and p.off.const() == 0, name + ": the converted trace is handed over")
        c.ensure(o, eqv(n, st.ghost["out"][1]), name + ": with its length")
    else:
        c.ensure(o, p.null, name + ": a failure gives the null handle")
        c.ensure(o, eqv(n, 0), name + ": without frames")


for fn, key in (("ctrace_generate_trace", "asked"), ("ctrace_generate_object_trace", "asked")):
    @spec("P17", "%s gives the resolved stack" % fn, T, secs=60)
    def _(c, fn=fn):
        c.common()
        c.keep = True
        below(c, [])
        skip, depth = c.int("skip"), c.int("max_depth")
        c.st.assume(ult(skip, 1 << 63))
        full = 0
        for o in c.normal(c.run("^%s$" % fn, [skip, depth])):
            g = o.st.ghost
            c.ensure(o, eqv(g["skip"], skip + 1), "the interface's own frame is skipped")
            c.ensure(o, eqv(g["depth"], depth), "the depth asked for")
            if "asked" in g:
                n, at = g["asked"]
                k = bv(c.int("k"), 64)
                c.ensure(o, eqv(n, g["captured"][1]), "as many addresses as captured")
                c.ensure(o, Implies(ult(k, n), eqv(at(k), g["captured"][2](k))), "the captured addresses are resolved")
            full += "out" in g
            outcome(c, o, "the trace")
        if not full:
            raise Unsupported("no path converts")


@spec("P17", "ctrace_generate_raw_trace gives the captured addresses", T, secs=60)
def _(c):
    c.common()
    c.keep = True
    below(c, [])
    skip, depth = c.int("skip"), c.int("max_depth")
    c.st.assume(ult(skip, 1 << 63))
    new = result_array(c, 8, [(0, 8, I64)])
    full = 0
    for o in c.normal(c.run("^ctrace_generate_raw_trace$", [skip, depth])):
        g = o.st.ghost
        p, n = pair(c, o)
        c.ensure(o, eqv(g["skip"], skip + 1), "the interface's own frame is skipped")
        c.ensure(o, eqv(g["depth"], depth), "the depth asked for")
        if "captured" in g:
            full += 1
            k = bv(c.int("k"), 64)
            c.ensure(o, eqv(n, g["captured"][1]), "as many addresses as captured")
            c.ensure(o, p.obj in [x[0] for x in new] and p.off.const() == 0, "in an array of its own")
            c.ensure(o, eqv(p.obj.size, Lin.of(n).scale(8).val()), "of that size")
            c.ensure(o, Implies(ult(k, n), eqv(c.eng.arr_byte(o.st.mem[p.obj.id], Lin.of(k).scale(8), 8), g["captured"][2](k))), "the captured addresses")
        else:
            c.ensure(o, p.null and n == 0, "a failure gives the null handle")
    if not full:
        raise Unsupported("no path converts")


for fn, objs in (("ctrace_resolve_raw_trace", False), ("ctrace_resolve_raw_trace_to_object_trace", False), ("ctrace_resolve_object_trace", True)):
    @spec("P17", "%s resolves its addresses" % fn, T, secs=90)
    def _(c, fn=fn, objs=objs):
        c.common()
        c.keep = True
        below(c, [])
        eng = c.eng
        eng.by_invariant.append("std::transform")
        n, f = c.int("frames"), eng.fresh_fn("address", 64)
        c.st.assume(ult(n, 1 << 40))
        es = CO if objs else 8
        arr = c.st.new_obj("handed over", Lin.of(n).scale(es).val(), "heap", engine.Arr(es, lambda i, fo, w, ty: f(bv(i, 64)) if fo == 0 else (eng.fresh("x", 64) if fo == 8 else NULL), (), FO if objs else [(0, 8, I64)]))
        h = c.raw("handle", 16)
        c.put(h, 8, Ptr(arr))
        c.put(h.add(8), 8, n)
        at = lambda st, nm: next((x for x in (local(st, nm), local(st, nm + ".addr")) if x is not None), None)

        def done(st):
            p, r = at(st, "__first"), at(st, "__result")
            if not (isinstance(p, Ptr) and isinstance(r, Ptr) and p.obj is arr):
                return True
            return eqv(p.off.div(es)[0].val(), r.off.div(8)[0].val())

        def sofar(st):
            p, r = at(st, "__first"), at(st, "__result")
            if not (isinstance(p, Ptr) and isinstance(r, Ptr) and p.obj is arr) or r.obj is None:
                return True
            k = p.off.div(es)[0].val()
            a = st.mem[r.obj.id]
            return Forall(lambda j: Implies(ult(j, k), eqv(eng.arr_byte(a, Lin.of(j).scale(8), 8), f(j))), None, "done so far")
        eng.loop_templates.append(lambda e, entry, mods, steps, ctx: [("in step", done), ("done so far", sofar), ("within", lambda st: ule(at(st, "__first").off.div(es)[0].val(), n) if isinstance(at(st, "__first"), Ptr) and at(st, "__first").obj is arr else True)])
        full = 0
        for o in c.normal(c.run("^%s$" % fn, [h])):
            g = o.st.ghost
            if "asked" in g:
                m, get = g["asked"]
                k = bv(c.int("k"), 64)
                c.ensure(o, eqv(m, n), "as many addresses as frames")
                o.st.assume(QUERY(k)) if False else None
                c.ensure(o, Implies(ult(k, n), eqv(get(k), f(k))), "the addresses of the frames")
            full += "out" in g
            outcome(c, o, "the trace")
        if not full:
            raise Unsupported("no path converts")
        for q in (NULL, None):
            if q is None:
                q = c.raw("empty handle", 16)
                c.put(q, 8, NULL)
                c.put(q.add(8), 8, c.int("stale"))
            for o in c.normal(c.run("^%s$" % fn, [q])):
                p, k = pair(c, o)
                c.ensure(o, p.null and k == 0, "resolving nothing gives nothing")
