"""P14: capturing.

The stack is an arbitrary sequence of m frames, each with an arbitrary instruction pointer and an arbitrary mark saying whether the
frame was interrupted; frame 0 is capture_frames itself (the functions that count frames are never inlined).  _Unwind_Backtrace is
the loop of the ABI document (probes/backtrace.cpp) around the real callback; libunwind's cursor and backtrace() are contracts."""
from dv.spec import *

BIG = (1 << 64) - 16       # skips from here on wrap around: listed as a known finding


class Stack:
    def __init__(self, c):
        eng = c.eng
        self.c = c
        c.common()
        self.m = c.int("stack depth")
        c.st.assume(And(ult(0, self.m), ult(self.m, 1 << 30)))
        self.ip, self.intr = eng.fresh_fn("ip", 64), eng.fresh_fn("interrupted", 8)
        self.s, self.max = c.int("skip"), c.int("max_depth")
        c.st.assume(ult(self.s, BIG))
        self.S1 = (Lin.of(self.s) + 1).val()
        self.ctx = c.st.new_obj("context", 1 << 40, "input")
        c.st.ghost["i"] = 0

    def is_intr(self, k):
        return Not(eqv(self.intr(bv(k, 64)), 0, 8))

    def addr(self, k):
        """the address of frame k: inside the call instruction for a return address, exact for an interrupted frame"""
        p = self.ip(bv(k, 64))
        return z3.If(self.is_intr(k), p, p - 1)

    def null(self, k):
        """frame k has a null address (a return address of 0, or of 1 after the adjustment, ends the trace too)"""
        p = self.ip(bv(k, 64))
        return Or(p == 0, And(Not(self.is_intr(k)), p == 1, ule(self.S1, k)))

    def live(self, st, n, what="frames so far"):
        return Forall(lambda k: Implies(ult(k, n), Not(self.null(k))), {self.ip.name()}, what)

    def template(self, nulls=True):
        w = self

        def tmpl(eng, entry, mods, steps, ctx):
            r = []
            i = lambda st: st.ghost["i"]
            got = lambda st: z3.If(ult(w.S1, i(st)), bv(i(st), 64) - bv(w.S1, 64), z3.BitVecVal(0, 64))
            r.append(("within the stack", lambda st: ule(i(st), w.m) if nulls else ult(i(st), w.m)))
            if nulls:
                r.append(("no null address so far", lambda st: w.live(st, i(st))))
            r.append(("below the maximum depth", lambda st: Or(eqv(i(st), 0), ult(got(st), w.max))))
            for md in mods:
                if len(md) == 3 and isinstance(md[1], int):
                    x = entry.mem[md[0]].d.get(md[1])
                    if x is None:
                        continue
                    get = lambda st, md=md: st.mem[md[0]].d[md[1]][1]
                    if isinstance(x[1], Vec):
                        r.append(("one address per frame behind the skipped ones", lambda st, get=get: eqv(get(st).len, got(st))))

                        def same(st, get=get):
                            v = get(st)
                            a = st.mem[v.obj.id] if v.obj is not None else None
                            if not isinstance(a, engine.Arr):
                                return isc(v.len) and v.len == 0
                            return Forall(lambda k: Implies(ult(k, v.len), eqv(w.elem(a, k), w.addr(bv(k, 64) + bv(w.S1, 64)))), None, "addresses")
                        r.append(("the addresses of those frames in order", same))
                    elif md[2] == 8:
                        r.append(("frames left to skip", lambda st, get=get: eqv(get(st), z3.If(ult(i(st), w.S1), bv(w.S1, 64) - bv(i(st), 64), z3.BitVecVal(0, 64)))))
            return r
        self.c.eng.loop_templates.append(tmpl)

    def elem(self, a, k):
        return self.c.eng.arr_byte(a, Lin.of(k).scale(8), 8)

    def check(self, o, p, visible, limit, addr=None):
        """the trace at p is the frames behind the skipped ones, `limit` at most, out of the first `visible`"""
        c, w = self.c, self
        addr = addr or self.addr
        v = models.getvec(c.eng, o.st, p, ir.I64)
        behind = z3.If(ult(w.S1, visible), bv(visible, 64) - bv(w.S1, 64), z3.BitVecVal(0, 64))
        want = z3.If(ult(behind, limit), behind, bv(limit, 64))
        c.ensure(o, eqv(v.len, want), "exactly the frames behind the skipped ones, up to the maximum depth")
        if v.obj is not None:
            a = o.st.mem[v.obj.id]
            if not isinstance(a, engine.Arr):
                raise Unsupported("layout of the trace")
            c.ensure(o, Forall(lambda k: Implies(ult(k, v.len), eqv(w.elem(a, k), addr(bv(k, 64) + bv(w.S1, 64)))), None, "trace"),
                     "in order and without gaps, each address inside its call instruction")


def unwind_env(c, w):
    def nxt(eng, st, a, ins):
        i = st.ghost["i"]
        if st.decide(ult(i, w.m)):
            st.ghost["i"] = (Lin.of(i) + 1).val()
            return Ptr(w.ctx, Lin.of(i))
        return NULL

    def at(p):
        if not isinstance(p, Ptr) or p.obj is not w.ctx:
            raise Unsupported("context %r" % (p,))
        return bv(p.off.val(), 64)

    def getip(eng, st, a, ins):
        return w.ip(at(a[0]))

    def getipinfo(eng, st, a, ins):
        k = at(a[0])
        eng.put(st, a[1], 4, z3.If(w.is_intr(k), z3.BitVecVal(1, 32), z3.BitVecVal(0, 32)))
        return w.ip(k)
    c.model(r"^env_next_frame$", nxt)
    c.model(r"^_Unwind_GetIP$", getip)
    c.model(r"^_Unwind_GetIPInfo$", getipinfo)


@spec("P14", "capture_frames with _Unwind", [TU("unwind/unwind_with_unwind.cpp"), TU("probe:backtrace")], secs=120)
def _(c):
    w = Stack(c)
    unwind_env(c, w)
    w.template()
    # the first frame with a null address, or the depth of the stack
    z = c.int("visible frames")
    c.st.assume(ule(z, w.m))
    c.st.assume(w.live(c.st, z, "frames before the end have an address"))
    c.st.assume(Or(eqv(z, w.m), w.null(z)))
    for o in c.normal(c.run(r"^cpptrace::v1::detail::capture_frames\(", [w.s, w.max])):
        w.check(o, o.val, z, w.max)


UNW = r"^_U(L|)x86_64_"


@spec("P14", "capture_frames with libunwind", [TU("unwind/unwind_with_libunwind.cpp", defs=("CPPTRACE_UNWIND_WITH_LIBUNWIND",), drop=("CPPTRACE_UNWIND_WITH_UNWIND",))], secs=120)
def _(c):
    w = Stack(c)
    lib(c, w)
    w.template(nulls=False)
    for o in c.normal(c.run(r"^cpptrace::v1::detail::capture_frames\(", [w.s, w.max])):
        w.check(o, o.val, w.m, w.max)


def lib(c, w):
    """libunwind's cursor: at frame i; stepping fails at the end of the stack"""
    def getreg(eng, st, a, ins):
        eng.put(st, a[2], 8, w.ip(bv(st.ghost["i"], 64)) if isc(a[1]) and a[1] == 16 else eng.fresh("reg", 64))
        return 0

    def step(eng, st, a, ins):
        i = (Lin.of(st.ghost["i"]) + 1).val()
        if st.decide(ult(i, w.m)):
            st.ghost["i"] = i
            return 1
        # at the end: 0, or a negative error code
        st.ghost["i"] = w.m
        r = eng.fresh("step", 32)
        st.assume(r <= 0)
        return r

    def sig(eng, st, a, ins):
        return z3.If(w.is_intr(st.ghost["i"]), z3.BitVecVal(1, 32), z3.BitVecVal(0, 32))
    c.model(UNW + r"getcontext$|^getcontext$", lambda eng, st, a, ins: 0)
    c.model(UNW + r"init_local$", lambda eng, st, a, ins: 0)
    c.model(UNW + r"get_reg$", getreg)
    c.model(UNW + r"step$", step)
    c.model(UNW + r"is_signal_frame$", sig)


@spec("P14", "safe_capture_frames with libunwind", [TU("unwind/unwind_with_libunwind.cpp", defs=("CPPTRACE_UNWIND_WITH_LIBUNWIND",), drop=("CPPTRACE_UNWIND_WITH_UNWIND",))], secs=120)
def _(c):
    w = Stack(c)
    lib(c, w)
    size = c.int("size")
    c.st.assume(ult(size, 1 << 40))
    buf = Ptr(c.st.new_obj("buffer", Lin.of(size).scale(8).val(), "input", models.elem_arr(c.eng, ir.I64)))

    def tmpl(eng, entry, mods, steps, ctx):
        i = lambda st: bv(st.ghost["i"], 64)
        got = lambda st: z3.If(ult(w.S1, i(st)), i(st) - bv(w.S1, 64), z3.BitVecVal(0, 64))
        r = [("within the stack", lambda st: ult(i(st), w.m))]

        def same(st):
            a = st.mem[buf.obj.id]
            return Forall(lambda k: Implies(ult(k, got(st)), eqv(w.elem(a, k), w.addr(k + bv(w.S1, 64)))), None, "addresses")
        r.append(("the addresses of those frames in order", same))
        r.append(("fits", lambda st: And(ule(got(st), size), ule(got(st), w.max))))
        for md in mods:
            if len(md) == 3 and isinstance(md[1], int) and md[2] == 8:
                get = lambda st, md=md: st.mem[md[0]].d[md[1]][1]
                r.append(("frames left to skip", lambda st, get=get: eqv(get(st), z3.If(ult(i(st), w.S1), bv(w.S1, 64) - i(st), z3.BitVecVal(0, 64)))))
                r.append(("frames stored", lambda st, get=get: eqv(get(st), got(st))))
        return r
    c.eng.loop_templates.append(tmpl)
    behind = z3.If(ult(w.S1, w.m), bv(w.m, 64) - bv(w.S1, 64), z3.BitVecVal(0, 64))
    for o in c.normal(c.run(r"^cpptrace::v1::detail::safe_capture_frames\(", [buf, size, w.s, w.max])):
        want = behind
        for lim in (size, w.max):
            want = z3.If(ult(want, lim), want, bv(lim, 64))
        c.ensure(o, eqv(o.val, want), "as many frames as are there, fit and are asked for")
        a = o.st.mem[buf.obj.id]
        c.ensure(o, Forall(lambda k: Implies(ult(k, o.val), eqv(w.elem(a, k), w.addr(bv(k, 64) + bv(w.S1, 64)))), None, "trace"),
                 "in order and without gaps, each address inside its call instruction")


HARD = 400


@spec("P14", "capture_frames with execinfo", [TU("unwind/unwind_with_execinfo.cpp", defs=("CPPTRACE_UNWIND_WITH_EXECINFO",), drop=("CPPTRACE_UNWIND_WITH_UNWIND",))], secs=120)
def _(c):
    w = Stack(c)

    def backtrace(eng, st, a, ins):
        n = a[1]
        eng.oblige(st, "the buffer size fits backtrace()", bv(n, 32) >= 0)
        n64 = z3.ZeroExt(32, bv(n, 32))
        eng.ptr_ok(st, a[0], Lin.of(n64).scale(8).val(), "backtrace: the buffer holds the size given")
        r = z3.If(ult(w.m, n64), bv(w.m, 64), n64)
        if a[0].null or st.must(eqv(n, 0, 32)):
            return 0
        o, off, wb = eng.view(st, a[0])
        if not isinstance(o, engine.Arr):
            raise Unsupported("backtrace buffer")
        wb(o.with_ov(("bulk", off.div(8)[0], r, lambda rel, fo, ww, ty: w.ip(bv(rel, 64)))))
        return simp(z3.Extract(31, 0, r))
    c.model(r"^backtrace$", backtrace)

    def tmpl(eng, entry, mods, steps, ctx):
        # addresses already copied
        r = []
        iv = [lambda st, md=md: st.mem[md[0]].d[md[1]][1] for md in mods if len(md) == 3 and isinstance(md[1], int) and md[2] in (4, 8)]
        for i in iv:
            i64 = lambda st, i=i: z3.ZeroExt(32, bv(i(st), 32)) if z3.is_expr(i(st)) and i(st).size() == 32 else bv(i(st), 64)
            r.append(("behind the skipped frames", lambda st, i64=i64: ule(w.S1, i64(st))))
            for ob in {md[0] for md in mods if len(md) == 2 and md[1] == "all"}:
                def same(st, i64=i64, ob=ob):
                    a = st.mem[ob]
                    return Forall(lambda k: Implies(ult(bv(k, 64) + bv(w.S1, 64), i64(st)), Implies(ult(k, 1 << 31), eqv(w.elem(a, k), w.ip(bv(k, 64) + bv(w.S1, 64)) - 1))), None, "addresses")
                r.append(("addresses copied so far", same))
        return r
    c.eng.loop_templates.append(tmpl)
    lim = z3.If(ult(w.max, HARD), bv(w.max, 64), z3.BitVecVal(HARD, 64))
    for o in c.normal(c.run(r"^cpptrace::v1::detail::capture_frames\(", [w.s, w.max])):
        for st, huge in cases(c, o, ult((1 << 31) - 1 - HARD, w.S1)):
            w.check(Out("ret", st, o.val), o.val, w.m, lim, addr=lambda k: w.ip(k) - 1)


# ------------------------------------------------------------------ the entry points
SIZE_MAX = (1 << 64) - 1
ENTRY = [("generate_raw_trace", 0, "unsigned long"), ("generate_raw_trace", 1, "unsigned long, unsigned long")]
CAP = r"^cpptrace::v1::detail::capture_frames\("


def captured(c, fail):
    c.common()
    skip, mx = c.int("skip"), c.int("max_depth")
    c.st.assume(ult(skip, BIG))
    c.st.ghost["cap"] = ()
    n = c.int("captured")
    c.st.assume(ult(n, 1 << 40))
    ad = c.eng.fresh_fn("captured address", 64)

    def cap(eng, st, a, ins):
        if fail:
            st.ghost["cap"] += ((a[1], a[2], None),)
            raise engine.Throw("_ZTISt9bad_alloc")
        o = st.new_obj("frames", Lin.of(n).scale(8).val(), "heap", engine.Arr(8, lambda i, fo, w, ty: ad(bv(i, 64)), (), models.flatten(ir.I64)))
        st.ghost["cap"] += ((a[1], a[2], o.id),)
        models.setvec(eng, st, a[0], Vec(o, n, 8))
    c.contract(CAP, cap, "capture_frames", discharged="capture_frames with")
    c.st.ghost["logged"] = 0

    def logged(eng, st, a, ins):
        st.ghost["logged"] += 1
    c.contract(r"detail::log_and_maybe_propagate_exception\(", logged, "log_and_maybe_propagate_exception (proved in P20)")
    c.model(r"^std::current_exception\(\)$", lambda eng, st, a, ins: None)
    c.model(r"^std::__exception_ptr::exception_ptr::~exception_ptr\(\)$", lambda eng, st, a, ins: None)
    return skip, mx


def asked(c, o, skip, mx, depth):
    k = o.st.ghost["cap"]
    c.ensure(o, len(k) == 1, "the stack is captured once")
    for s, m, _ in k[:1]:
        c.ensure(o, eqv(s, (Lin.of(skip) + depth).val()), "the frames of the library itself are skipped, and those asked for")
        c.ensure(o, eqv(m, SIZE_MAX if mx is None else mx), "up to the maximum depth")


for kind in ("generate_raw_trace", "raw_trace::current"):
    for two in (False, True):
        for fail in (False, True):
            @spec("P14", "%s(%s)%s" % (kind, "skip, max_depth" if two else "skip", ", capturing fails" if fail else ""), [TU("cpptrace.cpp")])
            def _(c, kind=kind, two=two, fail=fail):
                skip, mx = captured(c, fail)
                fn = r"^cpptrace::v1::%s\(unsigned long%s\)$" % (kind, ", unsigned long" if two else "")
                for o in c.normal(c.run(fn, [skip] + ([mx] if two else []))):
                    asked(c, o, skip, mx if two else None, 2 if "current" in kind else 1)
                    v = models.getvec(c.eng, o.st, o.val, ir.I64)
                    if fail:
                        c.ensure(o, eqv(v.len, 0), "an empty trace")
                        c.ensure(o, o.st.ghost["logged"] == 1, "the failure is reported once")
                    else:
                        c.ensure(o, v.obj is not None and v.obj.id == o.st.ghost["cap"][0][2], "the trace is what was captured")
                        c.ensure(o, o.st.ghost["logged"] == 0, "no failure is reported")


for two in (False, True):
    @spec("P14", "safe_generate_raw_trace(buffer, size, skip%s)" % (", max_depth" if two else ""), [TU("cpptrace.cpp")])
    def _(c, two=two):
        skip, mx = captured(c, False)
        buf = c.raw("buffer", 800)
        size = c.int("size")
        ret = c.int("stored")

        def safe(eng, st, a, ins):
            st.ghost["safe"] = (a[0].obj.id, a[1], a[2], a[3])
            return ret
        c.contract(r"detail::safe_capture_frames\(", safe, "safe_capture_frames", discharged="safe_capture_frames with")
        fn = r"^cpptrace::v1::safe_generate_raw_trace\(unsigned long\*, unsigned long, unsigned long%s\)$" % (", unsigned long" if two else "")
        for o in c.normal(c.run(fn, [buf, size, skip] + ([mx] if two else []))):
            b, n, s, m = o.st.ghost["safe"]
            c.ensure(o, And(b == buf.obj.id, eqv(n, size)), "the caller's buffer and size")
            c.ensure(o, eqv(s, (Lin.of(skip) + 1).val()), "the frames of the library itself are skipped, and those asked for")
            c.ensure(o, eqv(m, SIZE_MAX if not two else mx), "up to the maximum depth")
            c.ensure(o, eqv(o.val, ret), "the number of addresses stored")
