"""P12: the JIT registry.

State: `objects` (n entries: buffer address, object) and `range_list` (m entries: low, high, buffer address, object), all of them
arbitrary; the invariant is that the ranges are ordered by their low ends, none is empty, and each one's object is the object of an
entry with the same buffer address.  Every operation is run from an arbitrary state; each re-establishes the invariant and changes
the state exactly as the property says, so any history is covered by induction.  std::upper_bound, vector::insert, vector::erase
and std::remove_if are trusted contracts."""
from dv.spec import *

T = [TU("jit/jit_objects.cpp")]
JM = r"^cpptrace::v1::detail::jit_object_manager::"
OE, RE_ = 16, 32


class Reg:
    def __init__(self, c):
        eng = self.eng = c.eng
        self.c = c
        c.common()
        self.low, self.high, self.start, self.objp = (eng.fresh_fn(x, 64) for x in ("low", "high", "range.start", "range.object"))
        self.ostart, self.optr = eng.fresh_fn("object.start", 64), eng.fresh_fn("object.ptr", 64)
        self.m, self.n = c.int("ranges"), c.int("objects")
        for x in (self.m, self.n):
            c.st.assume(ult(x, 1 << 40))
        self.ret = c.type_like(r"jit_object_manager::range_entry")
        self.oet = c.type_like(r"jit_object_manager::object_entry")
        self.mgr = c.raw("manager", 48)
        P = lambda f: (lambda i: f(bv(i, 64)))
        rb = {0: P(self.low), 8: P(self.high), 16: P(self.start), 24: P(self.objp)}
        ob = {0: P(self.ostart), 8: P(self.optr)}
        r = c.st.new_obj("ranges", Lin.of(self.m).scale(RE_).val(), "heap", engine.Arr(RE_, lambda i, fo, w, ty: rb[fo](i), (), models.flatten(self.ret)))
        o = c.st.new_obj("objects", Lin.of(self.n).scale(OE).val(), "heap", engine.Arr(OE, lambda i, fo, w, ty: ob[fo](i), (), models.flatten(self.oet)))
        c.put(self.mgr, 24, Vec(o, self.n, OE))
        c.put(self.mgr.add(24), 24, Vec(r, self.m, RE_))
        c.st.assume(Forall(lambda k: Implies(And(ult(k, self.m), ult(k + 1, self.m)), ule(self.low(k), self.low(k + 1))), {self.low.name()}, "ordered"))
        c.st.assume(Forall(lambda k: Implies(ult(k, self.m), ult(self.low(k), self.high(k))), {self.low.name(), self.high.name()}, "not empty"))

    def ranges(self, st):
        v = models.getvec(self.eng, st, self.mgr.add(24), self.ret)
        return v, (st.mem[v.obj.id] if v.obj is not None else None)

    def objects(self, st):
        v = models.getvec(self.eng, st, self.mgr, self.oet)
        return v, (st.mem[v.obj.id] if v.obj is not None else None)

    def f(self, a, es, k, off):
        return bv(self.eng.arr_byte(a, Lin.of(k).scale(es) + off, 8), 64)

    def r(self, a, k, off):
        return self.f(a, RE_, k, off)


# ------------------------------------------------------------------ lookup
@spec("P12", "lookup finds the range that holds the address, or nothing", T)
def _(c):
    w = Reg(c)
    pc = c.int("pc")
    j = c.int("any range")
    c.st.assume(ult(j, w.m))
    # the ordering of neighbours gives the ordering of any two (lemma below); live code does not overlap
    c.st.assume(Forall(lambda k: Implies(And(ult(k, w.m), ule(k, j)), ule(w.low(k), w.low(j))), {w.low.name()}, "ordered"))
    c.st.assume(Forall(lambda k: Implies(And(ult(k, w.m), ule(j, k)), ule(w.low(j), w.low(k))), {w.low.name()}, "ordered"))
    c.st.assume(Forall(lambda k: Implies(And(ult(k, w.m), Not(eqv(k, j))), Or(ule(w.high(k), w.low(j)), ule(w.high(j), w.low(k)))), {w.low.name(), w.high.name()}, "disjoint"))
    holds = And(ule(w.low(j), pc), ult(pc, w.high(j)))
    for o in c.normal(c.run(JM + r"lookup\(unsigned long\) const$", [w.mgr, pc])):
        some = truth(c.get(o.val.add(16), 1, st=o.st))
        c.ensure(o, Implies(holds, some), "an address in a registered range is found")
        for st, found in cases(c, o, some):
            if not found:
                continue
            q = Out("ret", st, o.val)
            obj, base = c.get(o.val, 8, st=st), c.get(o.val.add(8), 8, st=st)
            c.ensure(q, Implies(holds, And(eqv(obj, w.objp(j)), eqv(base, w.low(j)))), "it is the object of that range, with its start")
            b = st.ghost.get("bound")
            c.ensure(q, b is not None, "a range was looked for")
            if b is not None:
                k = bv((Lin.of(b) - 1).val(), 64)
                c.ensure(q, And(ult(k, w.m), ule(w.low(k), pc), ult(pc, w.high(k)), eqv(obj, w.objp(k)), eqv(base, w.low(k))), "what is found holds the address")


@spec("P12", "nothing is found in an empty registry", T)
def _(c):
    w = Reg(c)
    c.st.assume(eqv(w.m, 0))
    for o in c.normal(c.run(JM + r"lookup\(unsigned long\) const$", [w.mgr, c.int("pc")])):
        c.ensure(o, Not(truth(c.get(o.val.add(16), 1, st=o.st))), "nothing")
    for o in c.normal(c.run(JM + r"clear_all_jit_objects\(\)$", [Reg(c).mgr])):
        pass


@spec("P12", "lemma: neighbours in order are all in order", T)
def _(c):
    w = Reg(c)
    a, b = c.int("a"), c.int("b")
    # induction on b: the step
    c.st.assume(And(ule(a, b), ult(b, w.m), ult(bv(b, 64) + 1, w.m)))
    c.st.assume(ule(w.low(a), w.low(b)))
    c.ensure(Out("ret", c.st, None), ule(w.low(a), w.low(bv(b, 64) + 1)), "the order carries over to the next range")


# ------------------------------------------------------------------ unregistering
@spec("P12", "unregistering removes all and only what the buffer registered", T)
def _(c):
    w = Reg(c)
    ptr = c.int("buffer")
    wit = c.eng.fresh_fn("entry of", 64)
    c.st.assume(Forall(lambda k: Implies(ult(k, w.m), And(ult(wit(k), w.n), eqv(w.ostart(wit(k)), w.start(k)), eqv(w.optr(wit(k)), w.objp(k)))), {w.start.name(), w.objp.name()}, "each range's object is registered"))
    for o in c.normal(c.run(JM + r"remove_jit_object\(char const\*\)$", [w.mgr, ptr])):
        rv, ra = w.ranges(o.st)
        ov, oa = w.objects(o.st)
        rem = {x[0]: x for x in o.st.ghost.get("remove_if", ())}
        if rv.obj is None or rv.obj.id not in rem or ov.obj is None or ov.obj.id not in rem:
            raise Unsupported("removal is not a filter")
        _, _, rf, rt = rem[rv.obj.id]
        _, _, of, ot = rem[ov.obj.id]
        # kept: an arbitrary old one of another buffer
        j = c.int("any old range")
        c.ensure(o, Implies(And(ult(j, w.m), Not(eqv(w.start(j), ptr))), And(ult(rt(bv(j, 64)), rv.len),
            *[eqv(w.r(ra, rt(bv(j, 64)), off), fn(bv(j, 64))) for off, fn in ((0, w.low), (8, w.high), (16, w.start), (24, w.objp))])), "ranges of other buffers stay as they were")
        j = c.int("any old object")
        c.ensure(o, Implies(And(ult(j, w.n), Not(eqv(w.ostart(j), ptr))), And(ult(ot(bv(j, 64)), ov.len),
            *[eqv(w.f(oa, OE, ot(bv(j, 64)), off), fn(bv(j, 64))) for off, fn in ((0, w.ostart), (8, w.optr))])), "objects of other buffers stay")
        k = bv(c.int("any new range"), 64)
        inr = ult(k, rv.len)
        c.ensure(o, Implies(inr, Not(eqv(w.r(ra, k, 16), ptr))), "no range of the buffer is left")
        c.ensure(o, Implies(inr, And(ult(rf(k), w.m), *[eqv(w.r(ra, k, off), fn(rf(k))) for off, fn in ((0, w.low), (8, w.high), (16, w.start), (24, w.objp))])), "no range is made up")
        c.ensure(o, Implies(inr, ult(w.r(ra, k, 0), w.r(ra, k, 8))), "no range is empty")
        # the map from new to old positions is increasing, so the order is kept (lemma: neighbours)
        i2 = rf(k + 1)
        st = o.st.copy()
        st.assume(And(ult(k, rv.len), ult(k + 1, rv.len)))
        st.assume(Implies(And(ule(rf(k), i2), ult(i2, w.m)), ule(w.low(rf(k)), w.low(i2))))
        c.ensure(Out("ret", st, None), ule(w.r(ra, k, 0), w.r(ra, k + 1, 0)), "the ranges stay in order")
        # and its object is still registered: position of the entry it had
        e = ot(wit(rf(k)))
        c.ensure(o, Implies(inr, And(ult(e, ov.len), eqv(w.f(oa, OE, e, 0), w.r(ra, k, 16)), eqv(w.f(oa, OE, e, 8), w.r(ra, k, 24)))), "the object of every range left is still registered")
        e = bv(c.int("any new object"), 64)
        c.ensure(o, Implies(ult(e, ov.len), Not(eqv(w.f(oa, OE, e, 0), ptr))), "no object of the buffer is left")


@spec("P12", "clearing empties the registry", T)
def _(c):
    w = Reg(c)
    for o in c.normal(c.run(JM + r"clear_all_jit_objects\(\)$", [w.mgr])):
        c.ensure(o, And(eqv(w.ranges(o.st)[0].len, 0), eqv(w.objects(o.st)[0].len, 0)), "no ranges and no objects")


# ------------------------------------------------------------------ registering
def opened(c, w, ok, readable):
    """elf::open and get_pc_ranges, whatever they answer"""
    g = c.st.ghost
    g.update(opens=0, asks=0)
    w.cnt = c.int("text sections")
    c.st.assume(ult(w.cnt, 1 << 40))
    w.nlow, w.nhigh = c.eng.fresh_fn("new.low", 64), c.eng.fresh_fn("new.high", 64)
    w.newobj = c.int("new object")
    R = r"^cpptrace::v1::detail::Result<cpptrace::v1::detail::elf, cpptrace::v1::detail::internal_error, 0>::"
    RV = r"^cpptrace::v1::detail::Result<std::vector<cpptrace::v1::detail::elf::pc_range.*, cpptrace::v1::detail::internal_error, 0>::"

    def open_(eng, st, a, ins):
        st.ghost["opens"] += 1
        st.ghost["opened"] = (a[1], a[2])
    c.contract(r"^cpptrace::v1::detail::elf::open\(cpptrace::v1::detail::span<char const>\)", open_, "elf::open (P10: an answer or an error)")
    elfobj = c.raw("opened elf", 4096)
    c.model(R + r"(is_error\(\) const|has_value\(\) const)$", lambda eng, st, a, ins: (not ok) if "is_error" in eng.prog.dem(ins.a["fn"][1]) else ok)
    c.model(R + r"drop_error\(\) const$|" + R + r"~Result\(\)$|" + RV + r"drop_error\(\) const$|" + RV + r"~Result\(\)$", lambda eng, st, a, ins: None)
    c.model(R + r"unwrap_value\(\) &&$", lambda eng, st, a, ins: elfobj)
    c.model(r"^std::enable_if<.*elf>::value, std::unique_ptr<.*> >::type cpptrace::v1::detail::make_unique<cpptrace::v1::detail::elf", lambda eng, st, a, ins: eng.put(st, a[0], 8, w.newobj))
    c.model(JM + r"object_entry::~object_entry\(\)$", lambda eng, st, a, ins: None)
    c.model(r"^cpptrace::v1::detail::elf::(~elf\(\)|elf\(cpptrace::v1::detail::elf&&\))$", lambda eng, st, a, ins: None)
    c.model(r"^std::unique_ptr<cpptrace::v1::detail::elf.*::get\(\) const$", lambda eng, st, a, ins: eng.raw_load(st, a[0], 8, ir.I64))
    c.model(r"^std::unique_ptr<cpptrace::v1::detail::elf.*::~unique_ptr\(\)$", lambda eng, st, a, ins: None)
    c.model(r"^cpptrace::v1::detail::(should_absorb_trace_exceptions\(\))$", lambda eng, st, a, ins: eng.fresh("absorb", 1))
    pet = c.type_like(r"elf::pc_range")
    vec = c.raw("new ranges", 24)

    def ask(eng, st, a, ins):
        st.ghost["asks"] += 1
        eng.oblige(st, "the ranges of the object just opened", eqv(eng.ptrtoint(a[1]) if isinstance(a[1], Ptr) else a[1], w.newobj))
        fb = {0: w.nlow, 8: w.nhigh}
        o = st.new_obj("pc_ranges", Lin.of(w.cnt).scale(16).val(), "heap", engine.Arr(16, lambda i, fo, ww, ty: fb[fo](bv(i, 64)), (), models.flatten(pet)))
        eng.put(st, vec, 24, Vec(o, w.cnt, 16))
    c.contract(r"^cpptrace::v1::detail::elf::get_pc_ranges\(\)$", ask, "elf::get_pc_ranges (P11)")
    c.model(RV + r"(is_error\(\) const|has_value\(\) const)$", lambda eng, st, a, ins: (not readable) if "is_error" in eng.prog.dem(ins.a["fn"][1]) else readable)
    c.model(RV + r"unwrap_value\(\) &$", lambda eng, st, a, ins: vec)


ADD = JM + r"add_jit_object\("


def unchanged_ranges(c, o, w, what):
    rv, ra = w.ranges(o.st)
    k = bv(c.int("k"), 64)
    c.ensure(o, And(eqv(rv.len, w.m), Implies(ult(k, w.m), And(*[eqv(w.r(ra, k, off), fn(k)) for off, fn in ((0, w.low), (8, w.high), (16, w.start), (24, w.objp))]))), what)


@spec("P12", "registering an object that cannot be opened changes nothing", T)
def _(c):
    w = Reg(c)
    opened(c, w, False, False)
    for o in c.normal(c.run(ADD, [w.mgr, c.raw("buffer", 64), c.int("size")])):
        unchanged_ranges(c, o, w, "no range is added")
        ov, oa = w.objects(o.st)
        c.ensure(o, eqv(ov.len, w.n), "no object is added")


@spec("P12", "registering an object whose ranges cannot be read adds no range", T)
def _(c):
    w = Reg(c)
    opened(c, w, True, False)
    for o in c.normal(c.run(ADD, [w.mgr, c.raw("buffer", 64), c.int("size")])):
        unchanged_ranges(c, o, w, "no range is added")


@spec("P12", "registering adds the object and each of its ranges that is not empty", T)
def _(c):
    w = Reg(c)
    opened(c, w, True, True)
    buf, size = c.raw("buffer", 64), c.int("size")
    c.st.ghost.update({"bound": c.int("bound"), "insert.pos": c.int("pos")})
    addr = c.eng.ptrtoint(buf)
    fns = ((0, w.low), (8, w.high), (16, w.start), (24, w.objp))

    def tmpl(eng, entry, mods, steps, ctx):
        if "add_jit_object" not in ctx.fn.dem:
            return []

        def ordered(st):
            v, a = w.ranges(st)
            if a is None:
                return True
            return Forall(lambda k: Implies(And(ult(k, v.len), ult(k + 1, v.len)), And(ule(w.r(a, k, 0), w.r(a, k + 1, 0)))), None, "ordered")

        def nonempty(st):
            v, a = w.ranges(st)
            if a is None:
                return True
            return Forall(lambda k: Implies(ult(k, v.len), ult(w.r(a, k, 0), w.r(a, k, 8))), None, "not empty")
        return [("ranges in order", ordered), ("no empty range", nonempty)]
    c.eng.loop_templates.append(tmpl)
    seen = []

    def one(eng, h, b, ctx):
        if "add_jit_object" not in ctx.fn.dem:
            return
        seen.append(1)
        pos = lambda st: [o for o in st.top().allocas if o.name.split("!")[0].split("#")[0].rstrip("0123456789") == "__begin"]
        it = lambda st: st.mem[pos(st)[0].id].d[0][1].off.div(16)[0].val()
        i, i2 = it(h), it(b)
        I = bv(i, 64)
        q = Out("ret", b, None)
        c.ensure(q, eqv(i2, I + 1), "one range after the other")
        (hv, ha), (bv_, ba) = w.ranges(h), w.ranges(b)
        empty = ule(w.nhigh(I), w.nlow(I))
        for st, e in cases(c, q, empty):
            q2 = Out("ret", st, None)
            k = bv(c.int("k"), 64)
            if e:
                c.ensure(q2, eqv(bv_.len, hv.len), "an empty range is not added")
                c.ensure(q2, Implies(ult(k, hv.len), And(*[eqv(w.r(ba, k, f), w.r(ha, k, f)) for f, _ in fns])), "and changes nothing")
                continue
            p = st.ghost.get("insert.pos")
            c.ensure(q2, p is not None, "the range is inserted")
            if p is None:
                continue
            c.ensure(q2, eqv(bv_.len, bv(hv.len, 64) + 1), "one range more")
            P = bv(p, 64)
            c.ensure(q2, And(ule(P, hv.len), eqv(w.r(ba, P, 0), w.nlow(I)), eqv(w.r(ba, P, 8), w.nhigh(I)), eqv(w.r(ba, P, 16), addr), eqv(w.r(ba, P, 24), w.newobj)), "the new range, of the new object")
            c.ensure(q2, Implies(And(ult(k, P), ult(k, hv.len)), And(*[eqv(w.r(ba, k, f), w.r(ha, k, f)) for f, _ in fns])), "the ranges before it stay")
            c.ensure(q2, Implies(And(ule(P, k), ult(k, hv.len)), And(*[eqv(w.r(ba, k + 1, f), w.r(ha, k, f)) for f, _ in fns])), "the ranges behind it stay")
    c.eng.loop_steps.append(one)
    for o in c.normal(c.run(ADD, [w.mgr, buf, size])):
        c.ensure(o, o.st.ghost["opens"] == 1 and o.st.ghost["asks"] == 1, "opened once")
        p, s = o.st.ghost["opened"]
        c.ensure(o, isinstance(p, Ptr) and p.obj is buf.obj and eqv(s, size), "the buffer given is opened")
        ov, oa = w.objects(o.st)
        k = bv(c.int("k"), 64)
        c.ensure(o, eqv(ov.len, bv(w.n, 64) + 1), "one object more")
        rv, ra = w.ranges(o.st)
        if ra is not None:
            c.ensure(o, Implies(And(ult(k, rv.len), ult(k + 1, rv.len)), ule(w.r(ra, k, 0), w.r(ra, k + 1, 0))), "the ranges are in order")
            c.ensure(o, Implies(ult(k, rv.len), ult(w.r(ra, k, 0), w.r(ra, k, 8))), "no range is empty")
        c.ensure(o, Implies(ult(k, w.n), And(eqv(w.f(oa, OE, k, 0), w.ostart(k)), eqv(w.f(oa, OE, k, 8), w.optr(k)))), "the other objects stay")
        N = bv(w.n, 64)
        c.ensure(o, And(eqv(w.f(oa, OE, N, 0), addr), eqv(w.f(oa, OE, N, 8), w.newobj)), "the new object is kept for the buffer")
    if not seen:
        raise Unsupported("no step of the loop over the ranges was seen")


# ------------------------------------------------------------------ the functions in front
for fn, tgt in (("register_jit_object(char const*, unsigned long)", "add_jit_object"), ("unregister_jit_object(char const*)", "remove_jit_object"), ("clear_all_jit_objects()", "clear_all_jit_objects"), ("lookup_jit_object(unsigned long)", "lookup")):
    @spec("P12", "%s uses the one registry" % fn.split("(")[0], T)
    def _(c, fn=fn, tgt=tgt):
        c.common()
        mgr = c.raw("manager", 48)
        c.contract(r"^cpptrace::v1::detail::get_jit_object_manager\(\)$", lambda eng, st, a, ins: mgr, "get_jit_object_manager (a function-local static)")
        c.st.ghost["calls"] = ()

        def call(eng, st, a, ins):
            st.ghost["calls"] += (tuple(a),)
        c.contract(JM + tgt + r"\(", call, tgt, discharged="above")
        buf, size, pc = c.raw("buffer", 64), c.int("size"), c.int("pc")
        args = {"add_jit_object": [buf, size], "remove_jit_object": [buf], "clear_all_jit_objects": [], "lookup": [pc]}[tgt]
        for o in c.normal(c.run(r"^cpptrace::v1::detail::" + re.escape(fn) + "$", args)):
            k = o.st.ghost["calls"]
            c.ensure(o, len(k) == 1, "called once")
            for a in k:
                a = list(a)[1:] if tgt == "lookup" else list(a)
                c.ensure(o, isinstance(a[0], Ptr) and a[0].obj is mgr.obj, "the registry")
                for x, y in zip(a[1:], args):
                    c.ensure(o, x.obj is y.obj if isinstance(y, Ptr) else eqv(x, y), "with the arguments given")
