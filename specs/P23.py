from dv.spec import *

U = ["probe:utils"]


def rev_bytes(x, n):
    w = 8 * n
    return x if n == 1 else z3.Concat(*[z3.Extract(8 * i + 7, 8 * i, x) for i in range(n)])


for sg in "ui":
    for w in (8, 16, 32, 64):
        @spec("P23", "byteswap<%sint%d_t> reverses the bytes and is its own inverse" % ("u" if sg == "u" else "", w), U)
        def _(c, w=w, sg=sg):
            x = c.int("value", w)
            f = c.fn(r"^probe::bswap_%s%d\(" % (sg, w))
            for o in c.normal(c.run(f, [x])):
                c.ensure(o, bv(o.val, w) == rev_bytes(x, w // 8), "result is the byte reversal")
                for o2 in c.normal(c.run(f, [o.val], o.st)):
                    c.ensure(o2, bv(o2.val, w) == x, "swapping twice gives the value back")


def popcount1(x, w):
    return z3.Or(*[x == z3.BitVecVal(1 << i, w) for i in range(w)])


for pn, w in (("pow2_u16", 16), ("pow2_u32", 32), ("pow2_u64", 64)):
    @spec("P23", "is_positive_power_of_two unsigned %d" % w, U)
    def _(c, pn=pn, w=w):
        x = c.int("value", w)
        for o in c.normal(c.run(r"^probe::%s\(" % pn, [x])):
            c.ensure(o, Iff(as_bool(o.val), popcount1(x, w)), "true exactly for the powers of two")

for w in (16, 32, 64):
    @spec("P23", "is_positive_power_of_two signed %d" % w, U)
    def _(c, w=w):
        x = c.int("value", w)
        for o in c.normal(c.run(r"^probe::pow2_i%d\(" % w, [x])):
            c.ensure(o, Iff(as_bool(o.val), z3.Or(*[x == z3.BitVecVal(1 << i, w) for i in range(w - 1)])),
                     "true exactly for the positive powers of two")


def as_bool(v):
    return v if isinstance(v, bool) or (z3.is_expr(v) and z3.is_bool(v)) else (v != 0 if not isc(v) else bool(v))


@spec("P23", "n_digits is the decimal length", U)
def _(c):
    x = c.int("value", 32)
    for o in c.normal(c.run(r"::n_digits\(unsigned int\)$", [x])):
        r = o.val
        goal = []
        for d in range(1, 11):
            lo = 0 if d == 1 else 10 ** (d - 1)
            hi = min(10 ** d, 1 << 32)
            rng = And(ule(lo, x, 32), ule(x, hi - 1, 32))
            goal.append(Iff(rng, eqv(r, d, 32)))
        c.ensure(o, And(*goal), "d digits exactly when 10^(d-1) <= value < 10^d")


@spec("P23", "first_less_than_or_equal finds the closest element not above the probe", U)
def _(c):
    run_search(c, r"^probe::floor_search\(", 8, 0)


@spec("P23", "first_less_than_or_equal with a comparator", U)
def _(c):
    run_search(c, r"^probe::floor_search_by\(", 16, 0)


def run_search(c, rx, es, koff):
    # the array is split by the probe: elements [0,m) are <= probe, [m,n) are above it.  Sortedness gives such an m.
    key = c.eng.fresh_fn("key", 64)
    n, v, m = c.int("n"), c.int("probe"), c.int("m")
    c.st.assume(ult(n, 1 << 50))
    c.st.assume(ule(m, n))
    other = c.eng.fresh_fn("other", 64)
    c.st.assume(Forall(lambda k: And(Implies(ult(k, m), ule(key(k), v)), Implies(And(ule(m, k), ult(k, n)), ult(v, key(k)))),
                       {key.name()}, "sorted around the probe"))

    def base(i, fo, w, ty):
        return key(bv(i, 64)) if fo == koff else other(bv(i, 64))
    arr = c.st.new_obj("array", Lin.of(n).scale(es).val(), "input",
                       engine.Arr(es, base, fields=[(o, 8, ir.I64) for o in range(0, es, 8)]))
    end = Lin.of(n).scale(es).val()
    outs = c.run(rx, [Ptr(arr), Ptr(arr, end), v])
    for o in c.normal(outs):
        p = o.val
        want = z3.If(m == 0, n, m - 1)
        c.ensure(o, eqv(p.off.val(), Lin.of(want).scale(es).val()), "the last element <= probe, or end when there is none")


for pn, w in (("exchange_int", 32), ("exchange_u64", 64)):
    @spec("P23", "exchange replaces and returns the old value (%s)" % pn, U)
    def _(c, pn=pn, w=w):
        old, new = c.int("old", w), c.int("new", w)
        p = c.raw("obj", w // 8)
        c.put(p, w // 8, old)
        for o in c.normal(c.run(r"^probe::%s\(" % pn, [p, new])):
            c.ensure(o, And(eqv(o.val, old, w), eqv(c.get(p, w // 8, st=o.st), new, w)), "returns the old value, stores the new one")


@spec("P23", "exchange of a pointer with nullptr", U)
def _(c):
    p = c.raw("obj", 8)
    tgt = c.raw("target", 4)
    c.put(p, 8, tgt)
    for o in c.normal(c.run(r"^probe::exchange_ptr\(", [p, NULL])):
        c.ensure(o, isinstance(o.val, Ptr) and o.val.obj is tgt.obj, "returns the old pointer")
        c.ensure(o, c.getp(p, o.st).null, "stores null")


def cleanup(c, rx, throws=False):
    tgt = c.raw("resource", 4)
    c.put(tgt, 4, c.int("v", 32))

    def act(eng, st, a, ins):
        st.ghost["n"] = st.ghost.get("n", 0) + 1
        ok = isinstance(a[0], Ptr) and a[0].obj is tgt.obj and a[0].off.const() == 0
        st.ghost["arg"] = ok and st.ghost.get("arg", True)
        return None

    def mt(eng, st, a, ins):
        if st.decide(eng.throwflag):
            raise engine.Throw("_ZTIN5probe7throwerE")
        return None
    c.eng.throwflag = c.bool("throws")
    c.model(r"^probe::action\(", act)
    c.model(r"^probe::may_throw\(", mt)
    outs = c.run(rx, [tgt])
    c.ensure(c.st, len(outs) >= (2 if throws else 1), "every exit is considered")
    for o in outs:
        if o.kind == "throw" and not throws:
            c.ensure(o, False, "no exception")
        c.ensure(o, o.st.ghost.get("n", 0) == 1, "the action ran exactly once")
        c.ensure(o, o.st.ghost.get("arg", False) is True, "with the wrapped object")


for pn in ("raii_one", "raii_moved", "raii_get", "raii_throwing", "scope_one", "scope_moved", "scope_throwing"):
    @spec("P23", "cleanup action runs exactly once: " + pn, U)
    def _(c, pn=pn):
        cleanup(c, r"^probe::%s\(" % pn, "throwing" in pn)


@spec("P23", "is_little_endian", U)
def _(c):
    for o in c.normal(c.run(r"^probe::little\(", [])):
        c.ensure(o, as_bool(o.val), "true on this little-endian target")
