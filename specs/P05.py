"""P05: nullable values and frames"""
from dv.spec import *

T = [TU("probe:values")]
TYPES = [("u8", 8, 0), ("i8", 8, 1), ("u16", 16, 0), ("i16", 16, 1), ("u32", 32, 0), ("i32", 32, 1), ("u64", 64, 0), ("i64", 64, 1)]


def one(c, name, st, args):
    outs = c.normal(c.run(r"^probe::%s\(" % name, args, st))
    return outs


for S, w, sg in TYPES:
    null = (1 << (w - 1)) - 1 if sg else (1 << w) - 1

    @spec("P05", "nullable<%s>: construction, reset, null" % S, T)
    def _(c, S=S, w=w, null=null):
        v = c.int("v", w)
        isnull = eqv(v, null, w)

        def empty(name, *args):
            p = c.raw("o_" + name, w // 8)
            c.put(p, w // 8, c.int("junk_" + name, w))
            for o in one(c, name, c.st.copy(), [p] + list(args)):
                for q in one(c, "nl_has_" + S, o.st, [p]):
                    yield p, q
        for p, q in empty("nl_default_" + S):
            c.ensure(q, Not(truth(q.val)), "default-constructed is empty")
        for p, q in empty("nl_null_" + S):
            c.ensure(q, Not(truth(q.val)), "null() is empty")
        for p, q in empty("nl_reset_" + S):
            c.ensure(q, Not(truth(q.val)), "reset empties")
        for nm in ("nl_value_" + S, "nl_assign_" + S, "nl_write_" + S):
            for p, q in empty(nm, v):
                c.ensure(q, Iff(truth(q.val), Not(isnull)), "holds a value unless it is the null value (%s)" % nm)
                for g in one(c, "nl_get_" + S, q.st, [p]):
                    c.ensure(g, eqv(g.val, v, w), "reads back what was stored (%s)" % nm)

    @spec("P05", "nullable<%s>: reading, comparing, swapping" % S, T)
    def _(c, S=S, w=w, null=null):
        a, b, d = c.int("a", w), c.int("b", w), c.int("alt", w)
        p, q = c.raw("p", w // 8), c.raw("q", w // 8)
        for o in one(c, "nl_value_" + S, c.st, [p, a]):
            for o in one(c, "nl_value_" + S, o.st, [q, b]):
                base = o.st
                for x in one(c, "nl_or_" + S, base.copy(), [p, d]):
                    c.ensure(x, eqv(x.val, Ite(eqv(a, null, w), d, a, w), w), "value_or")
                    for h in one(c, "nl_get_" + S, x.st, [p]):
                        c.ensure(h, eqv(h.val, a, w), "value_or leaves the value")
                for x in one(c, "nl_eq_" + S, base.copy(), [p, q]):
                    c.ensure(x, Iff(truth(x.val), eqv(a, b, w)), "== compares the contents")
                for x in one(c, "nl_ne_" + S, base.copy(), [p, q]):
                    c.ensure(x, Iff(truth(x.val), Not(eqv(a, b, w))), "!= is its negation")
                for x in one(c, "nl_swap_" + S, base.copy(), [p, q]):
                    for y in one(c, "nl_get_" + S, x.st, [p]):
                        for z in one(c, "nl_get_" + S, y.st, [q]):
                            c.ensure(z, And(eqv(y.val, b, w), eqv(z.val, a, w)), "swap exchanges")
                for x in one(c, "nl_swap_" + S, base.copy(), [p, p]):
                    for y in one(c, "nl_get_" + S, x.st, [p]):
                        c.ensure(y, eqv(y.val, a, w), "swap with itself")
                for x in one(c, "nl_copy_" + S, base.copy(), [p, q]):
                    for y in one(c, "nl_get_" + S, x.st, [p]):
                        c.ensure(y, eqv(y.val, b, w), "copy")


def frame(c, name, ty):
    """a frame object with symbolic fields, addressed through the layout of the real type"""
    p = c.obj(name, ty)
    return p


@spec("P05", "frames are equal exactly when every field is equal", T)
def _(c):
    ty = c.prog.type("struct.cpptrace::v1::stacktrace_frame")
    fs = [(o, w, t) for o, w, t in engine.flatten(ty)]
    a, b = c.raw("a", ty.size()), c.raw("b", ty.size())
    va, vb = {}, {}
    ints = [o for o, w, t in fs if t.k == "int" and w in (4, 8)]
    strs = [o for o, w, t in fs if t.k == "named"]
    bools = [o for o, w, t in fs if t.k == "int" and w == 1]
    if len(ints) != 4 or len(strs) != 2:
        raise Unsupported("frame layout changed: %r" % (fs,))
    for o, w, t in fs:
        for base, vals, nm in ((a, va, "a"), (b, vb, "b")):
            if o in strs:
                s = c.str("%s.s%d" % (nm, o))
                c.put(base.add(o), 32, s)
                vals[o] = s
            else:
                v = c.int("%s.f%d" % (nm, o), 8 * w) if o not in bools else c.int("%s.f%d" % (nm, o), 8)
                if o in bools:
                    c.st.assume(ule(v, 1, 8))
                c.put(base.add(o), w, v)
                vals[o] = v
    same_ints = And(*[eqv(va[o], vb[o], 8 * w) for o, w, t in fs if o in ints])
    for fn, neg in (("fr_eq", False), ("fr_ne", True)):
        for o in c.normal(c.run(r"^probe::%s\(" % fn, [a, b], c.st.copy())):
            for st, v in cases(c, o, truth(o.val)):
                if v != neg:
                    c.ensure(st, same_ints, "equal frames agree on addresses, line and column")
                    for s in strs:
                        c.ensure(st, eqv(va[s].len, vb[s].len), "equal frames agree on the text lengths")
                        c.ensure(st, Forall(lambda k, s=s: Implies(ult(k, va[s].len), eqv(va[s].at(k), vb[s].at(k), 8)), None, "chars"),
                                 "equal frames agree on every character")
                    continue
                # frames found unequal differ somewhere: assuming that everything agrees must be contradictory
                try:
                    st.assume(same_ints)
                    for s in strs:
                        st.assume(eqv(va[s].len, vb[s].len))
                        st.facts.append(Forall(lambda k, s=s: Implies(ult(k, va[s].len), eqv(va[s].at(k), vb[s].at(k), 8)), None, "chars"))
                except engine.Infeasible:
                    continue
                c.ensure(st, False, "unequal frames differ in some field")
