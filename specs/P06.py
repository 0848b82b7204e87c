"""P06: optional and Result hold exactly one live value.

Every operation is checked from an arbitrary reachable state (empty / value / error with an arbitrary content), against the
abstract state it has to reach; afterwards the container is destroyed and exactly the objects created from outside remain live.
With the operations closed over those states, every sequence of operations follows by induction."""
from dv.spec import *

T = [TU("probe:lifetime")]
OZ, AZ = 64, 8


def life(c):
    c.common()
    key = lambda p: (p.obj.id, p.off.const())

    def born(eng, st, a, ins):
        k = key(a[0])
        live = st.ghost.get("live", frozenset())
        eng.oblige(st, "an object is created only where none is live", k not in live and k[1] is not None)
        st.ghost["live"] = live | {k}

    def died(eng, st, a, ins):
        k = key(a[0])
        live = st.ghost.get("live", frozenset())
        eng.oblige(st, "only a live object is destroyed", k in live)
        st.ghost["live"] = live - {k}

    def used(eng, st, a, ins):
        eng.oblige(st, "only a live object is read or assigned", key(a[0]) in st.ghost.get("live", frozenset()))
    c.model(r"^probe::born\(", born)
    c.model(r"^probe::died\(", died)
    c.model(r"^probe::used\(", used)


class W:
    """a world: path state plus the abstract contents expected of each container"""

    def __init__(self, st, exp):
        self.st, self.exp = st, dict(exp)


def call(c, w, fn, *args, may_throw=False):
    outs = c.run(r"^probe::%s\(" % fn, list(args), w.st.copy())
    r = []
    for o in outs:
        if o.kind == "throw" and may_throw:
            r.append((W(o.st, w.exp), "throw"))
        elif o.kind == "throw":
            c.ensure(o, False, "no exception escapes")
        else:
            r.append((W(o.st, w.exp), o.val))
    return r


def mk(c, kind, name, w):
    """places a container in an arbitrary state; yields worlds.  abstract: ('none',) | ('v', term) | ('e', term)"""
    p = c.raw(name, OZ, w.st)
    out = []
    if kind == "O":
        for x, _ in call(c, w, "o_empty", p):
            x.exp[name] = ("O", p, None, None)
            out.append(x)
        v = c.int(name + ".v")
        tmp = c.raw(name + ".src", AZ, w.st)
        for x, _ in call(c, w, "a_make", tmp, v):
            for y, _ in call(c, x, "o_from_move", p, tmp):
                for z, _ in call2(c, y, tmp):
                    z.exp[name] = ("O", p, "v", v)
                    out.append(z)
    else:
        for alt, make, place in (("v", "a_make", "r_value_move"), ("e", "b_make", "r_error_move")):
            v = c.int("%s.%s" % (name, alt))
            s = w.st
            tmp = c.raw("%s.src%s" % (name, alt), AZ, s)
            for x, _ in call(c, w, make, tmp, v):
                for y, _ in call(c, x, place, p, tmp):
                    for z, _ in call2(c, y, tmp):
                        z.exp[name] = ("R", p, alt, v)
                        out.append(z)
    return out, p


def call2(c, w, tmp):
    # the temporary the value was moved from: forget it (it is destroyed by its owner)
    live = w.st.ghost.get("live", frozenset())
    w.st.ghost["live"] = live - {(tmp.obj.id, 0)}
    return [(w, None)]


def settle(c, w, keep=()):
    """the abstract state holds, and destroying everything leaves exactly `keep` live"""
    worlds = [w]
    for name, (kind, p, alt, v) in list(w.exp.items()):
        nxt = []
        pre = "o" if kind == "O" else "r"
        for x in worlds:
            for y, r in call(c, x, pre + "_has", p):
                c.ensure(y.st, Iff(truth(r), alt == "v"), "%s: has_value" % name)
                for z, r2 in call(c, y, pre + "_bool", p):
                    c.ensure(z.st, Iff(truth(r2), alt == "v"), "%s: conversion to bool" % name)
                    nxt += content(c, z, name, kind, p, alt, v)
        worlds = nxt
    for name, (kind, p, alt, v) in list(w.exp.items()):
        worlds = [y for x in worlds for y, _ in call(c, x, "o_destroy" if kind == "O" else "r_destroy", p)]
    for x in worlds:
        c.ensure(x.st, x.st.ghost.get("live", frozenset()) == frozenset((q.obj.id, 0) for q in keep), "every object is destroyed exactly once")


def content(c, w, name, kind, p, alt, v):
    r = []
    gets = [("o_get", "o_cget", "v")] if kind == "O" else [("r_get", "r_cget", "v"), ("r_geterr", "r_cgeterr", "e")]
    for pair in gets:
        for g in pair[:2]:
            for y, res in call(c, w, g, p, may_throw=True):
                if alt == pair[2]:
                    c.ensure(y.st, res != "throw", "%s: reading the held alternative succeeds (%s)" % (name, g))
                    if res == "throw":
                        continue
                    if v is not None:
                        c.ensure(y.st, eqv(c.get(res, 8, st=y.st), v), "%s: holds what was last stored" % name)
                    c.ensure(y.st, (res.obj.id, res.off.const()) in y.st.ghost.get("live", frozenset()), "%s: the exposed object is live" % name)
                else:
                    c.ensure(y.st, res == "throw", "%s: reading an absent alternative is reported (%s)" % (name, g))
                w2 = y
    return [w]


def val(c, w, name, fn="a_make"):
    v = c.int(name)
    p = c.raw(name, AZ, w.st)
    return [(x, p, v) for x, _ in call(c, w, fn, p, v)]


def start(c):
    life(c)
    return W(c.st, {})


@spec("P06", "optional: construction and destruction", T)
def _(c):
    w = start(c)
    for fn in ("o_empty", "o_null"):
        p = c.raw(fn, OZ)
        for x, _ in call(c, w, fn, p):
            x.exp["o"] = ("O", p, None, None)
            settle(c, x)
    for fn in ("o_from", "o_from_move"):
        for x, a, v in val(c, w, "src"):
            p = c.raw(fn, OZ, x.st)
            for y, _ in call(c, x, fn, p, a):
                y.exp["o"] = ("O", p, "v", v)
                if fn == "o_from":
                    c.ensure(y.st, eqv(c.get(a, 8, st=y.st), v), "copying leaves the source")
                settle(c, y, [a])


@spec("P06", "optional: copy and move construction", T)
def _(c):
    w = start(c)
    for fn in ("o_copy", "o_move"):
        ws, q = mk(c, "O", "q_" + fn, w)
        for x in ws:
            p = c.raw("p", OZ, x.st)
            _, _, alt, v = x.exp["q_" + fn]
            for y, _ in call(c, x, fn, p, q):
                y.exp["p"] = ("O", p, alt, v)
                if fn == "o_move" and alt == "v":
                    y.exp["q_" + fn] = ("O", q, "v", None)
                settle(c, y)


def two(c, kind, fn):
    w = start(c)
    ws, p = mk(c, kind, "p", w)
    for x in ws:
        ws2, q = mk(c, kind, "q", x)
        for y in ws2:
            yield y, p, q, y.exp["p"], y.exp["q"]


for fn in ("o_copy_assign", "o_move_assign", "o_swap"):
    @spec("P06", "optional: %s from every state into every state" % fn[2:], T)
    def _(c, fn=fn):
        for y, p, q, ep, eq_ in two(c, "O", fn):
            for z, _ in call(c, y, fn, p, q):
                z.exp["p"] = ("O", p) + eq_[2:]
                if fn == "o_swap":
                    z.exp["q"] = ("O", q) + ep[2:]
                if fn == "o_move_assign" and eq_[2]:
                    z.exp["q"] = ("O", q, "v", None)
                settle(c, z)

    @spec("P06", "optional: %s with itself" % fn[2:], T)
    def _(c, fn=fn):
        w = start(c)
        ws, p = mk(c, "O", "p", w)
        for x in ws:
            for z, _ in call(c, x, fn, p, p):
                settle(c, z)


@spec("P06", "optional: assignment of a value, of nullopt, reset", T)
def _(c):
    w = start(c)
    ws, p = mk(c, "O", "p", w)
    for x in ws:
        for y, a, v in val(c, x, "a"):
            for z, _ in call(c, y, "o_assign", p, a):
                z.exp["p"] = ("O", p, "v", v)
                c.ensure(z.st, eqv(c.get(a, 8, st=z.st), v), "the source is left alone")
                settle(c, z, [a])
        for fn in ("o_assign_null", "o_reset"):
            for z, _ in call(c, x, fn, p):
                z.exp["p"] = ("O", p, None, None)
                settle(c, z)
        if x.exp["p"][2] == "v":
            # assigning the contained object to its own optional
            for z, g in call(c, x, "o_get", p):
                for u, _ in call(c, z, "o_assign", p, g):
                    settle(c, u)


@spec("P06", "optional: taking the value and defaults", T)
def _(c):
    w = start(c)
    ws, p = mk(c, "O", "p", w)
    for x in ws:
        _, _, alt, v = x.exp["p"]
        r = c.raw("r", AZ, x.st)
        for y, res in call(c, x, "o_take", r, p, may_throw=True):
            c.ensure(y.st, (res == "throw") == (alt is None), "taking from an empty optional is reported")
            if res != "throw":
                c.ensure(y.st, eqv(c.get(r, 8, st=y.st), v), "takes the value")
                y.exp["p"] = ("O", p, "v", None)
            settle(c, y, [r] if res != "throw" else [])
        for fn in ("o_or", "o_or_move"):
            for y, d, dv in val(c, x, "d"):
                for z, _ in call(c, y, fn, r, p, d):
                    c.ensure(z.st, eqv(c.get(r, 8, st=z.st), v if alt else dv), "value_or gives the value or the default")
                    if fn == "o_or_move" and alt:
                        z.exp["p"] = ("O", p, "v", None)
                    settle(c, z, [r, d])


@spec("P06", "optional reference: rebinding, reset and access", T)
def _(c):
    w = start(c)
    for x, a, v in val(c, w, "a"):
        for y, b, v2 in val(c, x, "b"):
            def state(w0, name, tgt):
                p = c.raw(name, OZ, w0.st)
                return [(z, p) for z, _ in (call(c, w0, "or_empty", p) if tgt is None else call(c, w0, "or_from", p, tgt))]

            def is_(w0, p, tgt):
                for z, r in call(c, w0, "or_has", p):
                    c.ensure(z.st, Iff(truth(r), tgt is not None), "has_value")
                    for u, g in call(c, z, "or_get", p, may_throw=True):
                        c.ensure(u.st, (g == "throw") if tgt is None else (g != "throw" and g.obj is tgt.obj and g.off.const() == tgt.off.const()),
                                 "refers to the object it was bound to, or reports absence")
                    for u, _ in call(c, z, "or_destroy", p):
                        c.ensure(u.st, u.st.ghost.get("live") == frozenset([(a.obj.id, 0), (b.obj.id, 0)]), "never owns the object")
            for ta in (None, a):
                for tb in (None, b):
                    for z, p in state(y, "p", ta):
                        for u, q in state(z, "q", tb):
                            for fn in ("or_copy_assign", "or_move_assign", "or_swap"):
                                for t, _ in call(c, u, fn, p, q):
                                    is_(t, p, tb)
                                    if fn == "or_swap":
                                        is_(t, q, ta)
                            for t, _ in call(c, u, "or_reset", p):
                                is_(t, p, None)
                            n = c.raw("n", OZ, u.st)
                            for t, _ in call(c, u, "or_copy", n, q):
                                is_(t, n, tb)


@spec("P06", "Result: construction and destruction", T)
def _(c):
    w = start(c)
    for fn, make, alt in (("r_value", "a_make", "v"), ("r_value_move", "a_make", "v"), ("r_error", "b_make", "e"), ("r_error_move", "b_make", "e")):
        for x, a, v in val(c, w, "src", make):
            p = c.raw(fn, OZ, x.st)
            for y, _ in call(c, x, fn, p, a):
                y.exp["r"] = ("R", p, alt, v)
                for z, e in call(c, y, "r_err", p):
                    c.ensure(z.st, Iff(truth(e), alt == "e"), "is_error")
                settle(c, y, [a])


@spec("P06", "Result: move construction", T)
def _(c):
    w = start(c)
    ws, q = mk(c, "R", "q", w)
    for x in ws:
        p = c.raw("p", OZ, x.st)
        _, _, alt, v = x.exp["q"]
        for y, _ in call(c, x, "r_move", p, q):
            y.exp["p"] = ("R", p, alt, v)
            y.exp["q"] = ("R", q, alt, None)
            settle(c, y)


for fn in ("r_copy_assign", "r_move_assign"):
    @spec("P06", "Result: %s from every state into every state" % fn[2:], T)
    def _(c, fn=fn):
        for y, p, q, ep, eq_ in two(c, "R", fn):
            for z, _ in call(c, y, fn, p, q):
                z.exp["p"] = ("R", p) + eq_[2:]
                if fn == "r_move_assign":
                    z.exp["q"] = ("R", q, eq_[2], None)
                settle(c, z)

    @spec("P06", "Result: %s with itself" % fn[2:], T)
    def _(c, fn=fn):
        w = start(c)
        ws, p = mk(c, "R", "p", w)
        for x in ws:
            for z, _ in call(c, x, fn, p, p):
                settle(c, z)


@spec("P06", "Result: taking, defaults, conversion to optional, dropping errors", T)
def _(c):
    w = start(c)
    ws, p = mk(c, "R", "p", w)
    for x in ws:
        _, _, alt, v = x.exp["p"]
        r = c.raw("r", OZ, x.st)
        for fn, want in (("r_take", "v"), ("r_takeerr", "e")):
            for y, res in call(c, x, fn, r, p, may_throw=True):
                c.ensure(y.st, (res == "throw") == (alt != want), "taking the absent alternative is reported (%s)" % fn)
                if res != "throw":
                    c.ensure(y.st, eqv(c.get(r, 8, st=y.st), v), "takes the content (%s)" % fn)
                    y.exp["p"] = ("R", p, alt, None)
                settle(c, y, [r] if res != "throw" else [])
        for fn in ("r_or", "r_or_move"):
            for y, d, dv in val(c, x, "d"):
                for z, _ in call(c, y, fn, r, p, d):
                    c.ensure(z.st, eqv(c.get(r, 8, st=z.st), v if alt == "v" else dv), "value_or gives the value or the default (%s)" % fn)
                    if fn == "r_or_move":
                        z.exp["p"] = ("R", p, alt, None if alt == "v" else v)
                    settle(c, z, [r, d])
        for fn, want, k in (("r_ovalue", "v", "o"), ("r_ovalue_move", "v", "o"), ("r_oerror", "e", "ob"), ("r_oerror_move", "e", "ob")):
            for y, _ in call(c, x, fn, r, p):
                for z, h in call(c, y, k + "_has", r):
                    c.ensure(z.st, Iff(truth(h), alt == want), "the optional holds the alternative exactly when the result does (%s)" % fn)
                    for u, g in call(c, z, k + "_get", r, may_throw=True):
                        if alt == want:
                            c.ensure(u.st, g != "throw" and eqv(c.get(g, 8, st=u.st), v), "and the same content (%s)" % fn)
                    for u, _ in call(c, z, k + "_destroy", r):
                        u.exp["p"] = ("R", p, alt, None if fn.endswith("move") and alt == want else v)
                        settle(c, u)
        for y, _ in call(c, x, "r_drop", p):
            settle(c, y)
