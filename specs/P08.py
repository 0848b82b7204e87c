"""P08: formatters are values.  The settings object of any formatter (any settings, any filter and transform, empty or not)."""
from dv.spec import *
from dv.elfspec import truth
from specs.P15 import addresses

T = [TU("probe:fmtopts", opts=("-fno-access-control",))]
PLAIN = [("color", 4), ("addresses", 4), ("paths", 4), ("snippets", 1), ("break_before_filename", 1), ("context_lines", 4), ("columns", 1),
         ("symbols", 4), ("show_filtered_frames", 1), ("hide_exception_machinery", 1)]
FN = ["filter", "transform"]
F = r"^cpptrace::v1::formatter::"


def offsets(c):
    """where each setting is kept, from the compiled declaration"""
    d = {}
    for n in ["header"] + [x for x, _ in PLAIN] + FN:
        o = c.run(r"^probe::at_%s\(" % n, [])
        d[n] = o[0].val
    d["size"] = c.run(r"^probe::size\(", [])[0].val
    c.targets = [t for t in c.targets if not t.startswith("probe::")]
    return d


def functions(c):
    """the type-erased operations of a callable, as its manager is specified: the destination gets an equal callable; destruction ends it"""
    def manager(eng, st, a, ins):
        op = a[2]
        if not isc(op):
            raise Unsupported("symbolic manager operation")
        if op == 2:
            v = eng.coerce(st, eng.raw_load(st, a[1], 8, I64), I64)
            eng.put(st, a[0], 8, v)
        elif op != 3:
            raise Unsupported("manager operation %r" % op)
        return 0
    c.model(r"^virtual\$manager", manager)


I64 = ir.Ty("int", 64)


def function(c, p, name, empty):
    """a std::function: empty, or holding any callable (identified by its value)"""
    c.put(p, 8, c.int(name + ".value", 64))
    c.put(p.add(8), 8, 0)
    if empty:
        c.put(p.add(16), 8, NULL)
        c.put(p.add(24), 8, NULL)
    else:
        c.put(p.add(16), 8, engine.FnPtr("virtual$manager"))
        c.put(p.add(24), 8, engine.FnPtr("virtual$invoker"))


def settings(c, d, name, emptyf=False, emptyt=False):
    """a settings object with any values"""
    o = c.st.new_obj(name, d["size"], "heap")
    p = Ptr(o)
    t = type("S", (), {})()
    t.p, t.d = p, d
    t.header = c.str(name + ".header")
    c.put(p.add(d["header"]), 32, t.header)
    t.v = {}
    for n, w in PLAIN:
        t.v[n] = c.int(name + "." + n, 8 * w)
        if w == 1:
            c.st.assume(ule(t.v[n], 1, 8))
        c.put(p.add(d[n]), w, t.v[n])
    function(c, p.add(d["filter"]), name + ".filter", emptyf)
    function(c, p.add(d["transform"]), name + ".transform", emptyt)
    t.fn = {"filter": (p.add(d["filter"]), emptyf), "transform": (p.add(d["transform"]), emptyt)}
    t.fv = {k: (c.get(q, 8), e) for k, (q, e) in t.fn.items()}
    return t


def formatter(c, t, name):
    f = c.raw(name, 8)
    c.put(f, 8, t.p if t is not None else NULL)
    return f


def same_fn(c, st, q, val, empty, what):
    m = c.eng.coerce(st, c.eng.raw_load(st, q.add(16), 8, ir.PTR), ir.PTR)
    if empty:
        c.ensure(st, c.eng.ptr_eq(st, m, NULL) if hasattr(c.eng, "ptr_eq") else eqv(0, 0 if getattr(m, "obj", 1) is None else 1, 8), what + ": still none")
        return
    i = c.eng.coerce(st, c.eng.raw_load(st, q.add(24), 8, ir.PTR), ir.PTR)
    c.ensure(st, getattr(m, "name", None) == "virtual$manager" and getattr(i, "name", None) == "virtual$invoker", what + ": a callable of the same kind")
    c.ensure(st, eqv(c.get(q, 8, st=st), val), what + ": the same callable")


def same(c, o, p, t, what, but=(), header=None):
    """the settings at p are t's, apart from the named ones"""
    st = o.st
    if getattr(p, "obj", None) is None or st.mem.get(p.obj.id) is None:
        c.ensure(o, False, what + ": the settings exist")
        return
    if "header" not in but:
        c.holds_str(o, c.getstr(p.add(t.d["header"]), st), t.header, what + ": header")
    for n, w in PLAIN:
        if n not in but:
            c.ensure(o, eqv(c.get(p.add(t.d[n]), w, st=st), t.v[n], 8 * w), what + ": " + n)
    for n in FN:
        if n not in but:
            same_fn(c, st, p.add(t.d[n]), t.fv[n][0], t.fv[n][1], what + ": " + n)


for n, w in PLAIN:
    M = {"color": "colors", "show_filtered_frames": "filtered_frame_placeholders", "context_lines": "snippet_context"}.get(n, n)

    @spec("P08", "setting " + M, T)
    def _(c, n=n, w=w, M=M):
        c.common()
        functions(c)
        d = offsets(c)
        t = settings(c, d, "settings")
        f = formatter(c, t, "formatter")
        v = c.int("value", 8 * w)
        arg = v
        if w == 1:
            arg = c.bool("flag")
            v = z3.ZeroExt(7, bv(arg, 1))
        for o in c.normal(c.run(F + M + r"\(", [f, arg])):
            c.ensure(o, eqv(c.get(t.p.add(d[n]), w, st=o.st), v, 8 * w), "the setting is the given value")
            same(c, o, t.p, t, "other settings unchanged", but=(n,))
            c.ensure(o, c.getp(f, o.st).obj is t.p.obj and o.val.obj is f.obj, "the formatter keeps its settings and is given back")


@spec("P08", "setting header", T)
def _(c):
    c.common()
    functions(c)
    d = offsets(c)
    t = settings(c, d, "settings")
    f = formatter(c, t, "formatter")
    p, s = c.string("value")
    for o in c.normal(c.run(F + r"header\(", [f, p])):
        c.holds_str(o, c.getstr(t.p.add(d["header"]), o.st), s, "the setting is the given value")
        same(c, o, t.p, t, "other settings unchanged", but=("header",))
        c.ensure(o, c.getp(f, o.st).obj is t.p.obj and o.val.obj is f.obj, "the formatter keeps its settings and is given back")


for n in FN:
    for old in (False, True):
        for new in (False, True):
            @spec("P08", "setting %s (%s, had %s)" % (n, "to none" if new else "to any callable", "none" if old else "any"), T)
            def _(c, n=n, old=old, new=new):
                c.common()
                functions(c)
                d = offsets(c)
                t = settings(c, d, "settings", emptyf=old, emptyt=old)
                f = formatter(c, t, "formatter")
                a = c.raw("callable", 32)
                function(c, a, "callable", new)
                val = c.get(a, 8)
                for o in c.normal(c.run(F + n + r"\(", [f, a])):
                    same_fn(c, o.st, t.p.add(d[n]), val, new, "the setting is the given value")
                    same(c, o, t.p, t, "other settings unchanged", but=(n,))
                    c.ensure(o, c.getp(f, o.st).obj is t.p.obj and o.val.obj is f.obj, "the formatter keeps its settings and is given back")


@spec("P08", "a new formatter has the documented settings", T)
def _(c):
    c.common()
    functions(c)
    d = offsets(c)
    f = c.raw("formatter", 8)
    for o in c.normal(c.run(F + r"formatter\(\)", [f])):
        p = c.getp(f, o.st)
        c.ensure(o, getattr(p, "obj", None) is not None and o.st.mem.get(p.obj.id) is not None, "it has settings of its own")
        c.holds_str(o, c.getstr(p.add(d["header"]), o.st), Str.lit(b"Stack trace (most recent call first):"), "header")
        want = {"color": 2, "addresses": 0, "paths": 0, "snippets": 0, "break_before_filename": 0, "context_lines": 2, "columns": 1,
                "symbols": 0, "show_filtered_frames": 1, "hide_exception_machinery": 1}
        for n, w in PLAIN:
            c.ensure(o, eqv(c.get(p.add(d[n]), w, st=o.st), want[n], 8 * w), "default " + n)
        for n in FN:
            same_fn(c, o.st, p.add(d[n]), 0, True, "default " + n)


for ef in (False, True):
    E = "without callables" if ef else "with callables"

    @spec("P08", "copying (%s)" % E, T)
    def _(c, ef=ef):
        c.common()
        functions(c)
        d = offsets(c)
        t = settings(c, d, "other", ef, ef)
        g = formatter(c, t, "other")
        f = c.raw("copy", 8)
        for o in c.normal(c.run(F + r"formatter\(cpptrace::v1::formatter const&\)", [f, g])):
            p = c.getp(f, o.st)
            c.ensure(o, getattr(p, "obj", None) is not None and p.obj is not t.p.obj, "the copy has settings of its own")
            same(c, o, p, t, "the copy has the same settings")
            c.ensure(o, c.getp(g, o.st).obj is t.p.obj, "the original keeps its settings")
            same(c, o, t.p, t, "the original is unchanged")

    @spec("P08", "moving (%s)" % E, T)
    def _(c, ef=ef):
        c.common()
        functions(c)
        d = offsets(c)
        t = settings(c, d, "other", ef, ef)
        g = formatter(c, t, "other")
        f = c.raw("new", 8)
        for o in c.normal(c.run(F + r"formatter\(cpptrace::v1::formatter&&\)", [f, g])):
            p = c.getp(f, o.st)
            same(c, o, p, t, "the new formatter has the settings")
            q = c.getp(g, o.st)
            c.ensure(o, getattr(q, "obj", None) is not p.obj, "they are no longer shared")

    for had in (True, False):
        H = "" if had else ", to a moved-from formatter"

        @spec("P08", "copy assignment (%s%s)" % (E, H), T)
        def _(c, ef=ef, had=had):
            c.common()
            functions(c)
            d = offsets(c)
            t = settings(c, d, "other", ef, ef)
            u = settings(c, d, "own") if had else None
            g = formatter(c, t, "other")
            f = formatter(c, u, "formatter")
            for o in c.normal(c.run(F + r"operator=\(cpptrace::v1::formatter const&\)", [f, g])):
                p = c.getp(f, o.st)
                c.ensure(o, getattr(p, "obj", None) is not None and p.obj is not t.p.obj, "it has settings of its own")
                same(c, o, p, t, "it has the same settings")
                c.ensure(o, c.getp(g, o.st).obj is t.p.obj, "the original keeps its settings")
                same(c, o, t.p, t, "the original is unchanged")
                c.ensure(o, o.val.obj is f.obj, "the destination is given back")
                if had:
                    c.ensure(o, o.st.mem.get(u.p.obj.id) is None or p.obj is u.p.obj, "the old settings are released")

        @spec("P08", "move assignment (%s%s)" % (E, H), T)
        def _(c, ef=ef, had=had):
            c.common()
            functions(c)
            d = offsets(c)
            t = settings(c, d, "other", ef, ef)
            u = settings(c, d, "own") if had else None
            g = formatter(c, t, "other")
            f = formatter(c, u, "formatter")
            for o in c.normal(c.run(F + r"operator=\(cpptrace::v1::formatter&&\)", [f, g])):
                p = c.getp(f, o.st)
                same(c, o, p, t, "it has the other's settings")
                c.ensure(o, getattr(c.getp(g, o.st), "obj", None) is not p.obj, "they are no longer shared")
                c.ensure(o, o.val.obj is f.obj, "the destination is given back")

    for rx, N in ((r"operator=\(cpptrace::v1::formatter const&\)", "copy"), (r"operator=\(cpptrace::v1::formatter&&\)", "move")):
        @spec("P08", "%s assignment to itself (%s)" % (N, E), T)
        def _(c, ef=ef, rx=rx):
            c.common()
            functions(c)
            d = offsets(c)
            t = settings(c, d, "settings", ef, ef)
            f = formatter(c, t, "formatter")
            for o in c.normal(c.run(F + rx, [f, f])):
                same(c, o, c.getp(f, o.st), t, "it is unchanged")
                c.ensure(o, o.val.obj is f.obj, "it is given back")


@spec("P08", "destroying", T)
def _(c):
    c.common()
    functions(c)
    d = offsets(c)
    t = settings(c, d, "settings")
    f = formatter(c, t, "formatter")
    for o in c.normal(c.run(F + r"~formatter\(\)", [f])):
        c.ensure(o, o.st.mem.get(t.p.obj.id) is None, "its settings are released")


@spec("P08", "destroying a moved-from formatter", T)
def _(c):
    c.common()
    functions(c)
    f = formatter(c, None, "formatter")
    for o in c.normal(c.run(F + r"~formatter\(\)", [f])):
        c.ensure(o, True, "nothing is released")
