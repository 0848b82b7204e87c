"""P07: the formatter.  A stream is the text written to it; every writer is proved to append exactly the text configured."""
from dv.spec import *
from dv.elfspec import truth, cases, local
from dv.models import getstr, setstr
from specs.P15 import SF_SIZE, NULLV
from specs import P04, P08

T = [TU("probe:fmtopts", opts=("-fno-access-control",)), TU("utils.cpp"), TU("utils/utils.cpp")]
I = r"^cpptrace::v1::formatter::impl::"
RESET, GREEN, YELLOW, BLUE = b"\33[0m", b"\33[32m", b"\33[33m", b"\33[34m"
lit = Str.lit


def stream(c, name="stream"):
    """an output stream: the text written to it so far"""
    p = c.raw(name, 600)
    s = c.str(name + " so far")
    c.put(p, 32, s)
    return p, s


def padded(text, width, fill, left):
    """the text, padded to the width"""
    if isc(text.len) and isc(width):
        pad = P04.rep(fill, max(0, width - text.len))
    else:
        pad = P04.rep(fill, Ite(ult(text.len, width), (Lin.of(width) - Lin.of(text.len)).val(), 0, 64))
    return text.cat(pad) if left else pad.cat(text)


def as_width(v):
    """a width is read as an int"""
    if isc(v):
        return v & 0x7fffffff
    return z3.SignExt(32, z3.Extract(31, 0, bv(v, 64)))


def digits(c, st, base, v):
    return P04.digits(c, st, base, v)


def dec(c, st, v, w=64):
    return models.dec_str(c.eng, st, v, w, False)


def value(c, st, p):
    """a format_value -> its text (given a base), its integer"""
    eng = c.eng
    tag = eng.load(st, p.add(16), ir.Ty("int", 32))
    if not isc(tag):
        raise Unsupported("kind of a formatted value")
    I64 = ir.Ty("int", 64)
    if tag == 0:
        return lambda base: models.mkstr_chars(eng, st, [eng.load(st, p, ir.I8)]), 0
    if tag in (1, 2):
        v = eng.load(st, p, I64)

        def text(base):
            if tag == 1:
                return models.dec_str(eng, st, v, 64, True)
            return digits(c, st, base, v)
        return text, v
    if tag == 3:
        s = getstr(eng, st, eng.load(st, p, ir.PTR))
    elif tag == 4:
        s = models.str_from_mem(eng, st, eng.load(st, p, ir.PTR), eng.load(st, p.add(8), I64))
    else:
        q = eng.load(st, p, ir.PTR)
        s = models.str_from_mem(eng, st, q, models.cstr_len(eng, st, q))
    return (lambda base: s), 0


def formatted(c, st, f, args):
    """the text of a format string, as its contract (P04) says"""
    out, i, k = Str(), 0, 0
    while i < len(f):
        ch = f[i:i + 1]
        if ch in b"{}" and f[i + 1:i + 2] == ch:
            out, i = out.cat(lit(ch)), i + 2
            continue
        if ch != b"{":
            out, i = out.cat(lit(ch)), i + 1
            continue
        i += 1
        left, fill, base, width = True, 0x20, "10", 0
        if f[i:i + 1] in (b"<", b">"):
            left = f[i:i + 1] == b"<"
            i += 1
        if f[i:i + 2] == b"{}":
            width = as_width(value(c, st, args[k])[1])
            k, i = k + 1, i + 2
        elif f[i:i + 1].isdigit():
            j = i
            while f[j:j + 1].isdigit():
                j += 1
            width, i = int(f[i:j]), j
        if f[i:i + 1] == b":":
            i += 1
            if f[i + 1:i + 2] != b"}" or f[i:i + 1] not in b"hHob":
                fill, i = f[i], i + 1
            if f[i:i + 1] in (b"h", b"H", b"o", b"b"):
                base = {b"h": "base16:0123456789abcdef", b"H": "base16:0123456789ABCDEF", b"o": "base8:01234567", b"b": "base2:01"}[f[i:i + 1]]
                i += 1
        if f[i:i + 1] != b"}" or k >= len(args):
            raise Unsupported("format string %r" % f)
        i += 1
        out = out.cat(padded(value(c, st, args[k])[0](base), width, fill, left))
        k += 1
    return out


def streams(c, emits=None):
    """the standard library's and microfmt's writing to streams, as appending"""
    add = lambda eng, st, p, s: setstr(eng, st, p, getstr(eng, st, p).cat(s))

    def put_c(eng, st, a, ins):
        add(eng, st, a[0], models.mkstr_chars(eng, st, [a[1]]))
        return a[0]

    def put_z(eng, st, a, ins):
        add(eng, st, a[0], models.str_from_mem(eng, st, a[1], models.cstr_len(eng, st, a[1])))
        return a[0]

    def put_s(eng, st, a, ins):
        add(eng, st, a[0], getstr(eng, st, a[1]))
        return a[0]
    O = r"^(std::)?(basic_ostream<char, std::char_traits<char> >|std::basic_ostream<char, std::char_traits<char> >|std::ostream)& std::operator<< ?<"
    c.model(O + r".*&, char\)$", put_c)
    c.model(O + r".*&, char const\*\)$", put_z)
    c.model(O + r".*&, std::(__cxx11::)?(basic_string<.*>|string) const&\)$", put_s)

    def it(eng, st, a, ins):
        eng.put(st, a[0], 8, a[1])
        eng.put(st, a[0].add(8), 8, NULL)
    c.model(r"^std::ostream_iterator<char.*>::ostream_iterator\(std::(basic_)?ostream[<&]", it)

    def fmt(eng, st, a, ins):
        s = eng.load(st, a[0], ir.PTR)
        b, e = a[1], a[2]
        args, n = eng.load(st, a[3], ir.PTR), eng.load(st, a[3].add(8), ir.Ty("int", 64))
        if not isc(n):
            raise Unsupported("number of formatted values")
        text = models.str_from_mem(eng, st, b, (e.off - b.off).val()).lit_value()
        if text is None:
            raise Unsupported("a computed format string")
        add(eng, st, s, formatted(c, st, text, [args.add(24 * i) for i in range(n)]))
    c.contract(r"^void cpptrace::v1::microfmt::detail::format<std::ostream_iterator<.*, char const\*>\(", fmt, "microfmt::detail::format (to a stream)", discharged="P04")


def a_frame(c, name="frame", st=None):
    """any frame"""
    p = c.raw(name, SF_SIZE, st)
    t = type("F", (), {})()
    t.p = p
    t.raw, t.obj = c.int(name + ".raw"), c.int(name + ".object")
    t.line, t.col = c.int(name + ".line", 32), c.int(name + ".column", 32)
    t.file, t.sym = c.str(name + ".filename"), c.str(name + ".symbol")
    t.inl = c.int(name + ".inline", 8)
    (st or c.st).assume(ule(t.inl, 1, 8))
    for o, w, v in ((0, 8, t.raw), (8, 8, t.obj), (16, 4, t.line), (20, 4, t.col), (24, 32, t.file), (56, 32, t.sym), (88, 1, t.inl)):
        c.put(p.add(o), w, v, st)
    return t


def setup(c):
    c.common()
    P08.functions(c)
    streams(c)
    d = P08.offsets(c)
    t = P08.settings(c, d, "settings")
    c.st.assume(And(ule(t.v["symbols"], 2, 32), ule(t.v["addresses"], 2, 32), ule(t.v["paths"], 1, 32), ule(t.v["color"], 2, 32)))
    return t


def symbols(c):
    """pruned and pretty forms: arbitrary functions of the symbol"""
    def f(kind):
        def g(eng, st, a, ins):
            r = eng.fresh_str(st, kind)
            st.ghost[kind] = (getstr(eng, st, a[1]), r)
            setstr(eng, st, a[0], r)
        return g
    c.contract(r"^cpptrace::v1::prune_symbol\(", f("pruned"), "prune_symbol", discharged="P01")
    c.contract(r"^cpptrace::v1::prettify_symbol\(", f("pretty"), "prettify_symbol")

    def base(eng, st, a, ins):
        s = getstr(eng, st, Ptr(*a[1].obj.tag)) if a[1].obj.kind == "strdata" else models.str_from_mem(eng, st, a[1], a[2])
        r = eng.fresh_str(st, "basename")
        st.ghost["basename"] = (s, r, a[3])
        setstr(eng, st, a[0], r)
    c.contract(r"^cpptrace::v1::detail::basename\(", base, "basename", discharged="P03")


def branch(c, st, *conds):
    """every feasible combination: [(state, [bool...])]"""
    r = [(st, [])]
    for k in conds:
        r = [(s2, v + [y]) for s, v in r for s2, y in cases(c, s, k)]
    return r


def appended(c, st, p, old, want, what):
    c.holds_str(st, c.getstr(p, st), old.cat(want), what)


def colour(c):
    v = c.int("colour", 8)
    c.st.assume(ule(v, 1, 8))
    return v


def arg_colour(v):
    return v


def w_address(c, st, t, f, col):
    """-> [(state, text, width)]"""
    r = []
    for s, (inl, none, k) in branch(c, st, eqv(f.inl, 1, 8), eqv(t.v["addresses"], 2, 32), eqv(col, 1, 8)):
        if inl:
            r.append((s, lit(b"(inlined)" + b" " * 9), 18))
        elif none:
            r.append((s, Str(), 0))
        else:
            for s2, raw in cases(c, s, eqv(t.v["addresses"], 0, 32)):
                x = padded(digits(c, s2, "base16:0123456789abcdef", f.raw if raw else f.obj), 16, ord("0"), False)
                r.append((s2, lit((BLUE if k else b"") + b"0x").cat(x).cat(lit(RESET if k else b"")), 18))
    return r


@spec("P07", "the address of a frame", T)
def _(c):
    t, f = setup(c), a_frame(c)
    p, old = stream(c)
    col = colour(c)
    for o in c.normal(c.run(I + r"write_address\(", [t.p, p, f.p, col])):
        for s, x, w in w_address(c, o.st, t, f, col):
            appended(c, s, p, old, x, "the address in the configured mode, or (inlined)")
            c.ensure(s, eqv(o.val, w), "as many columns as it takes")


@spec("P07", "the number of a frame", T)
def _(c):
    t = setup(c)
    p, old = stream(c)
    w, n = c.int("width", 32), c.int("number")
    c.st.assume(ule(w, 20, 32))
    for o in c.normal(c.run(I + r"write_frame_number\(", [t.p, p, w, n])):
        appended(c, o.st, p, old, lit(b"#").cat(padded(dec(c, o.st, n), z3.ZeroExt(32, w), 0x20, True)).cat(lit(b" ")), "the number, to the common width")
        c.ensure(o, eqv(o.val, (Lin.of(z3.ZeroExt(32, w)) + 2).val()), "as many columns as it takes")


@spec("P07", "the symbol of a frame", T)
def _(c):
    t, f = setup(c), a_frame(c)
    symbols(c)
    p, old = stream(c)
    col = colour(c)
    for o in c.normal(c.run(I + r"write_symbol\(", [t.p, p, f.p, col])):
        g = o.st.ghost
        for s, (k, full, pretty) in branch(c, o.st, eqv(col, 1, 8), eqv(t.v["symbols"], 0, 32), eqv(t.v["symbols"], 1, 32)):
            x = f.sym
            if not full:
                kind = "pretty" if pretty else "pruned"
                c.ensure(s, kind in g, "the %s form is asked for" % kind)
                if kind not in g:
                    continue
                c.holds_str(s, g[kind][0], f.sym, "of the frame's symbol")
                x = g[kind][1]
            appended(c, s, p, old, lit(b"in " + (YELLOW if k else b"")).cat(x).cat(lit(RESET if k else b"")), "the symbol in the configured form")


@spec("P07", "the place of a frame", T)
def _(c):
    t, f = setup(c), a_frame(c)
    symbols(c)
    p, old = stream(c)
    col = colour(c)
    for o in c.normal(c.run(I + r"write_source_location\(", [t.p, p, f.p, col])):
        g = o.st.ghost
        for s, (k, full, noline, nocol, showcol) in branch(c, o.st, eqv(col, 1, 8), eqv(t.v["paths"], 0, 32), eqv(f.line, NULLV, 32), eqv(f.col, NULLV, 32), eqv(t.v["columns"], 1, 8)):
            B, G, R = [lit(x if k else b"") for x in (BLUE, GREEN, RESET)]
            x = f.file
            if not full:
                c.ensure(s, "basename" in g, "the base name is asked for")
                if "basename" not in g:
                    continue
                c.holds_str(s, g["basename"][0], f.file, "of the frame's file")
                x = g["basename"][1]
            want = lit(b"at ").cat(G).cat(x).cat(R)
            num = lambda v: lit(b":").cat(B).cat(digits(c, s, "10", z3.ZeroExt(32, v))).cat(R)
            if not noline:
                want = want.cat(num(f.line))
                if not nocol and showcol:
                    want = want.cat(num(f.col))
            appended(c, s, p, old, want, "the path in the configured form, the line and the column where known and wanted")


def parts(c, t, f, p, col):
    """the writers of the parts by their contracts: each appends its text for this frame and colour"""
    c.st.ghost["parts"] = ()

    def part(kind, width=None):
        def g(eng, st, a, ins):
            eng.oblige(st, kind + ": of this formatter, frame and stream, in the colour asked for", And(a[0].obj is t.p.obj, a[1].obj is p.obj, a[2].obj is f.p.obj, eqv(a[3], col, 8)))
            x = eng.fresh_str(st, kind)
            setstr(eng, st, a[1], getstr(eng, st, a[1]).cat(x))
            st.ghost["parts"] += ((kind, x),)
            return width(st) if width else None
        return g
    has = Or(eqv(f.inl, 1, 8), Not(eqv(t.v["addresses"], 2, 32)))
    c.contract(I + r"write_address\(", part("address", lambda st: Ite(has, 18, 0, 64)), "write_address", discharged="the address of a frame")
    c.contract(I + r"write_symbol\(", part("symbol"), "write_symbol", discharged="the symbol of a frame")
    c.contract(I + r"write_source_location\(", part("place"), "write_source_location", discharged="the place of a frame")
    return has


@spec("P07", "a frame is its address, symbol and place, as far as known", T)
def _(c):
    t, f = setup(c), a_frame(c)
    c.keep = True
    p, old = stream(c)
    col, indent = colour(c), c.int("indent")
    c.st.assume(ult(indent, 1 << 30))   # a width is an int
    has = parts(c, t, f, p, col)
    for o in c.normal(c.run(I + r"write_frame\(", [t.p, p, f.p, col, indent])):
        g = dict(o.st.ghost["parts"])
        c.ensure(o, len(g) == len(o.st.ghost["parts"]), "each part once")
        for s, (h, nosym, nofile, brk) in branch(c, o.st, has, eqv(f.sym.len, 0), eqv(f.file.len, 0), eqv(t.v["break_before_filename"], 1, 8)):
            c.ensure(s, set(g) - {"address"} == set((() if nosym else ("symbol",)) + (() if nofile else ("place",))), "the symbol and the place are written where known")
            want = g.get("address", Str()).cat(lit(b" " if h else b""))
            if not nosym:
                want = want.cat(g.get("symbol", Str()))
            if not nosym and not nofile:
                want = want.cat(lit(b"\n").cat(padded(Str(), (Lin.of(indent) + (19 if h else 0)).val(), 0x20, True)) if brk else lit(b" "))
            if not nofile:
                want = want.cat(g.get("place", Str()))
            appended(c, s, p, old, want, "address, symbol and place in order, separated as configured")


# ------------------------------------------------------------------ colour
def terminals(c):
    """std::cout, std::cerr, and whether they are terminals"""
    t = type("T", (), {})()
    t.tty = {1: c.bool("stdout is a terminal"), 2: c.bool("stderr is a terminal")}

    def isatty(eng, st, a, ins):
        if not isc(a[0]) or a[0] not in t.tty:
            raise Unsupported("isatty of %r" % (a[0],))
        return Ite(eqv(t.tty[a[0]], 1, 1), 1, 0, 32)
    c.model(r"^isatty$", isatty)
    c.model(r"^cpptrace::v1::detail::enable_virtual_terminal_processing_if_needed\(", lambda eng, st, a, ins: None)
    return t


def standard(c, name, st=None):
    m = next(m for m in c.prog.modules if name in m.globals)
    p = c.eng.global_ptr(st or c.st, m, name)
    s = c.str(name)
    c.put(p, 32, s, st)
    return p, s


def override(c, k, name="override"):
    """optional<bool>: none, or any value"""
    p = c.raw(name, 2)
    v = c.int(name + ".value", 8)
    c.st.assume(ule(v, 1, 8))
    c.put(p, 1, v)
    c.put(p.add(1), 1, 1 if k else 0)
    return p, v


WHERE = ("another stream", "std::cout", "std::cerr")


def wants(c, st, t, where, tty, k, ov):
    """the colour decided: the parameter; otherwise always, or automatically on a terminal"""
    if k:
        return [(s, y) for s, y in cases(c, st, eqv(ov, 1, 8))]
    r = []
    for s, (always, auto) in branch(c, st, eqv(t.v["color"], 0, 32), eqv(t.v["color"], 2, 32)):
        if always or not auto or where == 0:
            r.append((s, always))
        else:
            r += cases(c, s, eqv(tty[where], 1, 1))
    return r


for where in (0, 1, 2):
    for k in (False, True):
        @spec("P07", "whether colours are used (%s, %s)" % (WHERE[where], "with a colour parameter" if k else "no parameter"), T)
        def _(c, where=where, k=k):
            t = setup(c)
            tm = terminals(c)
            p, old = stream(c) if where == 0 else standard(c, "_ZSt4cout" if where == 1 else "_ZSt4cerr")
            q, v = override(c, k)
            for o in c.normal(c.run(I + r"should_do_color\(", [t.p, p, q])):
                for s, y in wants(c, o.st, t, where, tm.tty, k, v):
                    c.ensure(s, truth(o.val) == y if isinstance(truth(o.val), bool) else Iff(truth(o.val), y), "the parameter decides; without one: always, never, or on a terminal")


# ------------------------------------------------------------------ where a trace starts
MACHINERY = (b"__cxa_throw", b"CxxThrowException", b"_CxxThrowException")


def is_throw(s):
    return Or(*[And(eqv(s.len, len(m)), *[eqv(s.at(i), m[i], 8) for i in range(len(m))]) for m in MACHINERY])


@spec("P07", "which frames are exception machinery", T)
def _(c):
    c.common()
    f = a_frame(c)
    lam = c.raw("lambda", 8)
    for o in c.normal(c.run(I + r"get_trace_start\(.*\{lambda\(.*stacktrace_frame const&\)#1\}::operator\(\)\(", [lam, f.p])):
        for s, y in cases(c, o.st, is_throw(f.sym)):
            c.ensure(s, Iff(truth(o.val), y), "exactly the throw functions")


def a_trace(c, name="trace"):
    """any trace: frames are known by their number"""
    p = c.raw(name, 24)
    t = type("T", (), {})()
    t.p, t.n = p, c.int(name + ".frames")
    c.st.assume(ult(t.n, 1 << 30))
    et = c.type_like(r"^struct.cpptrace::v1::stacktrace_frame$")
    eng = c.eng
    B = z3.BitVecSort(64)
    S = z3.Function(name + "!char", B, B, B, z3.BitVecSort(8))
    ln = z3.Function(name + "!len", B, B, B)
    W = {w: z3.Function(name + "!f%d" % w, B, B, z3.BitVecSort(8 * w)) for w in (1, 4, 8)}

    def base(i, fo, w, ty):
        i = bv(i, 64)
        if fo in (24, 56):
            return Str.sym((name, fo, i.get_id()), ln(i, bv(fo, 64)), lambda j: S(i, bv(fo, 64), bv(j, 64)))
        v = W[w](i, bv(fo, 64))
        return z3.ZeroExt(7, z3.Extract(0, 0, v)) if fo == 88 else v   # a bool
    t.obj = c.st.new_obj(name + " frames", Lin.of(t.n).scale(SF_SIZE).val(), "heap", engine.Arr(SF_SIZE, base, (), models.flatten(et)))
    t.et, t.base = et, base
    c.put(p, 24, Vec(t.obj, t.n, SF_SIZE))
    return t


for hide in (True, False):
    @spec("P07", "a trace starts right after the throw frame%s" % ("" if hide else ", unless machinery is shown"), T)
    def _(c, hide=hide):
        s = setup(c)
        c.st.assume(eqv(s.v["hide_exception_machinery"], 1 if hide else 0, 8))
        t = a_trace(c)
        M = z3.Function("is throw frame", z3.BitVecSort(64), z3.BoolSort())
        trig = {"is throw frame"}

        def find(eng, st, a, ins):
            b, e = [x if isinstance(x, Ptr) else eng.load(st, x, ir.PTR) for x in a[:2]] if len(a) == 2 else [x if isinstance(x, Ptr) else None for x in a[:2]]
            if b.obj is not t.obj or e.obj is not t.obj:
                raise Unsupported("find_if over %r" % (b,))
            eng.oblige(st, "the whole trace is searched", And(eqv(b.off.val(), 0), eqv(e.off.val(), Lin.of(t.n).scale(SF_SIZE).val())))
            if st.decide(eng.fresh("found", 1)):
                r = eng.fresh("found at", 64)
                st.assume(And(ult(r, t.n), M(r)))
                st.assume(Forall(lambda k: Implies(ult(k, r), Not(M(k))), trig, "the first"))
                return Ptr(t.obj, Lin.of(r).scale(SF_SIZE))
            st.assume(Forall(lambda k: Implies(ult(k, t.n), Not(M(k))), trig, "none"))
            return e
        c.contract(r"std::find_if<.*get_trace_start", find, "std::find_if with the predicate", discharged=None)
        for o in c.normal(c.run(I + r"get_trace_start\(cpptrace::v1::stacktrace const&\) const$", [s.p, t.p])):
            r = o.val
            if not hide:
                c.ensure(o, eqv(r, 0), "every frame is shown")
                continue
            for st, z in cases(c, o.st, eqv(r, 0)):
                k = bv(c.int("k"), 64)
                if z:
                    c.ensure(st, Implies(ult(k, t.n), Not(M(k))), "from the beginning only without a throw frame")
                else:
                    at = (Lin.of(r) - 1).val()
                    c.ensure(st, And(ult(at, t.n), M(bv(at, 64))), "right after a throw frame")
                    c.ensure(st, Implies(ult(k, at), Not(M(k))), "the first one")


# ------------------------------------------------------------------ a whole trace
class Events:
    """what one round did; forgotten at the loop head"""
    def __init__(self, e=()):
        self.e = tuple(e)

    def add(self, *x):
        return Events(self.e + (x,))

    def havoc(self, eng, s, name):
        return Events()


FIELDS = ((0, 8), (8, 8), (16, 4), (20, 4), (88, 1))


def fields(c, st, p):
    """the contents of a frame"""
    return tuple(c.get(p.add(o), w, st=st) for o, w in FIELDS) + tuple(getstr(c.eng, st, p.add(o)) for o in (24, 56))


def same_fields(c, st, a, b, what):
    for (o, w), x, y in zip(FIELDS, a, b):
        c.ensure(st, eqv(x, y, 8 * w), what + " (field at %d)" % o)
    for x, y, n in zip(a[5:], b[5:], ("filename", "symbol")):
        c.holds_str(st, x, y, what + " (%s)" % n)


def callables(c, s):
    """the filter and the transform: any functions; what they were asked is recorded"""
    eng = c.eng
    ev = lambda st, *x: st.ghost.__setitem__("ev", st.ghost["ev"].add(*x))

    def transform(eng, st, a, ins):
        r, f, p = a
        eng.oblige(st, "the transform called is the configured one", f.obj is s.p.obj and f.off.const() == s.d["transform"])
        got = fields(c, st, p)
        t = [eng.fresh("transformed.%d" % o, 8 * w) for o, w in FIELDS]
        st.assume(ule(t[4], 1, 8))
        t += [eng.fresh_str(st, "transformed.filename"), eng.fresh_str(st, "transformed.symbol")]
        for (o, w), v in zip(FIELDS, t):
            eng.put(st, r.add(o), w, v)
        for o, v in zip((24, 56), t[5:]):
            setstr(eng, st, r.add(o), v)
        ev(st, "transform", got, tuple(t))

    def filt(eng, st, a, ins):
        f, p = a
        eng.oblige(st, "the filter called is the configured one", f.obj is s.p.obj and f.off.const() == s.d["filter"])
        v = st.decide(eng.fresh("passes", 1))
        ev(st, "filter", fields(c, st, p), v)
        return v
    c.model(r"^std::function<cpptrace::v1::stacktrace_frame \(cpptrace::v1::stacktrace_frame\)>::operator\(\)\(", transform)
    c.model(r"^std::function<bool \(cpptrace::v1::stacktrace_frame const&\)>::operator\(\)\(", filt)
    return ev


def trace_spec(empty_filter, empty_transform, how):
    @spec("P07", "a trace is its header and one entry per shown frame, in order (%s)" % how, T, secs=200)
    def _(c):
        c.common()
        c.keep = True
        eng = c.eng
        P08.functions(c)
        streams(c)
        d = P08.offsets(c)
        s = P08.settings(c, d, "settings", empty_filter, empty_transform)
        t = a_trace(c)
        c.st.assume(ult(0, t.n))
        p, old = stream(c)
        col = c.bool("colour")
        c.st.ghost["ev"] = Events()
        ev = callables(c, s)
        start = c.int("start")
        c.st.assume(ule(start, t.n))
        width = c.int("digits", 32)
        c.st.assume(And(ule(1, width, 32), ule(width, 10, 32)))
        N = lambda st: local(st, "i")

        def starts(eng, st, a, ins):
            eng.oblige(st, "the start of this trace", And(a[0].obj is s.p.obj, a[1].obj is t.p.obj))
            return start
        c.contract(I + r"get_trace_start\(cpp", starts, "get_trace_start", discharged="a trace starts right after the throw frame")

        def nd(eng, st, a, ins):
            eng.oblige(st, "the digits of the last number", eqv(a[0], z3.Extract(31, 0, bv((Lin.of(t.n) - 1).val(), 64)), 32))
            return width
        c.contract(r"^cpptrace::v1::detail::n_digits\(", nd, "n_digits", discharged="P23")

        def number(eng, st, a, ins):
            x = eng.fresh_str(st, "number")
            eng.oblige(st, "to this stream", a[1].obj is p.obj)
            setstr(eng, st, a[1], getstr(eng, st, a[1]).cat(x))
            ev(st, "number", a[2], a[3], x)
            return (Lin.of(z3.ZeroExt(32, bv(a[2], 32))) + 2).val()
        c.contract(I + r"write_frame_number\(", number, "write_frame_number", discharged="the number of a frame")

        def frame(eng, st, a, ins):
            x = eng.fresh_str(st, "frame")
            eng.oblige(st, "to this stream", a[1].obj is p.obj)
            setstr(eng, st, a[1], getstr(eng, st, a[1]).cat(x))
            ev(st, "frame", fields(c, st, a[2]), a[3], a[4], x)
        c.contract(I + r"write_frame\(", frame, "write_frame", discharged="a frame is its address, symbol and place")

        def snippet(eng, st, a, ins):
            x = eng.fresh_str(st, "snippet")
            setstr(eng, st, a[0], x)
            ev(st, "snippet", getstr(eng, st, a[1]), a[2], a[3], a[4], a[5], x)
        c.contract(r"^cpptrace::v1::detail::get_snippet\(", snippet, "get_snippet", discharged="P09")
        eng.by_invariant.append("write_trace")
        heads = []
        text = lambda st: getstr(eng, st, p)
        seen = []

        def tmpl(e, entry, mods, steps, ctx):
            if "write_trace" not in ctx.fn.dem or ctx.fn.dem.startswith("std::"):
                return []
            q = Out("ret", entry, None)
            for st, z in cases(c, q, eqv(s.header.len, 0)):
                appended(c, st, p, old, Str() if z else s.header.cat(lit(b"\n")), "the header comes first, on a line of its own")
            c.ensure(q, And(eqv(N(entry), start), truth(local(entry, "first"))), "from the start of the trace")
            return [("numbers count from the start", lambda st: eqv((Lin.of(local(st, "counter")) + Lin.of(start)).val(), N(st))),
                    ("within the trace", lambda st: ule(N(st), t.n))]

        def one(e, h, b, ctx):
            if "write_trace" not in ctx.fn.dem or ctx.fn.dem.startswith("std::"):
                return
            seen.append(1)
            i = bv(N(h), 64)
            q = Out("ret", b, None)
            c.ensure(q, eqv(N(b), i + 1), "one frame after the other")
            heads.append(text(h))
            at = Ptr(t.obj, Lin.of(i).scale(SF_SIZE))
            src = fields(c, h, at)
            evs = b.ghost["ev"].e
            kinds = [x[0] for x in evs]
            want = ([] if empty_transform else ["transform"]) + ([] if empty_filter else ["filter"])
            c.ensure(q, kinds[:len(want)] == want, "the transform and the filter are asked once, in this order")
            if kinds[:len(want)] != want:
                return
            shown = src
            if not empty_transform:
                same_fields(c, b, evs[0][1], src, "the transform is given the frame")
                shown = evs[0][2]
            out = False
            if not empty_filter:
                x = evs[len(want) - 1]
                same_fields(c, b, x[1], shown, "the filter is given the frame to be shown")
                out = not x[2]
            rest = evs[len(want):]
            for st, (first, ph) in branch(c, b, truth(local(h, "first")), eqv(s.v["show_filtered_frames"], 1, 8)):
                q = Out("ret", st, None)
                if out and not ph:
                    c.ensure(q, not rest, "a frame filtered out is not shown")
                    appended(c, st, p, text(h), Str(), "and leaves no trace of itself")
                    c.ensure(q, Iff(truth(local(st, "first")), first), "nothing has been shown yet, or something has")
                    continue
                c.ensure(q, Not(truth(local(st, "first"))), "something has been shown")
                ok = [x[0] for x in rest] in ((["number"],) if out else (["number", "frame"], ["number", "frame", "snippet"]))
                c.ensure(q, ok, "a number, then the entry")
                if not ok:
                    continue
                num = rest[0]
                c.ensure(q, And(eqv(num[1], width, 32), eqv((Lin.of(num[2]) + Lin.of(start)).val(), i)), "numbered from the start, filtered frames included")
                w = (Str() if first else lit(b"\n")).cat(num[3])
                if out:
                    appended(c, st, p, text(h), w.cat(lit(b"(filtered)")), "a filtered frame shows the placeholder")
                    continue
                f = rest[1]
                same_fields(c, st, f[1], shown, "the frame shown")
                c.ensure(q, And(Iff(truth(f[2]), eqv(col, 1, 1)), eqv(f[3], (Lin.of(z3.ZeroExt(32, width)) + 2).val())), "in the colour asked for, indented by its number")
                w = w.cat(f[4])
                line, column, file = shown[2], shown[3], shown[5]
                for st2, (on, noline, nofile) in branch(c, st, eqv(s.v["snippets"], 1, 8), eqv(line, NULLV, 32), eqv(file.len, 0)):
                    yes = on and not noline and not nofile
                    c.ensure(st2, yes == (len(rest) == 3), "a snippet where wanted and known")
                    if not yes or len(rest) < 3:
                        appended(c, st2, p, text(h), w, "separator, number, frame")
                        continue
                    sn = rest[2]
                    c.holds_str(st2, sn[1], file, "the snippet is of the frame's file")
                    c.ensure(st2, And(eqv(sn[2], z3.ZeroExt(32, bv(line, 32))), eqv(sn[3], column, 32), eqv(sn[4], z3.SignExt(32, bv(s.v["context_lines"], 32))),
                                      Iff(truth(sn[5]), eqv(col, 1, 1))), "its line and column, with the configured context and colour")
                    for st3, none in cases(c, st2, eqv(sn[6].len, 0)):
                        appended(c, st3, p, text(h), w if none else w.cat(lit(b"\n")).cat(sn[6]), "separator, number, frame and snippet")
        eng.loop_templates.append(tmpl)
        eng.loop_steps.append(one)
        for o in c.normal(c.run(I + r"write_trace\(", [s.p, p, t.p, col])):
            c.ensure(o, any(text(o.st).same(x) for x in heads), "nothing after the last entry")
        if not seen:
            raise Unsupported("no step of the loop was seen")


trace_spec(True, True, "no filter, no transform")
trace_spec(False, True, "any filter")
trace_spec(True, False, "any transform")
trace_spec(False, False, "any filter and transform")


@spec("P07", "an empty trace is its header and the placeholder", T)
def _(c):
    s, t = setup(c), a_trace(c)
    c.st.assume(eqv(t.n, 0))
    p, old = stream(c)
    for o in c.normal(c.run(I + r"write_trace\(", [s.p, p, t.p, c.bool("colour")])):
        for st, z in cases(c, o, eqv(s.header.len, 0)):
            appended(c, st, p, old, (Str() if z else s.header.cat(lit(b"\n"))).cat(lit(b"<empty trace>")), "the header, then the placeholder")


# ------------------------------------------------------------------ the entry points
for has in (True, False):
    @spec("P07", "a single frame is transformed, then written (%s)" % ("any transform" if has else "no transform"), T)
    def _(c, has=has):
        c.common()
        c.keep = True
        eng = c.eng
        P08.functions(c)
        streams(c)
        d = P08.offsets(c)
        s = P08.settings(c, d, "settings", True, not has)
        f = a_frame(c)
        src = fields(c, c.st, f.p)
        p, old = stream(c)
        q, _ = override(c, True)
        c.st.ghost["ev"] = Events()
        ev = callables(c, s)
        col, indent = c.bool("colour"), c.int("indent")

        def should(eng, st, a, ins):
            eng.oblige(st, "the colour of this stream and parameter", And(a[0].obj is s.p.obj, a[1].obj is p.obj, eqv(c.get(a[2].add(1), 1, st=st), 1, 8), eqv(c.get(a[2], 1, st=st), c.get(q, 1, st=st), 8)))
            return col
        c.contract(I + r"should_do_color\(", should, "should_do_color", discharged="whether colours are used")
        c.model(r"maybe_ensure_virtual_terminal_processing\(", lambda eng, st, a, ins: None)
        c.contract(I + r"write_frame\(", lambda eng, st, a, ins: ev(st, "frame", a[1], fields(c, st, a[2]), a[3], a[4]), "write_frame", discharged="a frame is its address, symbol and place")
        for o in c.normal(c.run(I + r"print_internal\(std::.*ostream.*&, cpptrace::v1::stacktrace_frame const&", [s.p, p, f.p, q, indent])):
            e = o.st.ghost["ev"].e
            ok = [x[0] for x in e] == (["transform"] if has else []) + ["frame"]
            c.ensure(o, ok, "transformed once, written once")
            if not ok:
                continue
            if has:
                same_fields(c, o.st, e[0][1], src, "the transform is given the frame")
            same_fields(c, o.st, e[-1][2], e[0][2] if has else src, "the frame written")
            c.ensure(o, And(e[-1][1].obj is p.obj, Iff(truth(e[-1][3]), eqv(col, 1, 1)), eqv(e[-1][4], indent)), "to the stream, in the colour decided, with the indent given")


@spec("P07", "a trace is written in the colour decided", T)
def _(c):
    s, t = setup(c), a_trace(c)
    c.keep = True
    p, old = stream(c)
    q, v = override(c, True)
    col = c.bool("colour")
    c.st.ghost["ev"] = Events()
    c.contract(I + r"should_do_color\(", lambda e, st, a, ins: (e.oblige(st, "the colour of this stream and parameter", And(a[1].obj is p.obj, eqv(c.get(a[2].add(1), 1, st=st), 1, 8), eqv(c.get(a[2], 1, st=st), v, 8))), col)[1], "should_do_color", discharged="whether colours are used")
    c.model(r"maybe_ensure_virtual_terminal_processing\(", lambda eng, st, a, ins: None)
    c.contract(I + r"write_trace\(", lambda e, st, a, ins: st.ghost.__setitem__("ev", st.ghost["ev"].add(a[1], a[2], a[3])), "write_trace", discharged="a trace is its header")
    for o in c.normal(c.run(I + r"print_internal\(std::.*ostream.*&, cpptrace::v1::stacktrace const&", [s.p, p, t.p, q])):
        e = o.st.ghost["ev"].e
        c.ensure(o, len(e) == 1, "written once")
        for x in e:
            c.ensure(o, And(x[0].obj is p.obj, x[1].obj is t.p.obj, Iff(truth(x[2]), eqv(col, 1, 1))), "this trace, to the stream, in the colour decided")


OSS = r"^std::(__cxx11::)?(basic_ostringstream<char, std::char_traits<char>, std::allocator<char> ?>|ostringstream)::"


def sinks(c, s, what, indent, decided, seen):
    """print_internal by its contract: appends the text of what it is given in the colour decided for the stream"""
    c.model(OSS + r"(basic_)?ostringstream\(\)", lambda e, st, a, ins: setstr(e, st, a[0], Str()))
    c.model(OSS + r"~(basic_)?ostringstream\(\)", lambda e, st, a, ins: None)
    c.model(OSS + r"str\(\) (const|&&|const&|const &)", lambda e, st, a, ins: setstr(e, st, a[0], getstr(e, st, a[1])))
    P = lambda st: st.ghost["texts"]

    def written(e, st, a, ins):
        k = c.get(a[3].add(1), 1, st=st)
        seen.append((st, a, k, c.get(a[3], 1, st=st)))
        e.oblige(st, "what is written is what was given", And(a[0].obj is s.p.obj, a[2].obj is what.obj, *([eqv(a[4], indent)] if len(a) > 4 else [])))
        x = e.fresh_str(st, "text")
        st.ghost["texts"] = P(st) + ((a[1], k, c.get(a[3], 1, st=st) if not (isc(k) and k == 0) else None, x),)
        setstr(e, st, a[1], getstr(e, st, a[1]).cat(x))
    c.contract(I + r"print_internal\(", written, "print_internal", discharged="a trace is written / a single frame is transformed")

    def fwrite(e, st, a, ins):
        n = (Lin.of(a[1]).scale(a[2]) if isc(a[2]) else Lin.of(a[2]).scale(a[1])).val()
        src = getstr(e, st, Ptr(*a[0].obj.tag)) if a[0].obj.kind == "strdata" else None
        if src is None:
            raise Unsupported("fwrite from %r" % (a[0],))
        e.oblige(st, "the whole text is written", And(eqv(a[0].off.val(), 0), eqv(n, src.len)))
        setstr(e, st, a[3], getstr(e, st, a[3]).cat(src))
        return a[2]
    c.model(r"^fwrite$", fwrite)


def entry(kind, sink, param, ind):
    """kind: frame|trace; sink: string|cout|stream|file"""
    fn = "format" if sink == "string" else "print"
    name = "%s a %s%s%s%s" % (fn, kind, {"string": "", "cout": " to std::cout", "stream": " to a stream", "file": " to a file"}[sink], ", colour given" if param else "", ", indented" if ind else "")

    @spec("P07", name, T)
    def _(c):
        s = setup(c)
        c.keep = True
        c.st.ghost["texts"] = ()
        what = c.raw("what", 96)
        p, old = (None, Str()) if sink == "string" else standard(c, "_ZSt4cout") if sink == "cout" else stream(c)
        col, indent = c.bool("colour"), c.int("indent") if ind else 0
        seen = []
        sinks(c, s, what, indent, None, seen)
        rx = r"^cpptrace::v1::formatter::%s\(%scpptrace::v1::%s const&%s%s\) const$" % (
            fn, {"string": "", "cout": "", "stream": r"std::.*ostream.*&, ", "file": r"_IO_FILE\*, "}[sink], "stacktrace_frame" if kind == "frame" else "stacktrace", ", bool" if param else "", ", unsigned long" if ind else "")
        f = P08.formatter(c, s, "formatter")
        args = [f] + ([p] if sink in ("stream", "file") else []) + [what] + ([col] if param else []) + ([indent] if ind else [])
        for o in c.normal(c.run(rx, args)):
            x = o.st.ghost["texts"]
            c.ensure(o, len(x) == 1, "written once")
            for where, k, v, text in x[:1]:
                if param:
                    c.ensure(o, And(eqv(k, 1, 8), eqv(v, z3.ZeroExt(7, bv(col, 1)), 8)), "in the colour given")
                elif sink in ("cout", "stream"):
                    c.ensure(o, eqv(k, 0, 8), "the colour is decided for the stream")
                    c.ensure(o, where.obj is p.obj, "the stream is the one given")
                else:
                    c.ensure(o, Or(eqv(k, 0, 8), Iff(eqv(v, 1, 8), eqv(s.v["color"], 0, 32))), "in colour only when always asked for")
                if sink == "string":
                    c.holds_str(o, getstr(c.eng, o.st, o.val), text, "the text is given back")
                else:
                    appended(c, o.st, p, old, text.cat(lit(b"\n")), "the text and a newline are written")


for kind in ("trace", "frame"):
    for sink in ("string", "cout", "stream", "file"):
        for param in (False, True):
            for ind in (False, True):
                if ind and not (param and kind == "frame" and sink != "cout"):
                    continue
                entry(kind, sink, param, ind)
