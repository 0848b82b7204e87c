"""P04: microfmt.  The writer (padding), the integer renderer, the dispatch over value kinds and the format parser are each proved
against a contract; the parser's contract is per iteration of its loop, from an arbitrary position in an arbitrary text."""
from dv.spec import *
from dv.models import str_eq_goal, getstr, setstr, str_from_mem
from dv.vals import Piece

T = [TU("probe:fmt")]
MF = r"cpptrace::v1::microfmt::detail::"
IT = r"std::back_insert_iterator<"


def rep(ch, n):
    """n times the character"""
    if isc(n) and n == 0:
        return Str()
    return Str.sym(("rep", ch if isc(ch) else ch.get_id(), Lin.of(n).key()), n, lambda k: ch)


def iters(c):
    """std::back_insert_iterator over std::string: assignment appends"""
    eng = c.eng

    def copy(eng, st, a, ins):
        b, e, out = a
        eng.oblige(st, "std::copy: a valid range", And(b.obj is e.obj, ule(b.off.val(), e.off.val())))
        n = (e.off - b.off).val()
        setstr(eng, st, out, getstr(eng, st, out).cat(str_from_mem(eng, st, b, n)))
        return out

    def fill(eng, st, a, ins):
        out, n, p = a
        setstr(eng, st, out, getstr(eng, st, out).cat(rep(eng.load(st, p, ir.I8), n)))
        return out

    def deref(eng, st, a, ins):
        return a[0]

    def post(eng, st, a, ins):
        return eng.load(st, a[0], ir.PTR)

    def put(eng, st, a, ins):
        out = eng.load(st, a[0], ir.PTR)
        setstr(eng, st, out, getstr(eng, st, out).cat(models.mkstr_chars(eng, st, [eng.load(st, a[1], ir.I8)])))
        return a[0]
    c.model(r"^std::back_insert_iterator<.*> std::copy<", copy)
    c.model(r"^std::back_insert_iterator<.*> std::fill_n<", fill)
    c.model(r"^std::back_insert_iterator<.*>::operator\*\(\)", deref)
    c.model(r"^std::back_insert_iterator<.*>::operator\+\+\(", lambda eng, st, a, ins: post(eng, st, a, ins) if len(a) > 1 else a[0])
    c.model(r"^std::back_insert_iterator<.*>::operator=\(", put)


def options(c, st=None, **kw):
    """format_options object with arbitrary contents"""
    p = c.raw("options", 24, st)
    v = {}
    for n, off, w in (("align", 0, 4), ("fill", 4, 1), ("width", 8, 8), ("base", 16, 1)):
        v[n] = kw[n] if n in kw else c.int(n, 8 * w)
        c.put(p.add(off), w, v[n], st)
    c.st.assume(ult(v["align"], 2, 32)) if "align" not in kw else None
    return p, v


def read_options(eng, st, p):
    return {n: eng.load(st, p.add(off), ir.Ty("int", 8 * w)) for n, off, w in (("align", 0, 4), ("fill", 4, 1), ("width", 8, 8), ("base", 16, 1))}


def padded(c, st, text, o):
    """cases of the padded text: [(state, string)]"""
    r = []
    for s, short in cases(c, st, ult(text.len, o["width"])):
        if not short:
            r.append((s, text))
            continue
        pad = rep(o["fill"], (Lin.of(o["width"]) - Lin.of(text.len)).val())
        for s2, left in cases(c, s, eqv(o["align"], 0, 32)):
            r.append((s2, text.cat(pad) if left else pad.cat(text)))
    return r


for kind, rx in (("characters", r"void " + MF + r"do_write<.*, char const\*>\("),
                 ("a string", r"void " + MF + r"do_write<.*, __gnu_cxx::__normal_iterator<char\*, .*>\("),
                 ("a constant string", r"void " + MF + r"do_write<.*, __gnu_cxx::__normal_iterator<char const\*, .*>\(")):
    @spec("P04", "writing %s pads to exactly the width, on the requested side, and never truncates" % kind, T)
    def _(c, rx=rx):
        iters(c)
        out, old = c.string("out")
        o, v = options(c)
        a, text, _ = c.sv("text")
        for x in c.normal(c.run(rx, [out, a[0], a[0].add(text.len), o])):
            for s, want in padded(c, x, text, v):
                c.holds_str(s, c.getstr(out, s), old.cat(want), "the text, padded")


DIG = {"l": b"0123456789abcdef", "u": b"0123456789ABCDEF"}


for shift, mk in ((4, 15), (3, 7), (1, 1)):
    for lo, hi in ((0, 22), (22, 44), (44, 64)):
        @spec("P04", "a value in base %d has exactly its minimal digits (highest bit %d..%d)" % (mk + 1, lo, hi - 1), T, secs=90, unroll=70)
        def _(c, shift=shift, mk=mk, lo=lo, hi=hi):
            cur = {}

            def clz(eng, st, a, ins):
                eng.oblige(st, "count of leading zeros", And(Not(eqv(a[0], 0)), eqv(z3.LShR(bv(a[0], 64), cur["b"]), 1)))
                return 63 - cur["b"]
            c.model(r"^llvm\.ctlz\.i64", clz)
            # digits: any table of mask+1 characters
            tab = c.eng.fresh_fn("digit", 8)
            t = Str.sym(("table",), mk + 1, lambda k: tab(bv(k, 64)))
            tp = Ptr(c.eng.bytes_obj(c.st, "digits", t, nul=True))
            f = r"std::string " + MF + r"to_string<%d, %d>\(|basic_string<.*> " % (shift, mk) + MF + r"to_string<%d, %d>\(" % (shift, mk)
            if lo == 0:
                for o in c.normal(c.run(f, [0, tp], c.st.copy())):
                    c.holds_str(o, c.getstr(o.val, o.st), Str.lit(b"0"), "zero is one digit")
            for b in range(lo, hi):
                cur["b"] = b
                st = c.st.copy()
                x = c.eng.fresh("value", 64)
                c.inputs.append(("value", x))
                st.assume(eqv(z3.LShR(x, b), 1))
                n = 1 + b // shift
                for o in c.normal(c.run(f, [x, tp], st)):
                    r = c.getstr(o.val, o.st)
                    c.ensure(o, eqv(r.len, n), "number of digits")
                    c.ensure(o, And(*[eqv(r.at(i), tab(z3.LShR(x, shift * (n - 1 - i)) & mk), 8) for i in range(n)]), "every digit")


def digits(c, st, base, v):
    if base == "10":
        return models.dec_str(c.eng, st, v, 64, False)
    n = z3.Function("len!" + base, z3.BitVecSort(64), z3.BitVecSort(64))(bv(v, 64))
    st.assume(And(ule(1, n), ule(n, 64)))
    return Str.sym(("digits", base, v if isc(v) else bv(v, 64).get_id()), n,
                   lambda k, f=z3.Function("chr!" + base, z3.BitVecSort(64), z3.BitVecSort(64), z3.BitVecSort(8)): f(bv(v, 64), bv(k, 64)))


def renderers(c):
    """to_string<shift, mask>(value, table) by its contract (proved above)"""
    for shift, mk in ((4, 15), (3, 7), (1, 1)):
        def f(eng, st, a, ins, mk=mk):
            r, v, t = a
            tab = str_from_mem(eng, st, t, mk + 1).lit_value()
            if tab is None:
                raise Unsupported("digit table")
            setstr(eng, st, r, digits(c, st, "base%d:%s" % (mk + 1, tab.decode()), v))
        c.contract(MF + r"to_string<%d, %d>\(" % (shift, mk), f, "to_string<%d, %d>" % (shift, mk),
                   discharged="a value in base %d has exactly its minimal digits" % (mk + 1))


def rendered(c, st, v, o):
    r = []
    b = o["base"]
    rest = [st]
    for ch, base in ((b"H", "base16:0123456789ABCDEF"), (b"h", "base16:0123456789abcdef"), (b"o", "base8:01234567"), (b"b", "base2:01")):
        nxt = []
        for s in rest:
            for s2, y in cases(c, s, eqv(b, ch[0], 8)):
                if y:
                    r.append((s2, digits(c, s2, base, v)))
                else:
                    nxt.append(s2)
        rest = nxt
    return r + [(s, digits(c, s, "10", v)) for s in rest]


@spec("P04", "an integer is rendered in the base asked for", T)
def _(c):
    c.bounded = False
    renderers(c)
    o, v = options(c)
    x = c.int("value")
    for q in c.normal(c.run(MF + r"to_string\(unsigned long", [x, o])):
        for s, want in rendered(c, q, x, v):
            c.holds_str(s, c.getstr(q.val, s), want, "digits of the value in that base")


def fv(c, kind, st=None):
    """format_value of each kind -> (pointer, builder of the text, int view)"""
    st = st or c.st
    tag = {"char": 0, "int64": 1, "uint64": 2, "string": 3, "view": 4, "cstr": 5}[kind]
    p = c.raw("value", 24)
    c.put(p.add(16), 4, tag)
    if kind == "char":
        ch = c.int("c", 8)
        c.put(p, 1, ch)
        return p, ch
    if kind in ("int64", "uint64"):
        x = c.int("value")
        c.put(p, 8, x)
        return p, x
    if kind == "string":
        q, s = c.string("string")
        c.put(p, 8, q)
        return p, s
    if kind == "view":
        a, s, _ = c.sv("view")
        c.put(p, 8, a[0])
        c.put(p.add(8), 8, s.len)
        return p, s
    q, s = c.cstr("cstr")
    c.put(p, 8, q)
    return p, s


for kind in ("char", "int64", "uint64", "string", "view", "cstr"):
    @spec("P04", "writing a value: %s" % kind, T)
    def _(c, kind=kind):
        iters(c)
        c.bounded = False
        renderers(c)
        out, old = c.string("out")
        o, v = options(c)
        p, x = fv(c, kind)
        for q in c.normal(c.run(MF + r"format_value::write<", [p, out, o])):
            if kind == "int64":
                alts = []
                for s, neg in cases(c, q, z3.BitVecVal(0, 64) > x):
                    for s2, d in rendered(c, s, (Lin(0) - Lin.of(x)).val() if neg else x, v):
                        alts.append((s2, Str.lit(b"-").cat(d) if neg else d))
            elif kind == "uint64":
                alts = rendered(c, q, x, v)
            elif kind == "char":
                alts = [(q.st, models.mkstr_chars(c.eng, q.st, [x]))]
            else:
                alts = [(q.st, x)]
            for s, text in alts:
                for s2, want in padded(c, s, text, v):
                    c.holds_str(s2, c.getstr(out, s2), old.cat(want), "the value's text, padded")

    @spec("P04", "a value used as a width: %s" % kind, T)
    def _(c, kind=kind):
        p, x = fv(c, kind)
        for q in c.normal(c.run(MF + r"format_value::unwrap_int\(", [p])):
            if kind in ("int64", "uint64"):
                c.ensure(q, eqv(q.val, z3.Extract(31, 0, x), 32), "the integer")
            else:
                c.ensure(q, eqv(q.val, 0, 32), "not an integer: zero")


# ------------------------------------------------------------------ the parser
READ = r"format<std::back_insert_iterator<.*>, char const\*>\(.*\)::\{lambda\(\)#1\}::operator\(\)\(\) const$"


def digit(ch):
    return And(ule(ord("0"), ch, 8), ule(ch, ord("9"), 8))


def isdigit(c):
    # C library: defined for unsigned char values and EOF; glibc accepts every char value
    c.model(r"^isdigit", lambda eng, st, a, ins: Ite(And(ule(48, a[0], 32), ule(a[0], 57, 32)), 1, 0, 32))


@spec("P04", "reading a width: all the digits, and a value that fits an int", T)
def _(c):
    isdigit(c)
    a, text, _ = c.sv("text")
    p0 = c.int("position")
    c.st.assume(ule(p0, text.len))
    itv, endv = c.raw("it", 8), c.raw("end", 8)
    c.put(itv, 8, a[0].add(p0))
    c.put(endv, 8, a[0].add(text.len))
    lam = c.raw("lambda", 16)
    # captured references, in the order of the closure's fields
    c.put(lam, 8, itv)
    c.put(lam.add(8), 8, endv)

    def tmpl(eng, entry, mods, steps, ctx):
        r = []
        for m in mods:
            if len(m) == 3 and isinstance(m[1], int):
                x = entry.mem[m[0]].d.get(m[1])
                if x and isinstance(x[1], Ptr) and x[1].obj is a[0].obj:
                    def dg(st, m=m):
                        q = st.mem[m[0]].d[m[1]][1].off.val()
                        return Forall(lambda k: Implies(And(ule(p0, k), ult(k, q)), digit(text.at(k))), None, "digits so far")
                    r.append(("all digits up to the scan", dg))
                elif x and m[2] == 4:
                    r.append(("the number is not negative", lambda st, m=m: ule(st.mem[m[0]].d[m[1]][1], 0x7fffffff, 32)))
        return r
    c.eng.loop_templates.append(tmpl)
    for o in c.normal(c.run(READ, [lam])):
        q = c.getp(itv, o.st).off.val()
        c.ensure(o, And(ule(p0, q), ule(q, text.len)), "stays inside the text")
        c.ensure(o, Forall(lambda k: Implies(And(ule(p0, k), ult(k, q)), digit(text.at(k))), None, "digits"), "only digits are consumed")
        for s, ne in cases(c, o, ult(q, text.len)):
            if ne:
                c.ensure(s, Not(digit(text.at(q))), "all the digits are consumed")
        for s, some in cases(c, o, Not(eqv(p0, q))):
            if some:
                c.ensure(s, ule(o.val, 0x7fffffff, 32), "a number that is no failure")
            else:
                c.ensure(s, eqv(o.val, 0xffffffff, 32), "no digits: failure")


def D_axioms(c, D, text, p):
    """D(p): first position from p on that is no digit"""
    q = D(bv(p, 64))
    return [ule(p, q), ule(q, text.len), Or(eqv(q, text.len), Not(digit(text.at(q))))]


class Parser:
    def __init__(self, c):
        self.c = c
        iters(c)
        isdigit(c)
        eng = c.eng
        a, text, _ = c.sv("text")
        self.text, self.base = text, a[0]
        c.st.assume(ult(text.len, 1 << 40))
        self.out, self.old = c.string("out")
        self.n = c.int("arguments")
        c.st.assume(ult(self.n, 1 << 20))
        self.args = Ptr(c.st.new_obj("arguments", Lin.of(self.n).scale(24).val(), "input"))
        self.list = c.raw("list", 16)
        c.put(self.list, 8, self.args)
        c.put(self.list.add(8), 8, self.n)
        self.D, self.V, self.U = eng.fresh_fn("digits_end", 64), eng.fresh_fn("number", 32), eng.fresh_fn("int_of", 32)
        c.st.ghost["writes"] = Events()
        w = self

        def read(eng, st, a, ins):
            # the closure holds references to the position and the end of the text
            f = {}
            for off in (0, 8):
                r = eng.load(st, a[0].add(off), ir.PTR)
                f[off] = r
            itp = f[0]
            p = eng.load(st, itp, ir.PTR)
            e = eng.load(st, f[8], ir.PTR)
            if not (isinstance(p, Ptr) and p.obj is w.base.obj and isinstance(e, Ptr) and (e.off - Lin.of(w.text.len)).const() == 0):
                raise Unsupported("closure layout")
            eng.oblige(st, "reading a width starts inside the text", ule(p.off.val(), w.text.len))
            pv = p.off.val()
            q = w.D(bv(pv, 64))
            for x in D_axioms(c, w.D, w.text, pv):
                st.assume(x)
            v = w.V(bv(pv, 64))
            st.assume(ule(v, 0x7fffffff, 32))
            eng.put(st, itp, 8, Ptr(p.obj, Lin.of(q)))
            return Ite(eqv(pv, q), 0xffffffff, v, 32)
        c.contract(READ, read, "read_number", discharged="reading a width")

        def unwrap(eng, st, a, ins):
            i = (a[0].off).div(24)
            eng.oblige(st, "a width argument that exists", And(a[0].obj is w.args.obj, ult(i[0].val(), w.n)))
            return w.U(bv(i[0].val(), 64))
        c.contract(MF + r"format_value::unwrap_int", unwrap, "unwrap_int", discharged="a value used as a width")

        def write(eng, st, a, ins):
            i = (a[0].off).div(24)
            eng.oblige(st, "an argument that exists", And(a[0].obj is w.args.obj, ult(i[0].val(), w.n)))
            o = read_options(eng, st, a[2])
            st.ghost["writes"] = st.ghost["writes"].add(i[0].val(), o, a[1])
            return None
        c.contract(MF + r"format_value::write<", write, "format_value::write", discharged="writing a value")


def bump(x):
    return (Lin.of(x) + 1).val()


def placeholder(c, w, st, q):
    """the grammar {[align][width][:[fill][base]]} at the brace at q: cases (state, description or None)"""
    text, n, at = w.text, w.text.len, w.text.at
    out = []

    def is_(p, ch):
        return And(ult(p, n), eqv(at(p), ord(ch), 8))

    def split(st, cond):
        return cases(c, st, cond)
    p1 = bump(q)
    for s, l in split(st, is_(p1, "<")):
        for s, r in (split(s, is_(p1, ">")) if not l else [(s, False)]):
            p2 = bump(p1) if l or r else p1
            align = 1 if r else 0
            q2 = w.D(bv(p2, 64))
            for x in D_axioms(c, w.D, text, p2):
                s.assume(x)
            s.assume(ule(w.V(bv(p2, 64)), 0x7fffffff, 32))
            for s, num in split(s, Not(eqv(p2, q2))):
                if num:
                    alts = [(s, q2, ("num", w.V(bv(p2, 64))))]
                else:
                    alts = []
                    for s2, var in split(s, is_(p2, "{")):
                        if not var:
                            alts.append((s2, p2, None))
                            continue
                        for s3, ok in split(s2, is_(bump(p2), "}")):
                            if not ok:
                                out.append((s3, None))
                            else:
                                alts.append((s3, bump(bump(p2)), "arg"))
                for s, p3, width in alts:
                    for s, col in split(s, is_(p3, ":")):
                        if not col:
                            ends = [(s, p3, 32, ord("d"))]
                        else:
                            ends = []
                            p4 = bump(p3)
                            p5 = bump(p4)
                            for s2, two in split(s, And(ult(p5, n), Not(is_(p4, "}")), Not(is_(p5, "}")))):
                                if two:
                                    ends.append((s2, bump(p5), at(p4), at(p5)))
                                    continue
                                for s3, one in split(s2, And(ult(p4, n), Not(is_(p4, "}")))):
                                    if not one:
                                        ends.append((s3, p4, 32, ord("d")))
                                        continue
                                    for s4, b in split(s3, Or(*[eqv(at(p4), ord(x), 8) for x in "dhHob"])):
                                        ends.append((s4, p5, 32, at(p4)) if b else (s4, p5, at(p4), ord("d")))
                        for s, pe, fill, base in ends:
                            for s2, ok in split(s, is_(pe, "}")):
                                out.append((s2, dict(end=pe, align=align, width=width, fill=fill, base=base) if ok else None))
    return out


HANDLE = r"format<std::back_insert_iterator<.*>, char const\*>\(.*\)::\{lambda\(\)#2\}::operator\(\)\(\) const$"


def variable(st, name):
    """a local variable of the function the path is in"""
    for o in st.top().allocas:
        if o.name.split("!")[0].split("#")[0].rstrip("0123456789") == name:
            return Ptr(o)
    raise Unsupported("variable %s not found" % name)


def value(st, name):
    return st.mem[variable(st, name).obj.id].d[0][1]


def parser_loop(c, w, step):
    def tmpl(eng, entry, mods, steps, ctx):
        if "format<" not in ctx.fn.dem:
            return []
        return [("argument index in range", lambda st: ule(value(st, "arg_i"), w.n))]
    c.eng.loop_templates.append(tmpl)
    c.eng.cand_filter = lambda name, ctx: name == "it+0 in object"
    seen = []

    def one(eng, h, b, ctx):
        seen.append(1)
        q, q2 = value(h, "it").off.val(), value(b, "it").off.val()
        was, now = getstr(eng, h, w.out), getstr(eng, b, w.out)
        if tuple(p.key for p in now.p[:len(was.p)]) != tuple(p.key for p in was.p):
            raise Unsupported("output is rewritten")
        step(b, q, q2, value(h, "arg_i"), value(b, "arg_i"), Str(now.p[len(was.p):]), b.ghost["writes"].e)
    c.eng.loop_steps.append(one)
    f = r"^void " + MF + r"format<std::back_insert_iterator<.*>, char const\*>\(.*\)$"
    for o in c.normal(c.run(f, [w.out, w.base, w.base.add(w.text.len), w.list])):
        c.ensure(o, True, "returns")
    if not seen:
        raise Unsupported("no step of the parser was seen")


def plain_step(c, w, b, q, q2, i, i2, new, wr):
    """obligations of a step at a position that starts no placeholder -> the paths on which one may start"""
    text, n, at = w.text, w.text.len, w.text.at
    c.ensure(b, ult(q, n), "a step starts inside the text")
    ch = at(q)
    dbl = And(Or(eqv(ch, ord("{"), 8), eqv(ch, ord("}"), 8)), ult(bump(q), n), eqv(at(bump(q)), ch, 8))
    copied = And(eqv(new.len, 1), eqv(new.at(0), ch, 8), not wr, eqv(i2, i))
    r = []
    for s, d in cases(c, b, dbl):
        if d:
            c.ensure(s, And(copied, eqv(q2, bump(bump(q)))), "a doubled brace writes one brace")
            continue
        for s, br in cases(c, s, And(eqv(ch, ord("{"), 8), ult(bump(q), n))):
            if br:
                r.append(s)
            else:
                c.ensure(s, And(copied, eqv(q2, bump(q))), "any other character is copied")
    return r


@spec("P04", "format: text and doubled braces are copied, the position stays inside the text, every step advances", T, secs=100, unroll=10)
def _(c):
    w = Parser(c)
    eng = c.eng

    def handle(eng, st, a, ins):
        itp, ap = variable(st, "it"), variable(st, "arg_i")
        p = c.getp(itp, st)
        ch = w.text.at(p.off.val())
        eng.oblige(st, "a placeholder starts at a brace with text behind it", And(ult(bump(p.off.val()), w.text.len), eqv(ch, ord("{"), 8)))
        q, i = eng.fresh("end", 64), eng.fresh("arg", 64)
        st.assume(And(ule(p.off.val(), q), ule(q, w.text.len), ule(c.get(ap, 8, st=st), i), ule(i, w.n)))
        ok = eng.fresh("placeholder", 1)
        if st.decide(ok):
            st.assume(And(ult(q, w.text.len), ult(p.off.val(), q), eqv(w.text.at(q), ord("}"), 8)))
            st.ghost["writes"] = st.ghost["writes"].add("placeholder", q)
        eng.put(st, itp, 8, Ptr(p.obj, Lin.of(q)))
        eng.put(st, ap, 8, i)
        return ok
    c.contract(HANDLE, handle, "parsing a placeholder (its contract is discharged in the thorough tier)",
               discharged="format: one step copies a character")

    def step(b, q, q2, i, i2, new, wr):
        for s in plain_step(c, w, b, q, q2, i, i2, new, wr):
            if wr:
                c.ensure(s, And(eqv(new.len, 0), eqv(q2, bump(wr[0][1]))), "a placeholder is consumed, and nothing else is written")
            else:
                c.ensure(s, And(eqv(new.len, 1), eqv(new.at(0), w.text.at(q), 8), eqv(q2, bump(q))), "a malformed placeholder is copied")
    parser_loop(c, w, step)


for shard, what in enumerate(("no alignment", "'<'", "'>'")):
    @spec("P04", "format: one step copies a character, undoubles a brace or writes one placeholder [%s]" % what, T, secs=800, unroll=10, tier="thorough")
    def _(c, shard=shard):
        w = Parser(c)

        def step(b, q, q2, i, i2, new, wr):
            nx = bump(q)
            isal = [And(ult(nx, w.text.len), eqv(w.text.at(nx), ord(x), 8)) for x in "<>"]
            part = (Not(Or(*isal)), isal[0], isal[1])[shard]
            for s, mine in cases(c, b, part):
                if mine:
                    full_step(c, w, s, q, q2, i, i2, new, wr)
        parser_loop(c, w, step)


def full_step(c, w, b, q, q2, i, i2, new, wr):
    ch = w.text.at(q)
    for s in plain_step(c, w, b, q, q2, i, i2, new, wr):
        for s, ph in placeholder(c, w, s, q):
            if ph is None:
                # a variable width may have been consumed before the text turned out to be malformed
                c.ensure(s, And(eqv(new.len, 1), eqv(new.at(0), ch, 8), not wr, eqv(q2, bump(q))), "a malformed placeholder is copied")
                continue
            c.ensure(s, And(eqv(new.len, 0), eqv(q2, bump(ph["end"]))), "a placeholder is consumed as a whole")
            for s, (j, width) in widths(c, w, s, ph, i):
                for s, has in cases(c, s, ult(j, w.n)):
                    if not has:
                        c.ensure(s, And(not wr, eqv(i2, j)), "a missing argument writes nothing")
                        continue
                    c.ensure(s, len(wr) == 1, "the next argument is written once")
                    if len(wr) == 1:
                        o = wr[0][1]
                        c.ensure(s, And(eqv(wr[0][0], j), eqv(i2, bump(j)), wr[0][2].obj is w.out.obj), "the next argument is the one written")
                        c.ensure(s, And(eqv(o["align"], ph["align"], 32), eqv(o["width"], width), eqv(o["fill"], ph["fill"], 8),
                                        eqv(o["base"], ph["base"], 8)), "with the alignment, width, fill and base asked for")


def widths(c, w, s, ph, i):
    if ph["width"] is None:
        return [(s, (i, 0))]
    if ph["width"] != "arg":
        return [(s, (i, z3.ZeroExt(32, ph["width"][1])))]
    r = []
    for s, has in cases(c, s, ult(i, w.n)):
        if not has:
            r.append((s, (i, 0)))
            continue
        u = w.U(bv(i, 64))
        for s2, neg in cases(c, s, z3.BitVecVal(0, 32) > u):
            r.append((s2, (bump(i), 0 if neg else z3.ZeroExt(32, u))))
    return r
