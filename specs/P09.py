"""P09: source snippets.  A file is an arbitrary text; its lines are defined by where line feeds are.  The line table, the range
of lines picked, and every piece of the text shown are proved for every file, line, column, context and colour choice."""
from dv.spec import *
from dv.elfspec import truth, cases, local
from dv.models import getstr, setstr
from specs import P04
from specs.P07 import formatted, dec, padded, branch

T = [TU("snippets/snippet.cpp")]
D = r"^cpptrace::v1::detail::"
YELLOW, RESET = b"\33[33m", b"\33[0m"
lit = Str.lit
MANAGER = {"loaded": 0, "contents": 8, "table": 40}     # checked against the type's layout by the contracts themselves
RNG = 16
NULLV = 0xffffffff
SOME = 48


def plumbing(c):
    """microfmt's formatting to a string by its contract (P04); failed assertions throw"""
    def afail(eng, st, a, ins):
        raise engine.Throw("_ZTISt13runtime_error")
    c.model(r"cpptrace::v1::detail::(assert_fail|panic)\(", afail)

    def fmt(eng, st, a, ins):
        out = a[0]
        b, e = a[1], a[2]
        if len(a) == 5:
            args, n = a[3], a[4]
        else:
            args, n = eng.load(st, a[3], ir.PTR), eng.load(st, a[3].add(8), ir.Ty("int", 64))
        text = models.str_from_mem(eng, st, b, (e.off - b.off).val()).lit_value()
        if text is None or not isc(n):
            raise Unsupported("a computed format string")
        setstr(eng, st, out, getstr(eng, st, out).cat(formatted(c, st, text, [args.add(24 * i) for i in range(n)])))
    c.contract(r"^void cpptrace::v1::microfmt::detail::format<std::back_insert_iterator<.*>, char const\*>\(", fmt, "microfmt::detail::format (to a string)", discharged="P04")
    c.keep = True


def margin(c, st, line, target):
    """the text in front of a line"""
    d = dec(c, st, line)
    w = lambda n: padded(Str(), n, 0x20, False)
    n3 = (Lin.of(d.len) + 3).val()
    if target:
        return w(Ite(ult(n3, 8), (Lin.of(8) - Lin.of(n3)).val(), 0, 64)).cat(lit(b" > ")).cat(d).cat(lit(b": "))
    return padded(d, 8, 0x20, False).cat(lit(b": "))


# ------------------------------------------------------------------ pieces of text
@spec("P09", "the margin of a line: its number, the target marked, in colour if wanted", T)
def _(c):
    plumbing(c)
    line, target, col = c.int("line"), c.int("target"), c.bool("colour")
    for o in c.normal(c.run(D + r"write_line_number\(", [line, target, col])):
        for st, (t, y) in branch(c, o.st, eqv(line, target), col):
            m = margin(c, st, line, t)
            c.holds_str(st, getstr(c.eng, st, o.val), lit(YELLOW).cat(m).cat(lit(RESET)) if t and y else m, "the margin's text")


@spec("P09", "the caret is on a line of its own directly below the column", T)
def _(c):
    plumbing(c)
    line, column, col = c.int("line"), c.int("column", 32), c.bool("colour")
    c.st.assume(And(ule(1, column, 32), ult(column, 0x7fffff00, 32)))
    fn = c.fn(D + r"write_carrot\(")
    args = [line, column, col] if len([p for p in fn.params if "sret" not in p[2]]) == 3 else [column, col]
    for o in c.normal(c.run(fn, args)):
        for st, (y,) in branch(c, o.st, col):
            m = margin(c, st, line, True)
            n = (Lin.of(m.len) + Lin.of(bv(simp(z3.ZeroExt(32, column)), 64)) - 1).val()
            w = lit(b"\n").cat(P04.rep(0x20, n)).cat(lit((YELLOW if y else b"") + b"^" + (RESET if y else b"")))
            c.holds_str(st, getstr(c.eng, st, o.val), w, "the caret's line")


class Lines:
    """lines of a file, numbered from one: arbitrary texts"""

    def __init__(self, c):
        self.c = c
        self.last = c.int("last line")
        c.st.assume(And(ule(1, self.last), ult(self.last, 1 << 30)))
        self.len = c.eng.fresh_fn("line length", 64)
        self.chr = z3.Function("line.chr!", z3.BitVecSort(64), z3.BitVecSort(64), z3.BitVecSort(8))
        c.st.assume(Forall(lambda k: ult(self.len(k), 1 << 30), {self.len.name()}, "line lengths"))

    def text(self, i):
        i = bv(i, 64)
        return Str.sym(("line", i.get_id()), self.len(i), lambda k, i=i: self.chr(i, bv(k, 64)))

    def blank(self, i):
        return eqv(self.len(bv(i, 64)), 0)


STR_FIELDS = None


def context(c, L, at_ob=None):
    """a snippet_context holding lines original_begin.. of the file"""
    p = c.raw("context", 48)
    t = type("C", (), {})()
    t.p, t.ob, t.b, t.e, t.n = p, c.int("original begin"), c.int("begin"), c.int("end"), c.int("lines held")
    c.st.assume(And(ule(1, t.ob), ule(t.ob, t.b), ule(t.b, t.e), ult(t.n, 1 << 30), ult(t.e, simp(bv(t.ob, 64) + t.n)), ule(t.e, L.last)))
    for o, v in ((0, t.ob), (8, t.b), (16, t.e)):
        c.put(p.add(o), 8, v)

    def base(i, fo, w, ty):
        return L.text(simp(bv(i, 64) + t.ob))
    ob = c.st.new_obj("lines", Lin.of(t.n).scale(32).val(), "heap", engine.Arr(32, base, (), models.flatten(models.STRTY)))
    c.put(p.add(24), 24, Vec(ob, t.n, 32))
    return t


@spec("P09", "a line of the snippet: margin, text, and the caret below the target's column", T)
def _(c):
    plumbing(c)
    L = Lines(c)
    t = context(c, L)
    line, target, column, col = c.int("line"), c.int("target"), c.int("column", 32), c.bool("colour")
    c.st.assume(And(ule(t.b, line), ule(line, t.e)))
    made = {}

    def piece(name, n):
        def f(eng, st, a, ins):
            r = eng.fresh_str(st, name)
            st.ghost[name] = (a[1:], r)
            setstr(eng, st, a[0], r)
        return f
    c.contract(D + r"write_line_number\(", piece("margin", 3), "write_line_number", discharged="the margin of a line")
    c.contract(D + r"write_carrot\(", piece("caret", 3), "write_carrot", discharged="the caret")
    c.st.ghost.update(margin=None, caret=None)
    for o in c.normal(c.run(D + r"write_line\(", [line, column, target, col, t.p])):
        m, k = o.st.ghost["margin"], o.st.ghost["caret"]
        c.ensure(o, m is not None and And(eqv(m[0][0], line), eqv(m[0][1], target), Iff(truth(m[0][2]), truth(col))), "the margin is this line's")
        if m is None:
            continue
        for st, (is_t, has) in branch(c, o.st, eqv(line, target), Not(eqv(column, NULLV, 32))):
            w = m[1].cat(L.text(line))
            if is_t and has:
                c.ensure(st, k is not None, "the target's column is shown")
                if k is None:
                    continue
                g = k[0]
                if len(g) == 3:
                    c.ensure(st, eqv(g[0], line), "the caret is this line's")
                c.ensure(st, And(eqv(g[-2], column, 32), Iff(truth(g[-1]), truth(col))), "the caret is at this column")
                w = w.cat(k[1])
            c.holds_str(st, getstr(c.eng, st, o.val), w, "margin, the line's text, and the caret for the target")


# ------------------------------------------------------------------ the whole snippet
@spec("P09", "the snippet is its lines from the first to the last, one below the other", T)
def _(c):
    plumbing(c)
    eng = c.eng
    L = Lines(c)
    t = context(c, L)
    path, ps = c.string("path")
    target, column, ctx, col = c.int("target"), c.int("column", 32), c.int("context size"), c.bool("colour")
    c.st.ghost.update(asked=0, wrote=None)

    def get(eng, st, a, ins):
        r, p, tl, cs = a
        st.ghost["asked"] += 1
        eng.oblige(st, "the lines asked for are the target's, with the context wanted", And(getstr(eng, st, p).same(ps), eqv(tl, target), eqv(cs, ctx)))
        if st.decide(eng.fresh("no such line", 1)):
            eng.put(st, r.add(SOME), 1, 0)
            st.ghost["none"] = True
            return
        st.ghost["none"] = False
        for o, v in ((0, t.ob), (8, t.b), (16, t.e)):
            eng.put(st, r.add(o), 8, v)
        eng.put(st, r.add(24), 24, eng.raw_load(st, t.p.add(24), 24, models.VECTY))
        eng.put(st, r.add(SOME), 1, 1)
    c.contract(D + r"get_lines\(", get, "get_lines", discharged="the lines picked")
    lens = eng.fresh_fn("shown length", 64)
    chrs = z3.Function("shown.chr!", z3.BitVecSort(64), z3.BitVecSort(64), z3.BitVecSort(8))

    def shown(i):
        i = bv(i, 64)
        return Str.sym(("shown", i.get_id()), lens(i), lambda k: chrs(i, bv(k, 64)))

    def wl(eng, st, a, ins):
        r, l, cl, tg, cc, cx = a
        eng.oblige(st, "the line written is one of the context", And(ule(t.b, l), ule(l, t.e)))
        eng.oblige(st, "the context is the one found", eqv(c.get(cx, 8, st=st), t.ob))
        eng.oblige(st, "written for this target, column and colour choice", And(eqv(tg, target), eqv(cl, column, 32), Iff(truth(cc), truth(col))))
        st.assume(ult(lens(bv(l, 64)), 1 << 30))
        setstr(eng, st, r, shown(l))
    c.contract(D + r"write_line\(", wl, "write_line", discharged="a line of the snippet")
    res = Ptr(eng.alloc_ty(c.st, models.STRTY, "result", "input"))
    seen, heads = [], []
    cur = lambda st: local(st, "line")

    def tmpl(e, entry, mods, steps, cx):
        if "get_snippet" not in cx.fn.dem:
            return []
        c.ensure(entry, And(eqv(getstr(eng, entry, res).len, 0), eqv(cur(entry), t.b)), "starts at the first line with nothing written")
        return [("lines in order, from the first to the last", lambda st: And(ule(t.b, cur(st)), ule(cur(st), simp(bv(t.e, 64) + 1)))),
                ("nothing is left when done", lambda st: True)]

    def one(e, h, b, cx):
        if "get_snippet" not in cx.fn.dem:
            return
        seen.append(1)
        l = bv(cur(h), 64)
        c.ensure(b, eqv(cur(b), l + 1), "one line after the other")
        for st, last in cases(c, b, eqv(l, t.e)):
            want = getstr(eng, h, res).cat(shown(l))
            c.holds_str(st, getstr(eng, st, res), want if last else want.cat(lit(b"\n")), "the line is added, with a line feed unless it is the last")
        heads.append(getstr(eng, h, res))
    eng.by_invariant.append("detail::get_")
    eng.loop_templates.append(tmpl)
    eng.loop_steps.append(one)
    some = False
    for o in c.normal(c.run(D + r"get_snippet\(", [res, path, target, column, ctx, col])):
        c.ensure(o, o.st.ghost["asked"] == 1, "asked once")
        if o.st.ghost["none"]:
            c.ensure(o, eqv(getstr(eng, o.st, res).len, 0), "no snippet without lines")
            continue
        some = True
        c.ensure(o, any(getstr(eng, o.st, res).same(x) for x in heads), "nothing after the last line")
    if not seen or not some:
        raise Unsupported("no step of the loop was seen")


# ------------------------------------------------------------------ which lines
def elem_str(c, a, k):
    """element k of a vector of strings as terms: length, character function"""
    eng = c.eng
    if a is None:
        return bv(eng.fresh("none", 64), 64), lambda j: bv(eng.fresh("none", 8), 8)
    parts = []
    if isinstance(a, engine.Arr):
        base = a.base(k, 0, 32, models.STRTY)
        for o in a.ov:
            if o[0] != "one" or not isinstance(o[4], Str):
                raise Unsupported("strings overwritten in bulk")
            parts.append((o[1].val(), o[4]))
    else:
        base = None
        for off, (w, x) in a.d.items():
            if isinstance(x, Str):
                parts.append((off // 32, x))

    def length():
        r = bv(base.len, 64) if isinstance(base, Str) else bv(eng.fresh("undef", 64), 64)
        for i, s in parts:
            r = Ite(eqv(k, i), bv(s.len, 64), r, 64)
        return r

    def at(j):
        r = bv(base.at(j), 8) if isinstance(base, Str) else bv(eng.fresh("undef", 8), 8)
        for i, s in parts:
            r = Ite(eqv(k, i), bv(s.at(j), 8), r, 8)
        return r
    return length(), at


def picked(c, first, last):
    plumbing(c)
    eng = c.eng
    L = Lines(c)
    path, ps = c.string("path")
    target, ctx = c.int("target"), c.int("context size")
    j = bv(c.int("any character"), 64)
    # the four cases, between them every input: does the context reach the first line, the last line
    c.st.assume(ult(ctx, target) if not first else Not(ult(ctx, target)))
    rest = simp(bv(L.last, 64) - bv(target, 64))
    c.st.assume(ult(ctx, rest) if not last else Not(ult(ctx, rest)))
    man = c.raw("manager", 64)
    loaded = c.int("loaded", 8)
    c.st.assume(ule(loaded, 1, 8))
    c.put(man.add(MANAGER["loaded"]), 1, loaded)

    def mgr(eng, st, a, ins):
        eng.oblige(st, "the manager asked for is the path's", getstr(eng, st, a[0]).same(ps))
        return man
    c.contract(D + r"get_manager\(", mgr, "get_manager", discharged="a path's lines are read once and kept")
    c.contract(D + r"snippet_manager::ok\(", lambda eng, st, a, ins: eqv(loaded, 1, 8), "snippet_manager::ok", discharged="a line of the file")
    c.contract(D + r"snippet_manager::num_lines\(", lambda eng, st, a, ins: (Lin.of(L.last) + 1).val(), "snippet_manager::num_lines", discharged="a line of the file")

    def line(eng, st, a, ins):
        eng.oblige(st, "the line asked for is one of the file", And(ule(1, a[2]), ule(a[2], L.last)))
        st.assume(ult(L.len(bv(a[2], 64)), 1 << 30))
        setstr(eng, st, a[0], L.text(a[2]))
    c.contract(D + r"snippet_manager::get_line\(", line, "snippet_manager::get_line", discharged="a line of the file")
    lo = Ite(ult(ctx, target), simp(bv(target, 64) - bv(ctx, 64)), 1, 64)
    hi = Ite(ult(ctx, simp(bv(L.last, 64) - bv(target, 64))), simp(bv(target, 64) + bv(ctx, 64)), L.last, 64)
    inside = And(ule(1, target), ule(target, L.last), eqv(loaded, 1, 8))

    def held(st, v):
        a = st.mem[v.obj.id] if v.obj is not None else None

        def f(k):
            n, at = elem_str(c, a, k)
            x = bv(simp(bv(k, 64) + bv(lo, 64)), 64)
            return Implies(ult(k, v.len), And(eqv(n, L.len(x)), Implies(ult(j, n), eqv(at(j), L.chr(x, j), 8))))
        return Forall(f, None, "the lines held are the file's, from the first of the context on")

    def trimmed(st, b, e, which):
        if which == "b":
            return Forall(lambda k: Implies(And(ule(lo, k), ult(k, b)), L.blank(k)), {L.len.name()}, "blank lines")
        return Forall(lambda k: Implies(And(ult(e, k), ule(k, hi)), L.blank(k)), {L.len.name()}, "blank lines")

    def tmpl(e, entry, mods, steps, cx):
        if "get_lines" not in cx.fn.dem:
            return []
        r = []
        for nm, rel in (("begin", lambda st: And(ule(lo, local(st, "begin")), ule(local(st, "begin"), target))),
                        ("end", lambda st: And(ule(local(st, "end"), hi), ule(target, local(st, "end")))),
                        ("begin blank", lambda st: trimmed(st, local(st, "begin"), None, "b")),
                        ("end blank", lambda st: trimmed(st, None, local(st, "end"), "e"))):
            r.append((nm, rel))
        r.append(("the first line held", lambda st: eqv(local(st, "original_begin"), lo)))
        r.append(("lines held are the file's", lambda st: held(st, vec(st))))
        if local(entry, "line") is not None:
            r.append(("lines so far", lambda st: And(eqv(vec(st).len, simp(bv(local(st, "line"), 64) - bv(lo, 64))), ule(lo, local(st, "line")), ule(local(st, "line"), simp(bv(hi, 64) + 1)))))
        r.append(("at most the lines of the context", lambda st: ule(vec(st).len, simp(bv(hi, 64) - bv(lo, 64) + 1))))
        return r

    def vec(st):
        v = local(st, "lines")
        return v if isinstance(v, Vec) else Vec(None, 0, 32)
    eng.by_invariant.append("detail::get_")
    eng.loop_templates.append(tmpl)
    some = False
    for o in c.normal(c.run(D + r"get_lines\(", [path, target, ctx])):
        r = o.val
        for st, got in cases(c, o, truth(c.get(r.add(SOME), 1, st=o.st))):
            if not got:
                c.ensure(st, Not(inside), "no lines only for an unreadable file or a line it does not have")
                continue
            some = True
            c.ensure(st, inside, "lines only for a line of a readable file")
            ob, b, e = (c.get(r.add(k), 8, st=st) for k in (0, 8, 16))
            v = models.getvec(eng, st, r.add(24), models.STRTY)
            c.ensure(st, eqv(ob, lo), "held from the first line of the context on")
            c.ensure(st, eqv(v.len, simp(bv(hi, 64) - bv(lo, 64) + 1)), "held up to the last line of the context")
            c.ensure(st, held(st, v), "what is held are the file's lines")
            c.ensure(st, And(ule(lo, b), ule(b, target), ule(target, e), ule(e, hi)), "the target is shown, with no more than the context")
            c.ensure(st, Or(eqv(b, target), Not(L.blank(b))), "the first line is the target or not blank")
            c.ensure(st, Or(eqv(e, target), Not(L.blank(e))), "the last line is the target or not blank")
            c.ensure(st, trimmed(st, b, e, "b"), "only blank lines are left out in front")
            c.ensure(st, trimmed(st, b, e, "e"), "only blank lines are left out behind")
    if not some:
        raise Unsupported("no lines on any path")


for first in (False, True):
    for last in (False, True):
        @spec("P09", "the lines picked: those within the context that exist, less blank ones at either end (%s the first line, %s the last)" % ("reaching" if first else "short of", "reaching" if last else "short of"), T, secs=150)
        def _(c, first=first, last=last):
            picked(c, first, last)


# ------------------------------------------------------------------ the line table
class Text:
    """a file's text, and where its lines are: begin(1) = 0; term(k) = the first line feed from begin(k) on, or the end;
    begin(k+1) = term(k) + 1.  A carriage return in front of the line feed belongs to it."""

    def __init__(self, c):
        self.c, eng = c, c.eng
        self.s = c.str("file")
        self.n = self.s.len
        c.st.assume(ult(self.n, 1 << 30))
        self.begin, self.term = eng.fresh_fn("begin", 64), eng.fresh_fn("term", 64)
        B, E = self.begin, self.term
        c.st.assume(eqv(B(bv(1, 64)), 0))
        self.cut = None

    def nl(self, k):
        return And(ult(k, self.n), eqv(self.s.at(bv(k, 64)), 10, 8))

    def define(self, st, k):
        """the definition at line k, which starts within the file (instantiated where it is needed)"""
        B, E = self.begin(bv(k, 64)), self.term(bv(k, 64))
        st.assume(And(ule(B, E), ule(E, self.n), Or(eqv(E, self.n), self.nl(E)), Implies(self.nl(E), eqv(self.begin(bv(k, 64) + 1), E + 1))))
        st.assume(Forall(lambda j: Implies(And(ule(B, j), ult(j, E)), Not(self.nl(j))), None, "no line feed inside a line"))

    def end(self, k):
        """one past the line's last character"""
        B, E = self.begin(bv(k, 64)), self.term(bv(k, 64))
        cr = And(ult(B, E), ult(E, self.n), eqv(self.s.at(simp(E - 1)), 13, 8))
        return Ite(cr, simp(E - 1), E, 64)


def table(c, st, man):
    return models.getvec(c.eng, st, man.add(MANAGER["table"]), range_ty(c))


def range_ty(c):
    return c.type_like(r"^struct\.cpptrace::v1::detail::line_range$")


def range_at(c, a, k, off):
    return c.eng.arr_byte(a, Lin.of(k).scale(RNG) + off, 8)


def arr_of(c, st, v):
    """the vector's storage as an array"""
    if v.obj is None:
        return None
    a = st.mem[v.obj.id]
    if isinstance(a, engine.Arr):
        return a
    t = st.copy()
    return c.eng.to_arr(t, v.obj, a, Ptr(v.obj, Lin(0, {0: (None, RNG)})), 1)


@spec("P09", "the line table: every line of the file from its first character to its line feed", T, secs=120)
def _(c):
    plumbing(c)
    eng = c.eng
    t = Text(c)
    man = c.raw("manager", 64)
    c.put(man.add(MANAGER["loaded"]), 1, 0)
    setstr(eng, c.st, man.add(MANAGER["contents"]), t.s)
    c.put(man.add(MANAGER["table"]), 24, Vec(None, 0, RNG))
    eng.by_invariant.append("build_line_table")
    pos = lambda st: bv(local(st, "pos"), 64)
    q = bv(c.int("any line"), 64)
    for k in (q, q - 1):
        pass

    def ready(st, n):
        """entries of lines 1..n-1"""
        v = table(c, st, man)
        a = arr_of(c, st, v)
        if a is None:
            return False
        return And(eqv(v.len, n), Implies(And(ule(1, q), ult(q, n)), And(
            eqv(range_at(c, a, q, 0), t.begin(q)), eqv(range_at(c, a, q, 8), t.end(q)), t.nl(t.term(q)), ule(t.begin(q), t.term(q)), ult(t.term(q), t.n))))

    def zero(st):
        a = arr_of(c, st, table(c, st, man))
        return a is not None and And(eqv(range_at(c, a, bv(0, 64), 0), 0), eqv(range_at(c, a, bv(0, 64), 8), 0))

    def tmpl(e, entry, mods, steps, cx):
        if "build_line_table" not in cx.fn.dem:
            return []
        L = lambda st: table(c, st, man).len
        return [("within the file", lambda st: And(ule(pos(st), t.n), ule(1, L(st)), ule(L(st), simp(pos(st) + 1)))),
                ("at the start of the next line", lambda st: eqv(pos(st), t.begin(bv(L(st), 64)))),
                ("behind a line feed", lambda st: Or(eqv(pos(st), 0), t.nl(simp(pos(st) - 1)))),
                ("line zero", lambda st: zero(st)),
                ("the lines so far", lambda st: ready(st, L(st)))]
    eng.loop_templates.append(tmpl)
    # the definition of begin and term, where the code looks for a line's end
    find = r"^std::(__cxx11::)?(basic_string<.*>|string)::find\(char, unsigned long\) const$"
    asked = []

    def finding(eng, st, a, ins):
        v = table(c, st, man)
        eng.oblige(st, "looks for a line feed of the file from the start of the line", And(getstr(eng, st, a[0]).same(t.s), eqv(a[1], 10, 8), eqv(a[2], t.begin(bv(v.len, 64)))))
        t.define(st, v.len)
        asked.append(1)
        E = t.term(bv(v.len, 64))
        if st.decide(ult(E, t.n)):
            return E
        return (1 << 64) - 1
    c.model(find, finding)
    for o in c.normal(c.run(D + r"snippet_manager::build_line_table\(", [man])):
        v = table(c, o.st, man)
        a = arr_of(c, o.st, v)
        c.ensure(o, a is not None, "there is a table")
        if a is None:
            continue
        last = simp(bv(v.len, 64) - 1)
        c.ensure(o, And(ule(2, v.len), eqv(t.term(last), t.n)), "the last line reaches the end of the file")
        c.ensure(o, And(eqv(range_at(c, a, last, 0), t.begin(last)), eqv(range_at(c, a, last, 8), t.n)), "the last entry is what is left of the file")
        c.ensure(o, ready_but_last(t, c, q, last, a), "every entry is its line, up to the line feed and a carriage return in front of it")
        c.ensure(o, And(eqv(range_at(c, a, bv(0, 64), 0), 0), eqv(range_at(c, a, bv(0, 64), 8), 0)), "line zero is empty")
        c.ensure(o, getstr(eng, o.st, man.add(MANAGER["contents"])).same(t.s), "the text stays")
    if not asked:
        raise Unsupported("the search for line feeds was not seen")


def ready_but_last(t, c, q, last, a):
    return Implies(And(ule(1, q), ult(q, last)), And(eqv(range_at(c, a, q, 0), t.begin(q)), eqv(range_at(c, a, q, 8), t.end(q))))


@spec("P09", "a line of the file is the table's entry, and nothing outside the table", T)
def _(c):
    plumbing(c)
    eng = c.eng
    s = c.str("file")
    c.st.assume(ult(s.len, 1 << 30))
    n, line = c.int("entries"), c.int("line")
    b, e = eng.fresh_fn("entry begin", 64), eng.fresh_fn("entry end", 64)
    c.st.assume(ult(n, 1 << 31))
    c.st.assume(Forall(lambda k: Implies(ult(k, n), And(ule(b(k), e(k)), ule(e(k), s.len))), {b.name(), e.name()}, "entries are within the file"))
    man = c.raw("manager", 64)
    loaded = c.int("loaded", 8)
    c.st.assume(ule(loaded, 1, 8))
    c.put(man.add(MANAGER["loaded"]), 1, loaded)
    setstr(eng, c.st, man.add(MANAGER["contents"]), s)
    ob = c.st.new_obj("table", Lin.of(n).scale(RNG).val(), "heap", engine.Arr(RNG, lambda i, fo, w, ty: (b if fo == 0 else e)(bv(i, 64)), (), models.flatten(range_ty(c))))
    c.put(man.add(MANAGER["table"]), 24, Vec(ob, n, RNG))
    for o in c.normal(c.run(D + r"snippet_manager::get_line\(", [man, line])):
        for st, has in cases(c, o, And(eqv(loaded, 1, 8), ult(line, n))):
            r = getstr(eng, st, o.val)
            if not has:
                c.ensure(st, eqv(r.len, 0), "no text outside the table")
                continue
            L = bv(line, 64)
            c.ensure(st, eqv(r.len, simp(e(L) - b(L))), "as long as the entry")
            k = bv(c.int("k"), 64)
            c.ensure(st, Implies(ult(k, r.len), eqv(r.at(k), s.at(simp(b(L) + k)), 8)), "the file's characters from the entry's start on")
    for o in c.normal(c.run(D + r"snippet_manager::ok\(", [man])):
        c.ensure(o, Iff(truth(o.val), eqv(loaded, 1, 8)), "ok when loaded")
    for o in c.normal(c.run(D + r"snippet_manager::num_lines\(", [man])):
        c.ensure(o, eqv(o.val, n), "the table's size")


# ------------------------------------------------------------------ reading the file
@spec("P09", "a file is read whole, if it can be and is not too big", T)
def _(c):
    plumbing(c)
    eng = c.eng
    path, ps = c.string("path")
    f = c.str("file")
    c.st.assume(ult(f.len, 1 << 30))
    LIMIT = 10 * 1024 * 1024
    man = c.raw("manager", 64)
    c.st.ghost.update(open=False, pos=None, built=0, size=None)
    I = r"^std::(basic_ifstream<.*>|ifstream)::"
    IS = r"^std::(basic_istream<.*>|istream)::"
    eng.vbase = 0

    def ctor(e, st, a, ins):
        vt = c.raw("vtable", 64, st)
        eng.put(st, a[0], 8, Ptr(vt.obj, 24))
    c.model(I + r"(basic_)?ifstream\(\)$", ctor)
    c.model(I + r"~(basic_)?ifstream\(\)$", lambda e, st, a, ins: None)

    def op(e, st, a, ins):
        eng.oblige(st, "the file opened is the path's, read from its end", And(getstr(eng, st, a[1]).same(ps), eqv(a[2], 2, 32)))
        st.ghost["open"] = st.decide(eng.fresh("opens", 1))
        st.ghost["pos"] = "end"
    c.model(I + r"open\(", op)
    c.model(I + r"is_open\(\)", lambda e, st, a, ins: 1 if st.ghost["open"] else 0)

    def tell(e, st, a, ins):
        eng.oblige(st, "the size is read at the end", st.ghost["pos"] == "end")
        if st.decide(eng.fresh("tells", 1)):
            st.ghost["size"] = f.len
            return (f.len, 0)
        st.ghost["size"] = "unknown"
        return ((1 << 64) - 1, 0)
    c.model(IS + r"tellg\(\)", tell)

    def seek(e, st, a, ins):
        eng.oblige(st, "back to the start", And(eqv(a[1], 0), eqv(a[2], 0, 32)))
        st.ghost["pos"] = "start"
        return a[0]
    c.model(IS + r"seekg\(long, ", seek)

    def read(e, st, a, ins):
        eng.oblige(st, "the whole file is read, from the start, into the text", And(st.ghost["pos"] == "start", eqv(a[2], f.len)))
        p = a[1]
        if p.obj is None or p.obj.kind != "strdata":
            raise Unsupported("read into something else")
        at = Ptr(*p.obj.tag)
        eng.oblige(st, "there is room for the file", And(eqv(p.off.val(), 0), eqv(getstr(eng, st, at).len, f.len), at.obj is man.obj, eqv(at.off.val(), MANAGER["contents"])))
        setstr(eng, st, at, f)
        return a[0]
    c.model(IS + r"read\(char\*, long\)", read)
    c.model(r"^std::basic_ios<.*>::operator!\(\) const$", lambda e, st, a, ins: 0)

    def build(e, st, a, ins):
        eng.oblige(st, "the table is of the file's text", getstr(eng, st, a[0].add(MANAGER["contents"])).same(f))
        st.ghost["built"] += 1
    c.contract(D + r"snippet_manager::build_line_table\(", build, "build_line_table", discharged="the line table")
    for o in c.run(D + r"snippet_manager::snippet_manager\(std::.*string", [man, path]):
        g = o.st.ghost
        c.ensure(o, o.kind == "ret", "no exception escapes")
        if o.kind != "ret":
            continue
        for st, (ok, big) in branch(c, o.st, eqv(c.get(man.add(MANAGER["loaded"]), 1, st=o.st), 1, 8), ult(LIMIT, f.len)):
            if ok:
                c.ensure(st, g["open"] and g["size"] is f.len and not big, "only a file that was read")
                c.ensure(st, g["built"] == 1, "with its table")
                c.ensure(st, getstr(eng, st, man.add(MANAGER["contents"])).same(f), "the text is the file's")
            else:
                c.ensure(st, not g["open"] or isinstance(g["size"], str) or big, "every other file is read")


@spec("P09", "a path's file is read once, and its own lines are used", T)
def _(c):
    plumbing(c)
    eng = c.eng
    path, ps = c.string("path")
    NODE = 32 + 64
    known = c.bool("known")
    hit, end = c.raw("node", 8 + NODE), c.raw("end", 8)
    c.string("node key", ps)
    setstr(eng, c.st, hit.add(8), ps)
    c.st.ghost.update(read=[], put=[], locked=0)
    UM = r"^std::unordered_map<std::(__cxx11::)?(basic_string<.*>|string), cpptrace::v1::detail::snippet_manager const.*>::"
    IT = r"std::__detail::_Node_iterator<.*snippet_manager.*>::"
    c.model(UM + r"unordered_map\(\)$", lambda e, st, a, ins: None)
    c.model(UM + r"~unordered_map\(\)$", lambda e, st, a, ins: None)

    def find(e, st, a, ins):
        eng.oblige(st, "under the lock", st.ghost["locked"] == 1)
        eng.oblige(st, "the path is looked up", getstr(eng, st, a[1]).same(ps))
        return hit if st.decide(known) else end
    c.model(UM + r"find\(", find)
    c.model(UM + r"end\(\)", lambda e, st, a, ins: end)
    c.model(r"std::__detail::operator==\(.*_Node_iterator_base", lambda e, st, a, ins: c.getp(a[0], st).obj is c.getp(a[1], st).obj)
    c.model(IT + r"operator->\(\)", lambda e, st, a, ins: c.getp(a[0], st).add(8))

    def make(e, st, a, ins):
        st.ghost["read"] = st.ghost["read"] + [getstr(eng, st, a[1])]
        st.ghost["made"] = a[0]
    c.contract(D + r"snippet_manager::snippet_manager\(std::.*string", make, "snippet_manager::snippet_manager", discharged="a file is read whole")
    c.model(D + r"snippet_manager::snippet_manager\(cpptrace::v1::detail::snippet_manager( const)?&&?\)", lambda e, st, a, ins: eng.put(st, a[0], 8, a[1]))
    c.model(D + r"snippet_manager::~snippet_manager\(\)", lambda e, st, a, ins: None)

    def pair(e, st, a, ins):
        setstr(eng, st, a[0], getstr(eng, st, a[1]))
        st.ghost["pair"] = (a[0], getstr(eng, st, a[1]), a[2])
    c.model(r"^std::pair<std::(__cxx11::)?(basic_string<.*>|string) const, cpptrace::v1::detail::snippet_manager const>::pair<", pair)
    c.model(r"^std::pair<std::(__cxx11::)?(basic_string<.*>|string) const, cpptrace::v1::detail::snippet_manager const>::~pair\(", lambda e, st, a, ins: None)

    def insert(e, st, a, ins):
        eng.oblige(st, "under the lock", st.ghost["locked"] == 1)
        p, k, m = st.ghost["pair"]
        eng.oblige(st, "what is kept is this path's file", And(p.obj is a[-1].obj, k.same(ps), m.obj is st.ghost["made"].obj))
        eng.oblige(st, "read once", len(st.ghost["read"]) == 1 and st.ghost["read"][0].same(ps))
        new = c.raw("new node", 8 + NODE, st)
        st.ghost["put"] = st.ghost["put"] + [new]
        return (new, 1)
    c.model(UM + r"insert\(std::pair<", insert)

    def lock(e, st, a, ins):
        st.ghost["locked"] += 1

    def unlock(e, st, a, ins):
        st.ghost["locked"] -= 1
    c.model(r"^std::unique_lock<std::mutex>::unique_lock\(std::mutex&\)", lock)
    c.model(r"^std::unique_lock<std::mutex>::~unique_lock\(\)", unlock)
    for o in c.normal(c.run(D + r"get_manager\(", [path])):
        g = o.st.ghost
        c.ensure(o, g["locked"] == 0, "the lock is released")
        for st, k in cases(c, o, known):
            if k:
                c.ensure(st, o.val.obj is hit.obj and not g["read"] and not g["put"], "a known path's lines are the ones kept")
                c.ensure(st, eqv(o.val.off.val(), 8 + 32), "the manager kept")
            else:
                c.ensure(st, len(g["put"]) == 1 and o.val.obj is g["put"][0].obj, "a new path's lines are kept")
                if g["put"]:
                    c.ensure(st, eqv(o.val.off.val(), 8 + 32), "the manager kept")
