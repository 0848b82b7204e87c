"""P16: one line of symbol-tool output, arbitrary text, against the description of the format."""
from dv.spec import *
from dv.elfspec import truth, cases, QUERY

T = [TU("symbols/symbols_with_addr2line.cpp")]
FRAME = {"raw_address": (0, 8), "object_address": (8, 8), "line": (16, 4), "column": (20, 4), "is_inline": (88, 1)}


def frame(c, name):
    f = type("F", (), {})()
    f.p = c.raw(name, 96)
    f.v = {k: c.int(name + "." + k, 8 * w) for k, (o, w) in FRAME.items()}
    for k, (o, w) in FRAME.items():
        c.put(f.p.add(o), w, f.v[k])
    f.filename, f.symbol = c.eng.fresh_str(c.st, name + ".filename"), c.eng.fresh_str(c.st, name + ".symbol")
    models.setstr(c.eng, c.st, f.p.add(24), f.filename)
    models.setstr(c.eng, c.st, f.p.add(56), f.symbol)
    return f


def entries(c, idx):
    """an arbitrary vector of entries whose idx-th refers to the frame; the others are not to be looked at"""
    n = c.int("entries")
    c.st.assume(And(ult(idx, n), ult(n, 1 << 40)))
    f = frame(c, "frame")

    def base(i, fo, w, ty):
        if fo == 8 and simp(eqv(i, idx)) is True:
            return f.p
        raise Unsupported("an entry other than the one asked for is used")
    o = c.st.new_obj("entries", Lin.of(n).scale(16).val(), "heap", engine.Arr(16, base, (), [(0, 8, ir.Ty("ptr")), (8, 8, ir.Ty("ptr"))]))
    v = c.raw("vector", 24)
    c.put(v, 24, Vec(o, n, 16))
    return v, f


def number(c):
    """contract of std::stoi: the number, or an exception; which is a function of the text"""
    val, bad = c.int("number", 32), c.bool("not a number")

    def stoi(eng, st, a, ins):
        st.ghost["number"] = models.getstr(eng, st, a[0])
        eng.oblige(st, "stoi: base ten", eqv(a[2], 10, 32))
        if st.decide(bad):
            raise engine.Throw("_ZTISt16invalid_argument")
        return val
    c.model(r"^std::(__cxx11::)?stoi\(", stoi)
    c.st.ghost["number"] = None
    return val, bad


def is_sub(c, o, s, line, start, n, what):
    """string s is the n characters of the line from start on"""
    c.ensure(o, eqv(s.len, n), what + ": length")
    k = bv(c.int("k"), 64)
    c.ensure(o, Implies(ult(k, s.len), eqv(s.at(k), line.at(simp(bv(start, 64) + k)), 8)), what + ": characters")


def at_pos(line, k, text):
    return And(*[eqv(line.at(simp(bv(k, 64) + i)), ord(x), 8) for i, x in enumerate(text)])


def setup(c):
    line = c.eng.fresh_str(c.st, "line")
    c.st.assume(ult(line.len, 1 << 40))
    p = c.string("line.object", line) if False else c.raw("line.object", 32)
    models.setstr(c.eng, c.st, p, line)
    idx = c.int("index")
    v, f = entries(c, idx)
    num, bad = number(c)
    return line, p, idx, v, f, num, bad


def unchanged(c, o, f, what, but=()):
    for k, (off, w) in FRAME.items():
        if k not in but:
            c.ensure(o, eqv(c.get(f.p.add(off), w, st=o.st), f.v[k], 8 * w), "%s: %s stays" % (what, k))
    for k, off in (("filename", 24), ("symbol", 56)):
        if k not in but:
            c.ensure(o, models.getstr(c.eng, o.st, f.p.add(off)).same(getattr(f, k)), "%s: %s stays" % (what, k))


RUN = r"addr2line::update_trace\("


@spec("P16", "a line of the format sets the fields it gives and no others", T, secs=150)
def _(c):
    c.common()
    line, p, idx, v, f, num, bad = setup(c)
    a, col = c.int("at"), c.int("colon")
    n = line.len
    # symbol: before the first " at "; location: what follows; number: behind its last colon
    c.st.assume(And(ult(a, 1 << 40), ult(col, n), ule(simp(a + 4), col)))
    c.st.assume(at_pos(line, a, " at "))
    c.st.assume(eqv(line.at(col), ord(":"), 8))
    is_at = lambda k: And(ult(k, n), at_pos(line, k, " at "))
    c.st.assume(Forall(lambda k: Implies(ult(k, a), Not(is_at(k))), None, "the first at"))
    c.st.assume(Forall(lambda k: Implies(And(ult(col, k), ult(k, n)), Not(eqv(line.at(k), ord(":"), 8))), None, "the last colon"))
    c.st.assume(Not(bad))
    for x in (a, col, simp(a + 4)):
        c.st.assume(QUERY(bv(x, 64)))
    finish(c, c.run(RUN, [p, idx, v]), line, f, num, a, simp(a + 4), col)


@spec("P16", "a line with nothing known sets the fields it gives", T, secs=150)
def _(c):
    c.common()
    line, p, idx, v, f, num, bad = setup(c)
    col, n = c.int("colon"), line.len
    c.st.assume(And(ult(col, n), ule(3, col), eqv(line.at(col), ord(":"), 8)))
    c.st.assume(at_pos(line, 0, "?? "))
    c.st.assume(Forall(lambda k: Implies(ult(k, n), Not(And(ult(simp(k + 3), n), at_pos(line, k, " at ")))), None, "no at"))
    c.st.assume(Forall(lambda k: Implies(And(ult(col, k), ult(k, n)), Not(eqv(line.at(k), ord(":"), 8))), None, "the last colon"))
    c.st.assume(Not(bad))
    for x in (0, 3, col):
        c.st.assume(QUERY(bv(x, 64)))
    finish(c, c.run(RUN, [p, idx, v]), line, f, num, 2, 3, col)


def finish(c, outs, line, f, num, sym_end, file_start, col):
    n = line.len
    flen, nlen = simp(bv(col, 64) - file_start), (Lin.of(n) - Lin.of(col) - 1).val()
    for o in c.normal(outs):
        unchanged(c, o, f, "accepted", ("line", "filename", "symbol"))
        unknown_line = And(eqv(nlen, 1), eqv(line.at(simp(col + 1)), ord("?"), 8))
        for st, yes in cases(c, o, unknown_line):
            q = Out("ret", st, None)
            c.ensure(q, eqv(c.get(f.p.add(16), 4, st=st), f.v["line"] if yes else num, 32), "the line number" + (" stays" if yes else " is set"))
            if not yes:
                is_sub(c, q, st.ghost["number"], line, simp(col + 1), nlen, "the text of the number")
        unknown_file = Or(eqv(flen, 0), And(eqv(flen, 2), at_pos(line, file_start, "??")))
        for st, yes in cases(c, o, unknown_file):
            q, s = Out("ret", st, None), models.getstr(c.eng, st, f.p.add(24))
            if yes:
                c.ensure(q, s.same(f.filename), "an unknown path leaves the file name as it was")
            else:
                is_sub(c, q, s, line, file_start, flen, "the path")
        for st, yes in cases(c, o, eqv(sym_end, 0)):
            q, s = Out("ret", st, None), models.getstr(c.eng, st, f.p.add(56))
            if yes:
                c.ensure(q, s.same(f.symbol), "no symbol leaves the symbol as it was")
            else:
                is_sub(c, q, s, line, 0, sym_end, "the symbol")


@spec("P16", "any line is safe, and a rejected one changes nothing", T, secs=150)
def _(c):
    c.common()
    line, p, idx, v, f, num, bad = setup(c)
    for o in c.run(RUN, [p, idx, v]):
        if o.kind == "ret":
            unchanged(c, o, f, "accepted", ("line", "filename", "symbol"))
        else:
            unchanged(c, o, f, "rejected")


@spec("P16", "a line without a location or a number is rejected", T, secs=150)
def _(c):
    c.common()
    line, p, idx, v, f, num, bad = setup(c)
    n, k0 = line.len, bv(c.int("anywhere"), 64)
    for o in c.run(RUN, [p, idx, v]):
        if o.kind != "ret":
            continue
        # accepted: it has a colon, and either an " at " or a leading "?? "
        st = o.st
        s2 = st.copy()
        s2.facts.append(Forall(lambda k: Implies(ult(k, n), Not(eqv(line.at(k), ord(":"), 8))), None, "no colon"))
        c.ensure(Out("ret", s2, None), False, "a line without a colon is rejected")
        s3 = st.copy()
        s3.facts.append(Forall(lambda k: Implies(ult(simp(k + 3), n), Not(at_pos(line, k, " at "))), None, "no at"))
        try:
            s3.assume(Not(And(ule(3, n), at_pos(line, 0, "?? "))))
        except engine.Infeasible:
            continue
        c.ensure(Out("ret", s3, None), False, "a line that neither has an at nor starts with unknown is rejected")
        if o.st.ghost["number"] is not None:
            c.ensure(o, Not(bad), "an unreadable number is rejected")


@spec("P16", "a line with no colon behind the at is rejected", T, secs=150)
def _(c):
    c.common()
    line, p, idx, v, f, num, bad = setup(c)
    n, a = line.len, c.int("at")
    c.st.assume(And(ult(a, 1 << 40), ult(simp(a + 3), n)))
    c.st.assume(at_pos(line, a, " at "))
    c.st.assume(Forall(lambda k: Implies(ult(k, a), Not(And(ult(k, n), at_pos(line, k, " at ")))), None, "the first at"))
    c.st.assume(Forall(lambda k: Implies(And(ule(a, k), ult(k, n)), Not(eqv(line.at(k), ord(":"), 8))), None, "no colon behind"))
    c.st.assume(QUERY(bv(a, 64)))
    for o in c.run(RUN, [p, idx, v]):
        c.ensure(o, o.kind != "ret", "rejected")
        unchanged(c, o, f, "rejected")
