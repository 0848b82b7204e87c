from dv.spec import *
from dv.models import str_eq_goal

T = ["utils/string_view.cpp", "probe:text"]
D = r"^cpptrace::v1::detail::"
WS = b" \t\n\r\f\v"


def truth(v):
    return v if isinstance(v, bool) or (z3.is_expr(v) and z3.is_bool(v)) else Not(eqv(v, 0, 8))


def eq_def(a, b):
    """[goal when true, goal when false] halves of: r <=> a and b are the same characters"""
    return str_eq_goal(a, b)


def views(c, *nulls):
    return [c.sv("v%d" % i, n) for i, n in enumerate(nulls)]


def iff_eq(c, o, r, a, b, name):
    """r is true exactly when the strings are equal (both directions, by cases)"""
    if o.st.copy().__class__ and r is True or r is False:
        branches = [(o.st, r)]
    else:
        branches = []
        for v in (True, False):
            s = o.st.copy()
            try:
                s.assume(truth(r) if v else Not(truth(r)))
            except engine.Infeasible:
                continue
            if c.feasible(s):
                branches.append((s, v))
    for s, v in branches:
        if v:
            c.ensure(s, str_eq_goal(a, b), name + " (true only when it holds)")
        else:
            # not equal: the lengths differ or some character does
            if a.same(b):
                c.ensure(s, False, name + " (false only when it does not hold)")
                continue
            s.facts.append(Forall(lambda k: Implies(ult(k, a.len), eqv(a.at(k), b.at(k), 8)), None, "assume equal"))
            try:
                s.assume(eqv(a.len, b.len))
            except engine.Infeasible:
                continue
            c.ensure(s, False, name + " (false only when it does not hold)")


for na in (False, True):
    for nb in (False, True):
        tag = " [%s,%s]" % ("null" if na else "any", "null" if nb else "any")

        @spec("P03", "operator== compares sizes and characters" + tag, T)
        def _(c, na=na, nb=nb):
            (x, a, _), (y, b, _) = views(c, na, nb)
            for o in c.normal(c.run(D + r"operator==\(cpptrace::v1::detail::string_view", x + y)):
                iff_eq(c, o, o.val, a, b, "equal exactly when all characters are")

        @spec("P03", "starts_with is the prefix relation" + tag, T)
        def _(c, na=na, nb=nb):
            v, a, _ = c.sv_obj("text", na)
            y, b, _ = c.sv("prefix", nb)
            for o in c.normal(c.run(D + r"string_view::starts_with\(", [v] + y)):
                affix(c, o, o.val, a, b, False)

        @spec("P03", "ends_with is the suffix relation" + tag, T)
        def _(c, na=na, nb=nb):
            v, a, _ = c.sv_obj("text", na)
            y, b, _ = c.sv("suffix", nb)
            for o in c.normal(c.run(D + r"string_view::ends_with\(", [v] + y)):
                affix(c, o, o.val, a, b, True)


def affix(c, o, r, a, b, end):
    for v in (True, False):
        s = o.st.copy()
        try:
            s.assume(truth(r) if v else Not(truth(r)))
            if not c.feasible(s):
                continue
            if v:
                c.ensure(s, ule(b.len, a.len), "the affix fits")
                off = (Lin.of(a.len) - Lin.of(b.len)) if end else Lin(0)
                c.ensure(s, Forall(lambda k: Implies(ult(k, b.len), eqv(b.at(k), a.at((Lin.of(k) + off).val()), 8)), None, "affix"),
                         "every character of the affix matches")
            else:
                s.assume(ule(b.len, a.len))
                off = (Lin.of(a.len) - Lin.of(b.len)) if end else Lin(0)
                s.assume(Forall(lambda k: Implies(ult(k, b.len), eqv(b.at(k), a.at((Lin.of(k) + off).val()), 8)), None, "affix"))
                c.ensure(s, False, "false only when the affix does not match")
        except engine.Infeasible:
            pass


for nb in (False, True):
    @spec("P03", "find_last_of finds the last character of the set [set %s]" % ("null" if nb else "any"), T)
    def _(c, nb=nb):
        find_last(c, c.sv_obj("text"), c.sv("set", nb))

    @spec("P03", "find_last_of of an empty text [set %s]" % ("null" if nb else "any"), T)
    def _(c, nb=nb):
        v, a, _ = c.sv_obj("text", True)
        y, b, _ = c.sv("set", nb)
        for o in c.normal(c.run(D + r"string_view::find_last_of\(", [v] + y)):
            c.ensure(o, eqv(o.val, M64), "npos")


def find_last(c, view, setv):
    v, a, _ = view
    y, b, _ = setv
    if not b.p:
        for o in c.normal(c.run(D + r"string_view::find_last_of\(", [v] + y)):
            c.ensure(o, eqv(o.val, M64), "npos for an empty set")
        return

    def templates(eng, entry, mods, steps, ctx):
        out = []
        for l in mods:
            if len(l) == 3 and isinstance(l[1], int) and l[2] == 8:
                def g(s, l=l):
                    p = eng.scalar(s, l)[0]
                    return Forall(lambda k: Implies(And(ule(p, k), ult(k, a.len)), outside(a.at(k))), None, "nothing behind is in the set")
                out.append(("nothing at or after %s+%d is in the set" % (entry.objs[l[0]].name, l[1]), g))
        return out
    # outside(ch): no member equals ch.  As a formula over a fresh predicate with the defining axiom instantiated by std::find
    fresh = z3.Function("outside", z3.BitVecSort(8), z3.BoolSort())
    outside = lambda ch: fresh(bv(ch, 8))

    def find_model(eng, st, args, ins):
        ch = eng.load(st, args[2], ir.I8)
        p, e = args[0], args[1]
        if p.null and e.null:
            st.assume(outside(ch))
            return e
        n = (e.off - p.off).val()
        if isc(n) and n == 0:
            st.assume(outside(ch))
            return e
        at = models.snapshot(eng, st, p)
        eng.ptr_ok(st, p, n, "std::find")
        eng.oblige(st, "std::find searches the whole set", And(eqv(p.off.val(), 0), eqv(n, b.len)))
        r = eng.fresh("find", 64)
        if st.decide(outside(ch)):
            return e
        st.assume(ult(r, n))
        st.assume(eqv(at(r), ch, 8))
        return p.add(r)
    c.model(r"char const\* std::find<char const\*, char>\(", find_model)
    c.eng.loop_templates.append(templates)
    outs = c.run(D + r"string_view::find_last_of\(", [v] + y)
    for o in c.normal(outs):
        r = o.val
        for hit in (True, False):
            s = o.st.copy()
            try:
                s.assume(Not(eqv(r, M64)) if hit else eqv(r, M64))
                if not c.feasible(s):
                    continue
            except engine.Infeasible:
                continue
            # an empty set contains nothing
            try:
                e = s.copy()
                e.assume(eqv(b.len, 0))
                if c.feasible(e):
                    c.ensure(e, eqv(r, M64), "npos for an empty set")
                s.assume(Not(eqv(b.len, 0)))
            except engine.Infeasible:
                pass
            if hit:
                c.ensure(s, ult(r, a.len), "position inside the text")
                c.ensure(s, Not(outside(a.at(r))), "the character is in the set")
                c.ensure(s, Forall(lambda k: Implies(And(ult(r, k), ult(k, a.len)), outside(a.at(k))), None, "last"), "no later character is")
            else:
                c.ensure(s, Forall(lambda k: Implies(ult(k, a.len), outside(a.at(k))), None, "none"), "no character is in the set")


@spec("P03", "operator[] and at read the indexed character", T)
def _(c):
    c.common()
    v, a, _ = c.sv_obj("text")
    i = c.int("index")
    for o in c.normal(c.run(D + r"string_view::at\(", [v, i]), lambda t: "runtime_error" in t):
        c.ensure(o, ult(i, a.len), "at returns only for a valid index")
        c.ensure(o, eqv(o.val, a.at(i), 8), "and returns that character")
    for o in c.run(D + r"string_view::at\(", [v, i], c.st.copy()):
        if o.kind == "throw":
            c.ensure(o, ule(a.len, i), "at throws only out of range")
    s = c.st.copy()
    s.assume(ult(i, a.len))
    for o in c.normal(c.run(D + r"string_view::operator\[\]\(", [v, i], s)):
        c.ensure(o, eqv(o.val, a.at(i), 8), "operator[] returns the character")


@spec("P03", "substr is the clamped slice", T)
def _(c):
    v, a, ob = c.sv_obj("text")
    p, n = c.int("pos"), c.int("n")
    c.st.assume(ule(p, a.len))
    for o in c.normal(c.run(r"^probe::sv_substr\(", [v, p, n])):
        q, ln = o.val
        rest = (Lin.of(a.len) - Lin.of(p)).val()
        c.ensure(o, isinstance(q, Ptr) and q.obj is ob, "points into the text")
        c.ensure(o, eqv(q.off.val(), p), "starts at pos")
        c.ensure(o, eqv(ln, Ite(ule(n, rest), n, rest, 64)), "has min(n, size - pos) characters")


@spec("P03", "front, back", T)
def _(c):
    v, a, ob = c.sv_obj("text")
    c.common()
    c.st.assume(Not(eqv(a.len, 0)))
    for o in c.normal(c.run(r"^probe::sv_front\(", [v], c.st.copy())):
        c.ensure(o, eqv(o.val, a.at(0), 8), "front is the first character")
    for o in c.normal(c.run(r"^probe::sv_back\(", [v], c.st.copy())):
        c.ensure(o, eqv(o.val, a.at((Lin.of(a.len) - 1).val()), 8), "back is the last character")


@spec("P03", "operator!= is the negation of ==", T)
def _(c):
    (x, a, _), (y, b, _) = views(c, False, False)
    res = c.eng.fresh("equal", 1)
    c.model(D + r"operator==\(", lambda eng, st, args, ins: res)
    for o in c.normal(c.run(r"^probe::sv_ne\(", x + y)):
        c.ensure(o, Iff(truth(o.val), Not(res)), "negation")


@spec("P03", "appending and converting a view copies its characters", T)
def _(c):
    sp, s0 = c.string("target")
    y, b, _ = c.sv("view")
    v, d, _ = c.sv_obj("view2")
    for o in c.normal(c.run(r"^probe::sv_append\(", [sp] + y, c.st.copy())):
        c.holds_str(o, c.getstr(sp, o.st), s0.cat(b), "target + view")
    b = d
    for o in c.normal(c.run(r"^probe::sv_str\(", [v], c.st.copy())):
        c.holds_str(o, c.getstr(o.val, o.st), b, "the characters of the view")


@spec("P03", "cstring_view::substr", T)
def _(c):
    c.common()
    p, s = c.cstr("text")
    v = c.raw("view", 16)
    c.put(v, 8, p)
    c.put(v.add(8), 8, s.len)
    pos = c.int("pos")
    c.st.assume(ule(pos, s.len))
    for o in c.normal(c.run(D + r"cstring_view::substr\(", [v, pos])):
        q, ln = o.val
        c.ensure(o, And(eqv(q.off.val(), pos), eqv(ln, (Lin.of(s.len) - Lin.of(pos)).val())), "the rest of the text from pos")


def is_ws(ch):
    return Or(*[eqv(ch, w, 8) for w in WS])


@spec("P03", "trim removes exactly the surrounding whitespace", T)
def _(c):
    p, s = c.string("text")
    for o in c.normal(c.run(r"^probe::t_trim\(", [p])):
        r = c.getstr(o.val, o.st)
        st = o.st
        # result is a slice of the text: identify it by its piece
        n = r.len
        off = slice_offset(r, s)
        if off is None:
            c.ensure(o, eqv(n, 0), "a result that is not a slice is empty")
            c.ensure(o, Forall(lambda k: Implies(ult(k, s.len), is_ws(s.at(k))), None, "blank"), "and the text is nothing but whitespace")
            continue
        e = (Lin.of(off) + Lin.of(n)).val()
        c.ensure(o, And(ule(off, e), ule(e, s.len)), "slice of the text")
        c.ensure(o, Forall(lambda k: Implies(ult(k, off), is_ws(s.at(k))), None, "before"), "only whitespace before it")
        c.ensure(o, Forall(lambda k: Implies(And(ule(e, k), ult(k, s.len)), is_ws(s.at(k))), None, "after"), "only whitespace after it")
        c.ensure(o, Implies(Not(eqv(n, 0)), And(Not(is_ws(s.at(off))), Not(is_ws(s.at((Lin.of(e) - 1).val()))))), "no whitespace at its ends")


def slice_offset(r, s):
    """offset of a slice value inside s, None when r is empty by construction"""
    if r.same(s):
        return 0
    if not r.p:
        return None
    off = Lin(0)
    while len(r.p) == 1 and r.p[0].sub is not None:
        r, o = r.p[0].sub
        off = off + o
        if r.same(s):
            return off.val()
    # structural prefix of the input
    if len(s.p) == 1 and len(r.p) == 1 and r.p[0] is s.p[0]:
        return 0
    raise Unsupported("result is not a slice of the input: %r" % (r.p[0].key[:2],))


@spec("P03", "starts_with(string, prefix)", T)
def _(c):
    p, s = c.string("text")
    q, b = c.string("prefix")
    for o in c.normal(c.run(r"^probe::t_starts_with\(", [p, q])):
        affix(c, o, o.val, s, b, False)


for win in (False, True):
    @spec("P03", "basename is what follows the last separator" + (" (windows)" if win else ""), T)
    def _(c, win=win):
        c.common()
        p, s = c.cstr("path")
        sep = lambda ch: Or(eqv(ch, 0x2f, 8), eqv(ch, 0x5c, 8) if win else False)

        def templates(eng, entry, mods, steps, ctx):
            out = []
            for l in mods:
                if len(l) == 3 and isinstance(l[1], int) and l[2] == 8:
                    def g(st, l=l):
                        q = eng.scalar(st, l)[0]
                        return Forall(lambda k: Implies(And(ule(q, k), ult(k, s.len)), Not(sep(s.at(k)))), None, "no separator behind")
                    out.append(("no separator at or after %s+%d" % (entry.objs[l[0]].name, l[1]), g))
            return out
        c.eng.loop_templates.append(templates)
        for o in c.normal(c.run(r"^probe::t_basename%s\(" % ("_win" if win else ""), [p, s.len])):
            r = c.getstr(o.val, o.st)
            c.ensure(o, ule(r.len, s.len), "not longer than the path")
            off = (Lin.of(s.len) - Lin.of(r.len)).val()
            c.ensure(o, Forall(lambda k: Implies(ult(k, r.len), eqv(r.at(k), s.at((Lin.of(off) + Lin.of(k)).val()), 8)), None, "suffix"), "a suffix of the path")
            c.ensure(o, Forall(lambda k: Implies(And(ule(off, k), ult(k, s.len)), Not(sep(s.at(k)))), None, "none"), "contains no separator")
            c.ensure(o, Or(eqv(off, 0), sep(s.at((Lin.of(off) - 1).val()))), "and starts right behind one (or is the whole path)")


@spec("P03", "split cuts at every delimiter and nowhere else", T)
def _(c):
    p, s = c.string("text")
    q, d = c.string("delims")
    isd = models.set_pred(c.eng, c.st, d)
    # ghost: next = where the next piece has to start; done = the last piece ran to the end of the text
    c.st.ghost["next"] = 0
    c.st.ghost["done"] = False

    def push(eng, st, a, ins):
        x = c.getstr(a[1], st)
        off = slice_offset(x, s)
        nxt, done = st.ghost["next"], st.ghost["done"]
        if off is None:
            off = nxt
        e = (Lin.of(off) + Lin.of(x.len)).val()
        eng.oblige(st, "no piece after the last one", Not(done))
        eng.oblige(st, "the piece starts right behind the previous delimiter", eqv(off, nxt))
        eng.oblige(st, "the piece stays inside the text", And(ule(off, e), ule(e, s.len)))
        eng.oblige(st, "the piece contains no delimiter",
                   Forall(lambda k: Implies(And(ule(off, k), ult(k, e)), Not(isd(s.at(k)))), None, "none"))
        eng.oblige(st, "the piece ends at a delimiter or at the end of the text", Or(eqv(e, s.len), isd(s.at(e))))
        st.ghost["done"] = eqv(e, s.len)
        st.ghost["next"] = (Lin.of(e) + 1).val()
        return None
    c.model(r"^(void )?.*std::vector<std::__cxx11::basic_string<.*>::(emplace_back|push_back)", push)

    def templates(eng, entry, mods, steps, ctx):
        out = [("not done", lambda st: Not(st.ghost["done"])), ("next <= len", lambda st: ule(st.ghost["next"], s.len))]
        for l in mods:
            if len(l) == 3 and isinstance(l[1], int) and l[2] == 8:
                out.append(("next == %s+%d" % (entry.objs[l[0]].name, l[1]), lambda st, l=l: eqv(st.ghost["next"], eng.scalar(st, l)[0])))
        return out
    c.eng.loop_templates.append(templates)
    for o in c.normal(c.run(r"^probe::t_split\(", [p, q])):
        c.ensure(o, o.st.ghost["done"], "the last piece reaches the end of the text")
