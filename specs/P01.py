"""P01: pruning a symbol never fails, whatever the text"""
from dv.spec import *
from dv.elfspec import truth, cases, local
from dv.models import getstr, setstr
from specs.P09 import plumbing
from specs.P07 import branch

T = [TU("prune_symbol.cpp"), TU("utils/string_view.cpp")]
D = r"^cpptrace::v1::detail::"
TK = D + r"symbol_tokenizer::"
PR = D + r"symbol_parser::"
lit = Str.lit


def initialised(c):
    """runs the file's static initialisers, so that its tables are the real ones"""
    eng = c.eng
    c.common()

    def sort(eng, st, a, ins):
        p, e = a[0], a[1]
        n = (e.off - p.off).val() // 16
        cmp = c.fn(r"operator\(\)\(\) const::\{lambda\(cpptrace::v1::detail::string_view, cpptrace::v1::detail::string_view\)#1\}::operator\(\)")
        th = Ptr(st.new_obj("comparator", 1, "local"))
        el = [[c.getp(p.add(16 * i), st), c.get(p.add(16 * i + 8), 8, st=st)] for i in range(n)]

        def less(x, y):
            rs = eng.run_function(st.copy(), cmp, [th] + x + y)
            if len(rs) != 1 or rs[0][0] != "ret":
                raise Unsupported("comparator")
            v = truth(rs[0][2])
            v = simp(v) if z3.is_expr(v) else v
            if z3.is_expr(v):
                if z3.is_true(v) or z3.is_false(v):
                    return z3.is_true(v)
                raise Unsupported("comparator is not concrete")
            return bool(v)
        out = []
        for x in el:
            i = len(out)
            lo, hi = 0, i
            while lo < hi:
                m = (lo + hi) // 2
                if less(x, out[m]):
                    hi = m
                else:
                    lo = m + 1
            out.insert(lo, x)
        for i, (q, l) in enumerate(out):
            eng.put(st, p.add(16 * i), 8, q)
            eng.put(st, p.add(16 * i + 8), 8, l)
    c.model(r"^void std::sort<", sort)
    outs = c.run(r"^_GLOBAL__sub_I_prune_symbol", [], target=False)
    outs = [o for o in outs if o.kind == "ret"]
    if len(outs) != 1:
        raise Unsupported("static initialisation")
    c.st = outs[0].st




IDENT, PUNCT, LITERAL, ANON = 0, 1, 2, 3
SRC, CNT, TTYPE, TPTR, TLEN, THAS, TSIZE = 0, 8, 16, 24, 32, 40, 48     # symbol_tokenizer
RTYPE, RPTR, RLEN, RHAS, RACT = 0, 8, 16, 24, 32                        # Result<optional<token>, parse_error>
MAXN = (1 << 31) - 8
add = lambda a, b: (Lin.of(a) + Lin.of(b)).val()
sub = lambda a, b: (Lin.of(a) - Lin.of(b)).val()
rng = lambda ch, a, b: And(ule(a, ch, 8), ule(ch, b, 8))
digit = lambda ch: rng(ch, 48, 57)
alpha = lambda ch: Or(rng(ch, 65, 90), rng(ch, 97, 122))
istart = lambda ch: Or(alpha(ch), eqv(ch, 0x24, 8), eqv(ch, 0x5f, 8))
icont = lambda ch: Or(digit(ch), istart(ch))
num = lambda ch: Or(icont(ch), *[eqv(ch, ord(x), 8) for x in "'-+."])
space = lambda ch: Or(eqv(ch, 32, 8), rng(ch, 9, 13))


class Text:
    """an arbitrary text"""

    def __init__(self, c):
        self.c = c
        self.s = c.str("text", MAXN)
        self.o = c.eng.bytes_obj(c.st, "text", self.s, nul=False)
        self.n = self.s.len
        c.st.assume(ult(self.n, MAXN))

    def ch(self, k):
        return self.s.at(k)


def tokenizer(c, x, name="tokenizer", loaded=None):
    """a tokenizer somewhere in the text, with or without the next token at hand"""
    p = c.raw(name, TSIZE)
    pos = c.int(name + " position")
    c.st.assume(ule(pos, x.n))
    place(c, c.st, x, p, pos)
    has = c.bool(name + " has a token") if loaded is None else loaded
    c.put(p.add(THAS), 1, z3.ZeroExt(7, bv(has, 1)) if z3.is_expr(has) else has)
    ty, n = c.int(name + " token type", 32), c.int(name + " token length")
    c.st.assume(Implies(truth(has), And(ule(ty, 3, 32), ule(1, n), ule(n, sub(x.n, pos)))))
    c.put(p.add(TTYPE), 4, ty)
    c.put(p.add(TPTR), 8, Ptr(x.o, pos))
    c.put(p.add(TLEN), 8, n)
    t = type("T", (), {})()
    t.p, t.pos, t.has, t.ty, t.n = p, pos, has, ty, n
    return t


def flag(b):
    return simp(z3.ZeroExt(7, bv(b, 1)))


def place(c, st, x, p, pos):
    c.put(p.add(SRC), 8, Ptr(x.o, pos), st)
    c.put(p.add(CNT), 8, sub(x.n, pos), st)


def outcome(c, st, r):
    """the ways a token request came out: (state, 'error' | None | (type, pointer, length))"""
    for a, err in cases(c, st, Not(eqv(c.get(r.add(RACT), 4, st=st), 0, 32))):
        if err:
            yield a, "error"
            continue
        for b, has in cases(c, a, truth(c.get(r.add(RHAS), 1, st=a))):
            yield b, (c.get(r.add(RTYPE), 4, st=b), c.getp(r.add(RPTR), b), c.get(r.add(RLEN), 8, st=b)) if has else None


def piece(c, st, x, tok, pos, ty=None, what="token"):
    """the token is a non-empty piece of the text starting at pos"""
    k, q, n = tok
    c.ensure(st, q.obj is x.o, what + " points into the text")
    if q.obj is not x.o:
        return
    c.ensure(st, eqv(q.off.val(), pos), what + " starts where the tokenizer is")
    c.ensure(st, And(ule(1, n), ule(n, sub(x.n, pos))), what + " is not empty and ends inside the text")
    c.ensure(st, ule(k, 3, 32) if ty is None else eqv(k, ty, 32), what + "'s kind")


def unchanged(c, st, x, t):
    c.ensure(st, And(eqv(c.getp(t.p.add(SRC), st).off.val(), t.pos), eqv(c.get(t.p.add(CNT), 8, st=st), sub(x.n, t.pos))), "the tokenizer stays where it is")


def nesting(c, x, t):
    """a quoted piece is closed no later than it was opened, and every level takes a character"""
    def tmpl(e, entry, mods, steps, cx):
        def inv(st):
            cur, d = local(st, "cursor"), local(st, "depth")
            if not isinstance(cur, Ptr) or cur.obj is not x.o:
                return False
            k = sub(cur.off.val(), t.pos)
            return And(ult(k, sub(x.n, t.pos)), ule(d, simp(z3.Extract(31, 0, bv(k, 64))), 32), Implies(Not(eqv(k, 0)), Not(eqv(d, 0, 32))))
        return [("the depth is that of a place inside the text", inv)]
    c.eng.loop_templates.append(tmpl)


PIECES = [("peek_anonymous_namespace", ANON, ()), ("peek_number", LITERAL, ()), ("peek_msvc_string", LITERAL, ()),
          ("parse_quoted_string", LITERAL, ()), ("peek_punctuation", PUNCT, (0,)), ("peek_identifier", IDENT, (0,))]

for NAME, TY, ARGS in PIECES:
    @spec("P01", NAME + ": an error, nothing, or a piece of the text at the cursor", T)
    def _(c, NAME=NAME, TY=TY, ARGS=ARGS):
        initialised(c)
        x = Text(c)
        t = tokenizer(c, x, loaded=0)
        if NAME == "peek_msvc_string":
            nesting(c, x, t)
        for o in c.normal(c.run(TK + NAME + r"\(", [t.p] + list(ARGS))):
            for st, tok in outcome(c, o.st, o.val):
                unchanged(c, st, x, t)
                if tok not in ("error", None):
                    piece(c, st, x, tok, t.pos, TY)


# ------------------------------------------------------------------ the tokenizer
def kinds(c, eng, st, name):
    """nondeterministic outcome of a token request"""
    if st.decide(eng.fresh(name + " fails", 1)):
        return "error"
    return "token" if st.decide(eng.fresh(name + " finds", 1)) else None


def give(c, eng, st, r, out):
    """writes a token request's outcome"""
    eng.put(st, r.add(RACT), 4, 1 if out == "error" else 0)
    if out == "error":
        return
    eng.put(st, r.add(RHAS), 1, 0 if out is None else 1)
    if out is not None:
        k, p, n = out
        eng.put(st, r.add(RTYPE), 4, k)
        eng.put(st, r.add(RPTR), 8, p)
        eng.put(st, r.add(RLEN), 8, n)


def pieces_by_contract(c, x):
    def one(name, ty):
        def f(eng, st, a, ins):
            r, t = a[0], a[1]
            q, n = c.getp(t.add(SRC), st), c.get(t.add(CNT), 8, st=st)
            eng.oblige(st, name + ": the cursor is inside the text", And(q.obj is x.o, ule(q.off.val(), x.n), eqv(n, sub(x.n, q.off.val()))))
            if len(a) > 2:
                eng.oblige(st, name + ": looks at the cursor", eqv(a[2], 0))
            k = kinds(c, eng, st, name)
            if k == "token":
                m = eng.fresh(name + " length", 64)
                st.assume(And(ule(1, m), ule(m, n)))
                k = (ty, q, m)
            give(c, eng, st, r, k)
        c.contract(TK + name + r"\(", f, name, discharged=name)
    for name, ty, _ in PIECES:
        one(name, ty)
    c.keep = True


def holds(c, st, x, p, what="the tokenizer"):
    """the tokenizer's invariant: its source is a suffix of the text, and the token at hand the beginning of that"""
    q, n = c.getp(p.add(SRC), st), c.get(p.add(CNT), 8, st=st)
    c.ensure(st, q.obj is x.o, what + "'s source is in the text")
    if q.obj is not x.o:
        return None
    pos = q.off.val()
    c.ensure(st, And(ule(pos, x.n), eqv(n, sub(x.n, pos))), what + "'s source is a suffix of the text")
    return pos


def at_hand(c, st, x, p, pos, what="the token at hand"):
    for s, has in cases(c, st, truth(c.get(p.add(THAS), 1, st=st))):
        if has:
            piece(c, s, x, (c.get(p.add(TTYPE), 4, st=s), c.getp(p.add(TPTR), s), c.get(p.add(TLEN), 8, st=s)), pos, what=what)
        yield s, has


def spaces(c, x, t):
    def tmpl(e, entry, mods, steps, cx):
        def inv(st):
            q = c.getp(t.p.add(SRC), st)
            return And(q.obj is x.o, ule(t.pos, q.off.val()), ule(q.off.val(), x.n), eqv(c.get(t.p.add(CNT), 8, st=st), sub(x.n, q.off.val())))
        return [("the source is a suffix of the text, further on", inv)]
    c.eng.loop_templates.append(tmpl)


@spec("P01", "maybe_load_next_token: a token is at hand unless the text is at its end", T)
def _(c):
    initialised(c)
    x = Text(c)
    t = tokenizer(c, x)
    pieces_by_contract(c, x)
    spaces(c, x, t)
    for o in c.normal(c.run(TK + r"maybe_load_next_token\(", [t.p])):
        pos = holds(c, o.st, x, t.p)
        c.ensure(o, And(ule(t.pos, pos), Implies(truth(t.has), eqv(pos, t.pos))), "only moves on over blanks, and only to load a token")
        ok = eqv(c.get(o.val.add(4), 4, st=o.st), 0, 32)
        for s, has in at_hand(c, o.st, x, t.p, pos):
            c.ensure(s, Implies(truth(t.has), has), "a token at hand stays")
            if not has:
                c.ensure(s, Implies(ok, eqv(pos, x.n)), "nothing at hand means the text is used up")


def loader(c, x):
    """maybe_load_next_token by its contract"""
    def f(eng, st, a, ins):
        r, t = a
        q, n = c.getp(t.add(SRC), st), c.get(t.add(CNT), 8, st=st)
        eng.oblige(st, "the tokenizer's source is a suffix of the text", And(q.obj is x.o, ule(q.off.val(), x.n), eqv(n, sub(x.n, q.off.val()))))
        eng.put(st, r.add(4), 4, 0)
        if st.decide(truth(c.get(t.add(THAS), 1, st=st))):
            return
        pos = eng.fresh("next position", 64)
        st.assume(And(ule(q.off.val(), pos), ule(pos, x.n)))
        place(c, st, x, t, pos)
        k = kinds(c, eng, st, "loading")
        eng.put(st, t.add(THAS), 1, 1 if k == "token" else 0)
        eng.put(st, r.add(4), 4, 1 if k == "error" else 0)
        if k is None:
            st.assume(eqv(pos, x.n))
        if k == "token":
            ty, m = eng.fresh("next type", 32), eng.fresh("next length", 64)
            st.assume(And(ule(ty, 3, 32), ule(1, m), ule(m, sub(x.n, pos))))
            eng.put(st, t.add(TTYPE), 4, ty)
            eng.put(st, t.add(TPTR), 8, Ptr(x.o, pos))
            eng.put(st, t.add(TLEN), 8, m)
    c.contract(TK + r"maybe_load_next_token\(", f, "maybe_load_next_token", discharged="maybe_load_next_token")


@spec("P01", "peek: the token at the cursor, which stays", T)
def _(c):
    initialised(c)
    x = Text(c)
    t = tokenizer(c, x)
    loader(c, x)
    for o in c.normal(c.run(TK + r"peek\(bool\)", [t.p, c.bool("in a template")])):
        pos = holds(c, o.st, x, t.p)
        c.ensure(o, ule(t.pos, pos), "never moves back")
        for s, tok in outcome(c, o.st, o.val):
            for s2, has in at_hand(c, s, x, t.p, pos):
                if tok == "error":
                    c.ensure(s2, not has, "an error leaves no token at hand")
                    continue
                c.ensure(s2, has == (tok is not None), "answers with the token at hand")
                if tok is None:
                    c.ensure(s2, eqv(pos, x.n), "no token only at the end of the text")
                elif has:
                    piece(c, s2, x, tok, pos)
                    c.ensure(s2, ule(tok[2], c.get(t.p.add(TLEN), 8, st=s2)), "no longer than the token at hand")


def peeker(c, x):
    def f(eng, st, a, ins):
        r, t, tm = a
        before = c.getp(t.add(SRC), st).off.val()
        out = request(c, eng, st, x, t, tm, "peek")
        give(c, eng, st, r, out)
    c.contract(TK + r"peek\(bool\)", f, "peek", discharged="peek")


def request(c, eng, st, x, t, tm, what):
    """effect of peek on the tokenizer -> its answer"""
    q, n = c.getp(t.add(SRC), st), c.get(t.add(CNT), 8, st=st)
    eng.oblige(st, what + ": the tokenizer's source is a suffix of the text", And(q.obj is x.o, ule(q.off.val(), x.n), eqv(n, sub(x.n, q.off.val()))))
    has, ty, m = truth(c.get(t.add(THAS), 1, st=st)), c.get(t.add(TTYPE), 4, st=st), c.get(t.add(TLEN), 8, st=st)
    has = simp(has) if z3.is_expr(has) else has
    if z3.is_expr(has) and (z3.is_true(has) or z3.is_false(has)):
        has = z3.is_true(has)
    if has is not True:
        had = has
        pos = eng.fresh("next position", 64)
        st.assume(And(ule(q.off.val(), pos), ule(pos, x.n), Implies(had, eqv(pos, q.off.val()))))
        place(c, st, x, t, pos)
        k = kinds(c, eng, st, what)
        eng.put(st, t.add(THAS), 1, 1 if k == "token" else 0)
        if k != "token":
            st.assume(Not(had))
            if k is None:
                st.assume(eqv(pos, x.n))
            return k
        ty2, m2 = eng.fresh("next type", 32), eng.fresh("next length", 64)
        st.assume(And(ule(ty2, 3, 32), ule(1, m2), ule(m2, sub(x.n, pos)), Implies(had, And(eqv(ty2, ty, 32), eqv(m2, m)))))
        eng.put(st, t.add(TTYPE), 4, ty2)
        eng.put(st, t.add(TPTR), 8, Ptr(x.o, pos))
        eng.put(st, t.add(TLEN), 8, m2)
    q = c.getp(t.add(SRC), st)
    ty, m = c.get(t.add(TTYPE), 4, st=st), c.get(t.add(TLEN), 8, st=st)
    if tm is False or isc(tm) and not tm:
        return ty, q, m
    k = eng.fresh("token length", 64)
    st.assume(And(ule(1, k), ule(k, m), Implies(Not(truth(tm)), eqv(k, m))))
    return ty, q, k


@spec("P01", "advance: takes exactly the token it answers with", T)
def _(c):
    initialised(c)
    x = Text(c)
    t = tokenizer(c, x)
    peeker(c, x)
    for o in c.normal(c.run(TK + r"advance\(bool\)", [t.p, c.bool("in a template")])):
        pos = holds(c, o.st, x, t.p)
        c.ensure(o, ule(t.pos, pos), "never moves back")
        for s, tok in outcome(c, o.st, o.val):
            c.ensure(s, Not(truth(c.get(t.p.add(THAS), 1, st=s))), "no token is at hand")
            if tok is None:
                c.ensure(s, eqv(pos, x.n), "no token only at the end of the text")
            elif tok != "error":
                piece(c, s, x, tok, sub(pos, tok[2]))
                c.ensure(s, And(ult(t.pos, pos), ule(add(t.pos, tok[2]), pos)), "the token is used up")


def adv(c, x):
    def f(eng, st, a, ins):
        r, t, tm = a
        give(c, eng, st, r, take(c, eng, st, x, t, tm))
    c.contract(TK + r"advance\(bool\)", f, "advance", discharged="advance")


def take(c, eng, st, x, t, tm):
    out = request(c, eng, st, x, t, tm, "advance")
    if out not in ("error", None):
        place(c, st, x, t, add(out[1].off.val(), out[2]))
    eng.put(st, t.add(THAS), 1, 0)
    return out


@spec("P01", "accept: takes the token at the cursor if it is of the kind asked for", T)
def _(c):
    initialised(c)
    x = Text(c)
    t = tokenizer(c, x)
    peeker(c, x)
    adv(c, x)
    ty = c.int("type", 32)
    for o in c.normal(c.run(TK + r"accept\(cpptrace::v1::detail::token_type, bool\)", [t.p, ty, c.bool("in a template")])):
        accepted(c, o, x, t, lambda st, tok: eqv(tok[0], ty, 32))


def same(c, st, t):
    a, b, d, e = state(c, st, t.p)
    return And(eqv(a, t.pos), truth(b), eqv(d, t.ty, 32), eqv(e, t.n))


def accepted(c, o, x, t, good):
    pos = holds(c, o.st, x, t.p)
    c.ensure(o, ule(t.pos, pos), "never moves back")
    for s, tok in outcome(c, o.st, o.val):
        for s2, has in at_hand(c, s, x, t.p, pos):
            if tok == "error":
                pass
            elif tok is None:
                c.ensure(s2, True if has else eqv(pos, x.n), "no token is lost")
                c.ensure(s2, Implies(truth(t.has), same(c, s2, t)), "a token that isn't wanted stays at hand")
            else:
                c.ensure(s2, And(not has, tok[1].obj is x.o), "the token is taken")
                q = tok[1].off.val()
                c.ensure(s2, And(ule(t.pos, q), ule(1, tok[2]), ule(tok[2], sub(x.n, q)), ule(add(q, tok[2]), pos)), "and used up")
                c.ensure(s2, And(ule(tok[0], 3, 32), good(s2, tok)), "it is what was asked for")


@spec("P01", "accept: takes the token at the cursor if it is the one asked for", T)
def _(c):
    initialised(c)
    x = Text(c)
    t = tokenizer(c, x)
    peeker(c, x)
    adv(c, x)
    w = c.str("wanted", 64)
    wo = c.eng.bytes_obj(c.st, "wanted text", w, nul=False)
    p = c.raw("wanted token", 24)
    ty = c.int("type", 32)
    c.put(p, 4, ty)
    c.put(p.add(8), 8, Ptr(wo))
    c.put(p.add(16), 8, w.len)
    k = c.int("any place")
    for o in c.normal(c.run(TK + r"accept\(cpptrace::v1::detail::token, bool\)", [t.p, p, c.bool("in a template")])):
        accepted(c, o, x, t, lambda st, tok: And(eqv(tok[0], ty, 32), eqv(tok[2], w.len), Implies(ult(k, w.len), eqv(x.ch(add(tok[1].off.val(), k)), w.at(k), 8))))


def acceptors(c, x):
    def took(eng, st, t):
        q, m = c.getp(t.add(SRC), st).off.val(), c.get(t.add(TLEN), 8, st=st)
        place(c, st, x, t, add(q, m))
        eng.put(st, t.add(THAS), 1, 0)

    def by_type(eng, st, a, ins):
        r, t, ty, tm = a
        out = request(c, eng, st, x, t, tm, "accept")
        if out not in ("error", None):
            if st.decide(eqv(out[0], ty, 32)):
                took(eng, st, t)
            else:
                out = None
        give(c, eng, st, r, out)

    def by_token(eng, st, a, ins):
        r, t, p, tm = a
        out = request(c, eng, st, x, t, tm, "accept")
        if out not in ("error", None):
            q, n = c.getp(p.add(8), st), c.get(p.add(16), 8, st=st)
            w = models.str_from_mem(eng, st, q, n).lit_value()
            if w is None:
                raise Unsupported("a computed token")
            if st.decide(And(eqv(out[0], c.get(p, 4, st=st), 32), eqv(out[2], len(w)), *[eqv(x.ch(add(out[1].off.val(), i)), w[i], 8) for i in range(len(w))])):
                took(eng, st, t)
            else:
                out = None
        give(c, eng, st, r, out)
    c.contract(TK + r"accept\(cpptrace::v1::detail::token_type, bool\)", by_type, "accept (a kind)", discharged="accept")
    c.contract(TK + r"accept\(cpptrace::v1::detail::token, bool\)", by_token, "accept (a token)", discharged="accept")
    peeker(c, x)
    adv(c, x)


# ------------------------------------------------------------------ the parser
OUT, LAST, RESET, PSIZE = 8, 40, 41, 48


def parser(c, x, t):
    p = c.raw("parser", PSIZE)
    c.put(p, 8, t.p)
    s = c.str("output so far", MAXN)
    c.put(p.add(OUT), 32, s)
    for o, n in ((LAST, "last was an identifier"), (RESET, "starts afresh")):
        c.put(p.add(o), 1, flag(c.int(n, 1)))
    return p


def state(c, st, t):
    return (c.getp(t.add(SRC), st).off.val(), c.get(t.add(THAS), 1, st=st), c.get(t.add(TTYPE), 4, st=st), c.get(t.add(TLEN), 8, st=st))


LOOK = z3.Function("looks like a function pointer", z3.BitVecSort(64), z3.BoolSort(), z3.BitVecSort(32), z3.BitVecSort(64), z3.BoolSort())


def look(c, st, t):
    a, b, d, e = state(c, st, t)
    return LOOK(bv(a, 64), as_bool(truth(b)), bv(d, 32), bv(e, 64))


def as_bool(v):
    return z3.BoolVal(v) if isinstance(v, bool) else v


def wander(c, eng, st, x, t, strict, stay=False):
    """some tokens are used up; or none, and then a token at hand stays"""
    old = state(c, st, t)
    q = c.getp(t.add(SRC), st).off.val()
    pos = eng.fresh("position", 64)
    st.assume(And(ult(q, pos) if strict else ule(q, pos), ule(pos, x.n)))
    place(c, st, x, t, pos)
    has = eng.fresh("token at hand", 1)
    ty, m = eng.fresh("type at hand", 32), eng.fresh("length at hand", 64)
    st.assume(Implies(truth(has), And(ule(ty, 3, 32), ule(1, m), ule(m, sub(x.n, pos)))))
    if stay:
        st.assume(Implies(truth(old[1]), And(eqv(pos, old[0]), truth(has), eqv(ty, old[2], 32), eqv(m, old[3]))))
    eng.put(st, t.add(THAS), 1, flag(has))
    eng.put(st, t.add(TTYPE), 4, ty)
    eng.put(st, t.add(TPTR), 8, Ptr(x.o, pos))
    eng.put(st, t.add(TLEN), 8, m)


def scribble(c, eng, st, p):
    setstr(eng, st, p.add(OUT), eng.fresh_str(st, "output", MAXN))
    for o in (LAST, RESET):
        eng.put(st, p.add(o), 1, flag(eng.fresh("flag", 1)))


# function -> rank: a call goes down in rank or has used up some of the text
RANK = {"parse_symbol": 8, "parse_symbol_term": 7, "parse_function_pointer": 7, "accept_lambda_or_unnamed": 6, "accept_operator": 6,
        "accept_anonymous_namespace": 5, "accept_identifier_token": 5, "accept_new_delete": 5, "accept_special_decltype": 5,
        "consume_punctuation_and_trailing_modifiers": 5, "consume_punctuation": 5, "accept_balanced_punctuation": 4,
        "accept_ignored_identifier": 4, "accept_pointer_ref": 4, "consume_balanced": 3}


def rank(name, a):
    if name == "accept_operator" and len(a) > 2 and (a[2] is True or isc(a[2]) and int(a[2]) == 1):
        return 2
    return RANK[name]


def methods(c, x, t, me, args=(), except_=()):
    """the parser's other functions by contract"""
    entry = t.pos
    mine = 9 if me == "parse" else rank(me, [None, None] + list(args))

    def one(name):
        def f(eng, st, a, ins):
            r, p = a[0], a[1]
            tk = c.getp(p, st)
            q, n = c.getp(tk.add(SRC), st), c.get(tk.add(CNT), 8, st=st)
            eng.oblige(st, name + ": the tokenizer's source is a suffix of the text", And(q.obj is x.o, ule(q.off.val(), x.n), eqv(n, sub(x.n, q.off.val()))))
            eng.oblige(st, name + ": the recursion ends (less text or a simpler construct)", True if rank(name, a) < mine else ult(entry, q.off.val()))
            if name == "parse_function_pointer":
                eng.oblige(st, "only called where the text looks like a function pointer", look(c, st, tk))
            if name == "consume_balanced":
                w, k = a[2], a[3]
                eng.oblige(st, "only called for an opening bracket", opening(c, st, w, k))
            res = "error" if st.decide(eng.fresh(name + " fails", 1)) else bool(st.decide(eng.fresh(name + " matches", 1)))
            wander(c, eng, st, x, tk, res is True and name != "consume_balanced", res is False and name != "consume_balanced" and rank(name, a) != 2)
            scribble(c, eng, st, p)
            eng.put(st, r.add(4), 4, 1 if res == "error" else 0)
            if res != "error":
                eng.put(st, r, 1, int(res))
        c.contract(PR + name + r"\(", f, name, discharged=name)
    for name in RANK:
        if name not in except_:
            one(name)

    def lf(eng, st, a, ins):
        return look(c, st, c.getp(a[0], st))
    if "lookahead" not in except_:
        c.contract(PR + r"lookahead_is_function_pointer\(", lf, "lookahead_is_function_pointer", discharged="lookahead")
    appender(c)


def appender(c):
    def f(eng, st, a, ins):
        p, k = a
        q, n = c.getp(k.add(8), st), c.get(k.add(16), 8, st=st)
        if not (isc(n) and n == 0):
            eng.ptr_ok(st, q, n, "the appended token")
        scribble(c, eng, st, p)
    c.contract(PR + r"append_output\(", f, "append_output", discharged="append_output")


def opening(c, st, w, k):
    return And(eqv(k, 1), Or(*[eqv(c.get(w, 1, st=st), ord(b), 8) for b in "([{<"]))


def good(c, st, x, p):
    tp = c.getp(p.add(TPTR), st)
    pos = c.getp(p.add(SRC), st).off.val()
    return And(tp.obj is x.o, eqv(tp.off.val(), pos), ule(c.get(p.add(TTYPE), 4, st=st), 3, 32), ule(1, c.get(p.add(TLEN), 8, st=st)),
               ule(c.get(p.add(TLEN), 8, st=st), sub(x.n, pos)))


def invariant(c, x, t, p):
    """of every loop of the parser: the tokenizer is in order and further on than before; what a flag records has used up text"""
    def tmpl(e, entry, mods, steps, cx):
        def inv(st):
            q = c.getp(t.p.add(SRC), st)
            if not isinstance(q, Ptr) or q.obj is not x.o:
                return False
            return And(ule(t.pos, q.off.val()), ule(q.off.val(), x.n), eqv(c.get(t.p.add(CNT), 8, st=st), sub(x.n, q.off.val())),
                       Implies(truth(c.get(t.p.add(THAS), 1, st=st)), good(c, st, x, t.p)))
        r = [("the tokenizer is in order, and further on", inv)]
        cur = lambda st: c.getp(t.p.add(SRC), st).off.val()
        for o in entry.top().allocas:
            d = getattr(entry.mem.get(o.id), "d", None)
            if d and o.size == 4 and 0 in d:
                r.append(("%s: at most what was used up" % o.name.split("!")[0], lambda st, o=o: ule(bv(st.mem[o.id].d[0][1], 32), simp(z3.Extract(31, 0, bv(sub(cur(st), t.pos), 64)) + 1), 32)))
            if d and o.size == 1 and 0 in d:
                val = lambda st, o=o: truth(st.mem[o.id].d[0][1])
                r.append(("%s: a flag" % o.name.split("!")[0], lambda st, o=o: ule(st.mem[o.id].d[0][1], 1, 8)))
                r.append(("%s: text was used up" % o.name.split("!")[0], lambda st, val=val: Implies(val(st), ult(t.pos, cur(st)))))
                r.append(("not %s: a token at hand stays" % o.name.split("!")[0], lambda st, val=val: Implies(And(Not(val(st)), truth(t.has)), same(c, st, t))))
        return r
    c.eng.loop_templates.append(tmpl)


def answers(c, st, r):
    """a parser function's answer: (state, 'error' | True | False)"""
    for a, err in cases(c, st, Not(eqv(c.get(r.add(4), 4, st=st), 0, 32))):
        if err:
            yield a, "error"
            continue
        for b, v in cases(c, a, truth(c.get(r, 1, st=a))):
            yield b, v


FUNCTIONS = [(n, ()) for n in RANK if n not in ("accept_pointer_ref", "accept_operator", "consume_balanced")] + [("accept_pointer_ref", ("append",)), ("accept_operator", (False,)), ("accept_operator", (True,))] + [("consume_balanced", (b,)) for b in "([{<"]

for NAME, ARGS in FUNCTIONS:
    @spec("P01", "%s%s: an error, or an answer, and if it matched something was used up" % (NAME, " (in a template)" if ARGS == (True,) else " (%s)" % ARGS[0] if NAME == "consume_balanced" else ""), T, secs=300)
    def _(c, NAME=NAME, ARGS=ARGS):
        initialised(c)
        x = Text(c)
        t = tokenizer(c, x)
        acceptors(c, x)
        p = parser(c, x, t)
        args = [c.bool(a) if a == "append" else a for a in ARGS]
        if NAME == "consume_balanced":
            args = c.sv("bracket", s=lit(ARGS[0].encode()))[0]
        methods(c, x, t, NAME, args, except_=(NAME,) if NAME != "consume_balanced" else ())
        if NAME == "accept_lambda_or_unnamed":
            nested(c, x)
        if NAME == "parse_function_pointer":
            c.st.assume(look(c, c.st, t.p))
        invariant(c, x, t, p)
        c.eng.by_invariant.append("symbol_parser")
        c.eng.cand_filter = lambda name, cx: False
        for o in c.normal(c.run(PR + NAME + r"\(", [p] + args)):
            pos = holds(c, o.st, x, t.p)
            c.ensure(o, ule(t.pos, pos), "never moves back")
            c.ensure(o, Implies(truth(c.get(t.p.add(THAS), 1, st=o.st)), good(c, o.st, x, t.p)), "a token at hand is the piece of the text at the cursor")
            for s, v in answers(c, o.st, o.val):
                if NAME == "consume_balanced":
                    continue
                if v is True:
                    c.ensure(s, ult(t.pos, pos), "a match uses up some of the text")
                elif v is False and ARGS != (True,):
                    c.ensure(s, Implies(truth(t.has), same(c, s, t)), "without a match a token at hand stays")


def nested(c, x):
    def f(eng, st, a, ins):
        r, q, n = a
        eng.ptr_ok(st, q, n, "the nested symbol")
        eng.oblige(st, "the nested symbol is shorter", ult(n, x.n))
        setstr(eng, st, r, eng.fresh_str(st, "pruned", MAXN))
    c.contract(D + r"prune_symbol\(", f, "prune_symbol (of a shorter text)", discharged="prune_symbol")


@spec("P01", "copying a tokenizer: the copy is at the same place with the same token at hand", T)
def _(c):
    initialised(c)
    x = Text(c)
    t = tokenizer(c, x)
    q = c.raw("copy", TSIZE)
    for o in c.normal(c.run(TK + r"symbol_tokenizer\(cpptrace::v1::detail::symbol_tokenizer const&\)", [q, t.p])):
        pos = holds(c, o.st, x, q, "the copy")
        has = truth(c.get(q.add(THAS), 1, st=o.st))
        c.ensure(o, And(eqv(pos, t.pos), Iff(has, truth(t.has))), "same place")
        for s, h in cases(c, o.st, truth(t.has)):
            if h:
                a, b, d, e = state(c, s, q)
                c.ensure(s, And(eqv(d, t.ty, 32), eqv(e, t.n), good(c, s, x, q)), "same token at hand")


@spec("P01", "lookahead_is_function_pointer: answers, and leaves the tokenizer as it was", T)
def _(c):
    initialised(c)
    x = Text(c)
    t = tokenizer(c, x)
    acceptors(c, x)
    p = parser(c, x, t)
    made = []

    def copy(eng, st, a, ins):
        q, r = a
        place(c, st, x, q, c.getp(r.add(SRC), st).off.val())
        for o, w in ((THAS, 1), (TTYPE, 4), (TLEN, 8)):
            eng.put(st, q.add(o), w, c.get(r.add(o), w, st=st))
        eng.put(st, q.add(TPTR), 8, c.getp(r.add(TPTR), st))
        made.append(q)
    c.contract(TK + r"symbol_tokenizer\(cpptrace::v1::detail::symbol_tokenizer const&\)", copy, "copying a tokenizer", discharged="copying a tokenizer")

    def tmpl(e, entry, mods, steps, cx):
        def inv(st):
            z = made[-1]
            q = c.getp(z.add(SRC), st)
            if not isinstance(q, Ptr) or q.obj is not x.o:
                return False
            return And(ule(t.pos, q.off.val()), ule(q.off.val(), x.n), eqv(c.get(z.add(CNT), 8, st=st), sub(x.n, q.off.val())),
                       Implies(truth(c.get(z.add(THAS), 1, st=st)), good(c, st, x, z)))
        return [("the copy is in order", inv)]
    c.eng.loop_templates.append(tmpl)
    c.eng.by_invariant.append("symbol_parser")
    c.eng.cand_filter = lambda name, cx: False
    for o in c.normal(c.run(PR + r"lookahead_is_function_pointer\(", [p])):
        a, b, d, e = state(c, o.st, t.p)
        c.ensure(o, And(eqv(a, t.pos), Iff(truth(b), truth(t.has)), eqv(d, t.ty, 32), eqv(e, t.n)), "the tokenizer is as it was")


@spec("P01", "append_output: takes any token", T)
def _(c):
    initialised(c)
    x = Text(c)
    t = tokenizer(c, x)
    p = parser(c, x, t)
    w = c.str("token's text", MAXN)
    wo = c.eng.bytes_obj(c.st, "token's text", w, nul=False)
    k = c.raw("token", 24)
    c.put(k, 4, c.int("type", 32))
    c.put(k.add(8), 8, Ptr(wo))
    c.put(k.add(16), 8, w.len)
    for o in c.normal(c.run(PR + r"append_output\(", [p, k])):
        c.ensure(o, c.getp(p, o.st).obj is t.p.obj, "the parser keeps its tokenizer")


@spec("P01", "parse: reads the text to its end, or fails", T)
def _(c):
    initialised(c)
    x = Text(c)
    t = tokenizer(c, x)
    acceptors(c, x)
    p = parser(c, x, t)
    methods(c, x, t, "parse")
    invariant(c, x, t, p)
    c.eng.by_invariant.append("symbol_parser")
    c.eng.cand_filter = lambda name, cx: False
    for o in c.normal(c.run(PR + r"parse\(\)", [p])):
        pos = holds(c, o.st, x, t.p)
        c.ensure(o, Or(Not(eqv(c.get(o.val.add(4), 4, st=o.st), 0, 32)), eqv(pos, x.n)), "success means all of the text was read")


@spec("P01", "prune_symbol (internal): the parsed name, or the text itself when it can't be parsed or has no name", T)
def _(c):
    initialised(c)
    x = Text(c)
    c.st.ghost.update(failed=None, name=None)

    def parse(eng, st, a, ins):
        r, p = a
        tk = c.getp(p, st)
        q, n = c.getp(tk.add(SRC), st), c.get(tk.add(CNT), 8, st=st)
        eng.oblige(st, "the parser's tokenizer is at the text's beginning", And(q.obj is x.o, eqv(q.off.val(), 0), eqv(n, x.n)))
        eng.oblige(st, "no token is at hand yet", Not(truth(c.get(tk.add(THAS), 1, st=st))))
        bad = st.decide(eng.fresh("parsing fails", 1))
        st.ghost["failed"] = bad
        eng.put(st, tk.add(TTYPE), 4, 0)
        eng.put(st, tk.add(TLEN), 8, 0)
        wander(c, eng, st, x, tk, False)
        s = eng.fresh_str(st, "name", MAXN)
        setstr(eng, st, p.add(OUT), s)
        st.ghost["name"] = s
        for o in (LAST, RESET):
            eng.put(st, p.add(o), 1, flag(eng.fresh("flag", 1)))
        eng.put(st, r.add(4), 4, 1 if bad else 0)
    c.contract(PR + r"parse\(\)", parse, "parse", discharged="parse")
    c.keep = True
    for o in c.normal(c.run(D + r"prune_symbol\(", [Ptr(x.o), x.n])):
        out = getstr(c.eng, o.st, o.val)
        f, s = o.st.ghost["failed"], o.st.ghost["name"]
        c.ensure(o, f is not None, "the text is parsed")
        if f is None:
            continue
        if f:
            c.holds_str(o, out, x.s, "text that can't be parsed comes back as it is")
            continue
        for st, e in cases(c, o.st, eqv(s.len, 0)):
            c.holds_str(st, getstr(c.eng, st, o.val), x.s if e else s, "the name found, or the text if there is none")
        c.ensure(o, Implies(Not(eqv(x.n, 0)), Not(eqv(out.len, 0))), "never empty for a text that isn't")


@spec("P01", "prune_symbol: the internal one's answer, never an exception", T)
def _(c):
    initialised(c)
    p, s = c.string("symbol")
    r = c.str("pruned", MAXN)
    c.st.assume(ult(s.len, MAXN))
    c.st.ghost.update(asked=0)

    def inner(eng, st, a, ins):
        out, q, n = a
        st.ghost["asked"] += 1
        eng.oblige(st, "the whole symbol is given on", eqv(n, s.len))
        k = eng.fresh("any place", 64)
        eng.ptr_ok(st, q, n, "the symbol")
        setstr(eng, st, out, r)
    c.contract(D + r"prune_symbol\(", inner, "prune_symbol (internal)", discharged="prune_symbol")
    c.keep = True
    for o in c.normal(c.run(r"^cpptrace::v1::prune_symbol\(", [p])):
        c.ensure(o, o.st.ghost["asked"] == 1, "asked once")
        c.holds_str(o, getstr(c.eng, o.st, o.val), r, "the answer is the pruned name")
        c.holds_str(o, getstr(c.eng, o.st, p), s, "the symbol is left as it was")
