"""P02: pruning keeps exactly the qualified name of a well-formed symbol

The tokenizer: each token is the one the definition of tokens gives for the text at the cursor.  The parser: what each
function appends is exactly what its construct keeps of the tokens it takes, in order; what is to be dropped is not
appended; no alternative is skipped."""
from dv.spec import *
from dv.elfspec import truth, cases, local
from dv.models import getstr, setstr
from specs.P01 import (T, D, TK, PR, lit, initialised, Text, tokenizer, parser, place, sub, add, flag, request, take, state, look, wander, kinds, give,
                       outcome, answers, invariant, same, good, digit, istart, icont, num, space, rng, alpha, as_bool, opening, RANK, holds,
                       IDENT, PUNCT, LITERAL, ANON, SRC, CNT, TTYPE, TPTR, TLEN, THAS, TSIZE, RACT, OUT, LAST, RESET, MAXN)

NOAPP = {"consume_punctuation_and_trailing_modifiers", "consume_punctuation", "accept_balanced_punctuation", "accept_ignored_identifier", "consume_balanced"}


def yes(v):
    return v is True or isc(v) and int(v) == 1


def silent(name, args):
    """functions that append nothing"""
    return name in NOAPP or name == "accept_operator" and yes(args[0]) or name == "accept_pointer_ref" and isc(args[0]) and not yes(args[0])


WORDS = {"is_ignored_identifier": ("const", "volatile", "decltype", "noexcept"),
         "is_microsoft_calling_convention": ("__cdecl", "__clrcall", "__stdcall", "__fastcall", "__thiscall", "__vectorcall"),
         "is_opening_punctuation": ("(", "[", "{", "<"), "is_closing_punctuation": (")", "]", "}", ">")}


def among(n, ch, ws):
    return Or(*[And(eqv(n, len(w)), *[eqv(ch(i), ord(w[i]), 8) for i in range(len(w))]) for w in ws])


def words(c, x):
    """the tests for a set of words by contract"""
    def one(name, ws):
        def f(eng, st, a, ins):
            q, n = a
            if q.obj is not x.o:
                w = models.str_from_mem(eng, st, q, n).lit_value()
                if w is None:
                    raise Unsupported("a word of another text")
                return w.decode() in ws
            eng.ptr_ok(st, q, n, "the word")
            return among(n, lambda i: x.ch(add(q.off.val(), i)), ws)
        c.contract(D + name + r"\(", f, name, discharged=name)
    for name, ws in WORDS.items():
        one(name, ws)


for NAME, WS in WORDS.items():
    @spec("P02", NAME + ": exactly " + " ".join(WS), T)
    def _(c, NAME=NAME, WS=WS):
        initialised(c)
        x = Text(c)
        for o in c.normal(c.run(D + NAME + r"\(", [Ptr(x.o), x.n])):
            c.ensure(o, Iff(truth(o.val), among(x.n, x.ch, WS)), "one of these, and nothing else")


class Tok:
    def __init__(self, x, ty, q, n):
        self.x, self.ty, self.q, self.n = x, ty, q, n

    def inside(self):
        return self.q.obj is self.x.o

    def says(self, b):
        b = b.encode()
        if not self.inside():
            return False
        o = self.q.off.val()
        return And(eqv(self.n, len(b)), *[eqv(self.x.ch(add(o, i)), b[i], 8) for i in range(len(b))])

    def kind(self, k):
        return eqv(self.ty, k, 32)

    def any(self, k, *ws):
        return And(self.kind(k), Or(*[self.says(w) for w in ws]))

    def begins(self, w):
        w = w.encode()
        o = self.q.off.val()
        return And(ule(len(w), self.n), *[eqv(self.x.ch(add(o, i)), w[i], 8) for i in range(len(w))])

    def ends(self, ch):
        return And(ule(1, self.n), eqv(self.x.ch(sub(add(self.q.off.val(), self.n), 1)), ord(ch), 8))

    def same(self, t, kind=True):
        """the same piece of the text"""
        if self.q.obj is not t.q.obj:
            return False
        return And(eqv(self.q.off.val(), t.q.off.val()), eqv(self.n, t.n), Iff(self.kind(IDENT), t.kind(IDENT)) if kind else True)


def hand(c, st, x, p):
    """(is a token at hand, the token)"""
    return truth(c.get(p.add(THAS), 1, st=st)), Tok(x, c.get(p.add(TTYPE), 4, st=st), c.getp(p.add(TPTR), st), c.get(p.add(TLEN), 8, st=st))


def note(st, *e):
    st.ghost["ev"] = st.ghost["ev"].add(*e)


def stream(c, x, adv=None, fine=False):
    """the tokenizer's requests by contract; what is taken is recorded"""
    def took(st, out):
        note(st, "take", Tok(x, *out))

    def failed(st):
        note(st, "err")

    def leave(eng, st, t, out):
        place(c, st, x, t, add(c.getp(t.add(SRC), st).off.val(), c.get(t.add(TLEN), 8, st=st)))
        eng.put(st, t.add(THAS), 1, 0)
        took(st, out)

    def peek(eng, st, a, ins):
        r, t, tm = a
        out = request(c, eng, st, x, t, tm, "peek")
        if out == "error":
            failed(st)
        give(c, eng, st, r, out)

    def advance(eng, st, a, ins):
        r, t, tm = a
        out = take(c, eng, st, x, t, tm)
        if out == "error":
            failed(st)
        elif out is not None:
            took(st, out)
        elif fine:
            note(st, "refuse", None)
        give(c, eng, st, r, out)

    def by_type(eng, st, a, ins):
        r, t, ty, tm = a
        out = request(c, eng, st, x, t, tm, "accept")
        if out == "error":
            failed(st)
        elif out is not None:
            if st.decide(eqv(out[0], ty, 32)):
                leave(eng, st, t, out)
            else:
                out = None
        give(c, eng, st, r, out)

    def by_token(eng, st, a, ins):
        r, t, p, tm = a
        out = request(c, eng, st, x, t, tm, "accept")
        if out == "error":
            failed(st)
        elif out is not None:
            q, n = c.getp(p.add(8), st), c.get(p.add(16), 8, st=st)
            w = models.str_from_mem(eng, st, q, n).lit_value()
            if w is None:
                raise Unsupported("a computed token")
            if st.decide(And(eqv(out[0], c.get(p, 4, st=st), 32), eqv(out[2], len(w)), *[eqv(x.ch(add(out[1].off.val(), i)), w[i], 8) for i in range(len(w))])):
                leave(eng, st, t, out)
            else:
                if fine:
                    note(st, "refuse", Tok(x, *out))
                out = None
        elif fine:
            note(st, "refuse", None)
        give(c, eng, st, r, out)
    words(c, x)
    c.contract(TK + r"peek\(bool\)", peek, "peek", discharged="peek")
    c.contract(TK + r"advance\(bool\)", adv or advance, "advance", discharged="advance")
    c.contract(TK + r"accept\(cpptrace::v1::detail::token_type, bool\)", by_type, "accept (a kind)", discharged="accept")
    c.contract(TK + r"accept\(cpptrace::v1::detail::token, bool\)", by_token, "accept (a token)", discharged="accept")


def methods(c, x, except_=(), fp=False):
    """the parser's other functions by contract, recorded"""
    def one(name):
        def f(eng, st, a, ins):
            r, p, rest = a[0], a[1], a[2:]
            tk = c.getp(p, st)
            if name == "consume_balanced":
                ch = models.str_from_mem(eng, st, rest[0], rest[1])
                rest = (ch,)
            res = "error" if st.decide(eng.fresh(name + " fails", 1)) else bool(st.decide(eng.fresh(name + " matches", 1)))
            has, tok = hand(c, st, x, tk)
            note(st, "call", name, rest, res, c.get(p.add(RESET), 1, st=st), (has, tok))
            two = name == "accept_operator" and yes(rest[0])
            wander(c, eng, st, x, tk, res is True and name != "consume_balanced", res is False and name != "consume_balanced" and not two)
            if not silent(name, rest):
                setstr(eng, st, p.add(OUT), eng.fresh_str(st, "output", MAXN))
                for o in (LAST, RESET):
                    eng.put(st, p.add(o), 1, flag(eng.fresh("flag", 1)))
            eng.put(st, r.add(4), 4, 1 if res == "error" else 0)
            if res != "error":
                eng.put(st, r, 1, int(res))
        c.contract(PR + name + r"\(", f, name, discharged=name)
    for name in RANK:
        if name not in except_:
            one(name)

    def lf(eng, st, a, ins):
        v = fp or bool(st.decide(eng.fresh("looks like a function pointer", 1)))
        note(st, "look", v)
        return int(v)
    c.contract(PR + r"lookahead_is_function_pointer\(", lf, "lookahead_is_function_pointer", discharged="lookahead")
    appender(c, x)


def appender(c, x):
    def f(eng, st, a, ins):
        p, k = a
        ty, q, n = c.get(k, 4, st=st), c.getp(k.add(8), st), c.get(k.add(16), 8, st=st)
        if q.obj is x.o:
            t = Tok(x, ty, q, n)
        else:
            t = (ty, models.str_from_mem(eng, st, q, n), q, n)
        note(st, "out", t)
        eng.put(st, p.add(RESET), 1, 0)
    c.contract(PR + r"append_output\(", f, "append_output", discharged="append_output")


def setup(c, adv=None, fine=False):
    initialised(c)
    x = Text(c)
    t = tokenizer(c, x)
    stream(c, x, adv, fine)
    p = parser(c, x, t)
    c.st.ghost.update(ev=Events())
    invariant(c, x, t, p)
    c.eng.by_invariant.append("symbol_parser")
    c.eng.cand_filter = lambda name, cx: False
    c.keep = True
    c.entry = (getstr(c.eng, c.st, p.add(OUT)), c.get(p.add(LAST), 1), c.get(p.add(RESET), 1))
    return x, t, p


def frame(c, o, p):
    """nothing was appended, and nothing will be reset"""
    s, last, reset = c.entry
    c.holds_str(o, getstr(c.eng, o.st, p.add(OUT)), s, "the name so far is left as it is")
    c.ensure(o, And(eqv(c.get(p.add(LAST), 1, st=o.st), last, 8), eqv(c.get(p.add(RESET), 1, st=o.st), reset, 8)), "the parser's flags are left as they are")


def events(st):
    """what happened, without the lookahead's answers"""
    return [e for e in st.ghost["ev"].e if e[0] not in ("look", "err", "refuse")]


def taken(ev):
    return [e[1] for e in ev if e[0] == "take"]


def outs(ev):
    return [e[1] for e in ev if e[0] == "out"]


def calls(ev):
    return [e for e in ev if e[0] == "call"]


def bad(st):
    """a request or a callee failed"""
    return any(e[0] == "err" for e in st.ghost["ev"].e) or any(e[3] == "error" for e in calls(events(st)))


def is_out(c, st, o, w, what):
    """the appended token is w: a token taken, or (is it an identifier, text)"""
    if isinstance(w, Tok):
        c.ensure(st, isinstance(o, Tok) and o.same(w), what)
        return
    if isinstance(o, Tok):
        c.ensure(st, And(o.says(w[1]), Iff(o.kind(IDENT), w[0])), what)
        return
    c.ensure(st, Iff(eqv(o[0], IDENT, 32), w[0]), what + " (kind)")
    c.holds_str(st, o[1], lit(w[1].encode()), what)


def appended(c, st, want, what="appended"):
    got = outs(events(st))
    c.ensure(st, len(got) == len(want), "as many tokens are %s as the construct keeps" % what)
    if len(got) == len(want):
        for g, w in zip(got, want):
            is_out(c, st, g, w, "the tokens the construct keeps are %s, in order" % what)


def shape(c, st, ok, what):
    c.ensure(st, bool(ok), what)
    return bool(ok)


def direct(c, st, p):
    """of a function that calls no other: the flag that asks for a fresh start is used up by the first token appended, and else stays"""
    if not calls(events(st)):
        c.ensure(st, eqv(c.get(p.add(RESET), 1, st=st), 0 if outs(events(st)) else c.entry[2], 8), "a fresh start stays asked for until something is appended")
        c.holds_str(st, getstr(c.eng, st, p.add(OUT)), c.entry[0], "the name is only appended to")


def results(c, name, p, args=()):
    for o in c.normal(c.run(PR + name + r"\(", [p] + list(args))):
        for s, v in answers(c, o.st, o.val):
            yield s, v


def fn(name, title, secs=240):
    def deco(f):
        @spec("P02", "%s: %s" % (name, title), T, secs=secs)
        def _(c):
            x, t, p = setup(c)
            # a function pointer is only parsed where the lookahead found one (P01: an obligation of its callers)
            methods(c, x, except_=(name,), fp=name == "parse_function_pointer")
            f(c, x, t, p)
        return f
    return deco


def not_at_hand(c, s, x, t, cond, what):
    has, h = hand(c, s, x, t.p)
    c.ensure(s, Not(And(has, cond(h))), what)


# ------------------------------------------------------------------ constructs that keep what they take
@fn("accept_anonymous_namespace", "an anonymous namespace is kept, in one spelling")
def _(c, x, t, p):
    for s, v in results(c, "accept_anonymous_namespace", p):
        tk = taken(events(s))
        direct(c, s, p)
        if v is True:
            if shape(c, s, len(tk) == 1, "takes one token"):
                c.ensure(s, tk[0].kind(ANON), "an anonymous namespace")
            appended(c, s, [(True, "(anonymous namespace)")])
            continue
        appended(c, s, [])
        if v is False:
            not_at_hand(c, s, x, t, lambda h: h.kind(ANON), "an anonymous namespace is not passed over")
        else:
            c.ensure(s, bad(s), "fails only where there is no token")


@fn("accept_new_delete", "new, delete and their brackets are kept")
def _(c, x, t, p):
    for s, v in results(c, "accept_new_delete", p):
        tk = taken(events(s))
        direct(c, s, p)
        if v is True:
            if shape(c, s, len(tk) in (1, 3), "takes one token or three"):
                c.ensure(s, tk[0].any(IDENT, "new", "delete"), "the first is new or delete")
                if len(tk) == 3:
                    c.ensure(s, And(tk[1].any(PUNCT, "["), tk[2].any(PUNCT, "]")), "then a pair of brackets")
                else:
                    not_at_hand(c, s, x, t, lambda h: h.any(PUNCT, "["), "brackets behind it are not left")
            appended(c, s, tk)
        elif v is False:
            appended(c, s, [])
            not_at_hand(c, s, x, t, lambda h: h.any(IDENT, "new", "delete"), "new and delete are not passed over")
        else:
            has, h = hand(c, s, x, t.p)
            c.ensure(s, bad(s) or len(tk) == 2 and Not(And(has, h.any(PUNCT, "]"))), "fails only where a bracket is missing")


@fn("accept_special_decltype", "decltype(auto) and decltype(nullptr) are kept")
def _(c, x, t, p):
    want = [(IDENT, ("decltype",)), (PUNCT, ("(",)), (IDENT, ("auto", "nullptr")), (PUNCT, (")",))]
    for s, v in results(c, "accept_special_decltype", p):
        tk = taken(events(s))
        direct(c, s, p)
        if v is True:
            if shape(c, s, len(tk) == 4, "takes four tokens"):
                c.ensure(s, And(*[a.any(k, *w) for a, (k, w) in zip(tk, want)]), "decltype(auto) or decltype(nullptr)")
            appended(c, s, tk)
        elif v is False:
            appended(c, s, [])
            c.ensure(s, len(tk) == 0, "takes nothing")
            not_at_hand(c, s, x, t, lambda h: h.any(IDENT, "decltype"), "decltype is not passed over")
        else:
            has, h = hand(c, s, x, t.p)
            n = len(tk)
            c.ensure(s, bad(s) or Or(n == 3 and Not(tk[2].any(*([want[2][0]] + list(want[2][1])))), 1 <= n <= 3 and Not(And(has, h.any(want[n][0], *want[n][1])))), "fails only for another decltype")


@fn("accept_identifier_token", "an identifier is kept, with the ~ of a destructor")
def _(c, x, t, p):
    for s, v in results(c, "accept_identifier_token", p):
        tk = taken(events(s))
        direct(c, s, p)
        if v is True:
            if shape(c, s, len(tk) in (1, 2), "takes one token or two"):
                c.ensure(s, tk[-1].kind(IDENT), "the last is an identifier")
                if len(tk) == 2:
                    c.ensure(s, tk[0].any(PUNCT, "~"), "the first is ~")
            appended(c, s, tk)
        elif v is False:
            appended(c, s, [])
            c.ensure(s, len(tk) == 0, "takes nothing")
            not_at_hand(c, s, x, t, lambda h: Or(h.kind(IDENT), h.any(PUNCT, "~")), "no identifier is passed over")
        else:
            has, h = hand(c, s, x, t.p)
            c.ensure(s, bad(s) or len(tk) == 1 and And(tk[0].any(PUNCT, "~"), Not(And(has, h.kind(IDENT)))), "fails only for a ~ that is not a destructor's")


CLOSE = {"(": ")", "[": "]"}


def operator_symbol(c, s, x, t, tk, keep):
    """one punctuation token, or a pair of brackets"""
    if not shape(c, s, len(tk) in (1, 2), "the operator is one token or a pair"):
        return
    c.ensure(s, tk[0].kind(PUNCT), "the operator is punctuation")
    if len(tk) == 2:
        c.ensure(s, Or(*[And(tk[0].any(PUNCT, a), tk[1].any(PUNCT, b)) for a, b in CLOSE.items()]), "() or []")
    else:
        c.ensure(s, Not(tk[0].any(PUNCT, *CLOSE)), "() and [] are taken in whole")


@fn("accept_operator", "an operator's name is kept")
def _(c, x, t, p):
    for s, v in results(c, "accept_operator", p, [False]):
        ev = events(s)
        tk = taken(ev)
        has, h = hand(c, s, x, t.p)
        if v is False:
            appended(c, s, [])
            c.ensure(s, len(ev) == 0, "takes nothing")
            not_at_hand(c, s, x, t, lambda h: h.any(IDENT, "operator"), "an operator is not passed over")
            continue
        if v == "error":
            if not bad(s):
                lit2 = len(tk) == 2 and And(tk[1].any(LITERAL, '""'), Not(And(has, h.kind(IDENT))))
                par = Or(len(tk) == 2 and Or(*[And(tk[1].any(PUNCT, a), Not(And(has, h.any(PUNCT, b)))) for a, b in CLOSE.items()]),
                         len(tk) == 3 and Or(*[And(tk[1].any(PUNCT, a), Not(tk[2].any(PUNCT, b))) for a, b in CLOSE.items()]))
                c.ensure(s, Or(lit2, par), "fails only where the operator is not complete")
            continue
        if not shape(c, s, len(ev) >= 2 and ev[0][0] == "take" and ev[1][0] == "out", "operator is taken and appended first"):
            continue
        c.ensure(s, tk[0].any(IDENT, "operator"), "the first token is operator")
        is_out(c, s, ev[1][1], tk[0], "operator is appended")
        rest = ev[2:]
        done = set()
        while rest and rest[0][0] == "call" and rest[0][1] in ("accept_new_delete", "accept_special_decltype") and rest[0][3] is False:
            done.add(rest[0][1])
            rest = rest[1:]
        if len(rest) == 1 and rest[0][0] == "call" and rest[0][1] in ("accept_new_delete", "accept_special_decltype"):
            continue            # matched there
        cs = calls(rest)
        if not cs:
            tk, got = taken(rest), outs(rest)
            c.ensure(s, len(got) == len(tk) and len(tk) in (1, 2), "as many tokens are kept as the operator has")
            if len(got) != len(tk) or len(tk) not in (1, 2):
                continue
            for a, b in zip(got, tk):
                is_out(c, s, a, b, "the operator's tokens are kept, in order")
            if len(tk) == 1:
                c.ensure(s, Or(tk[0].any(IDENT, "co_await"), And(tk[0].kind(PUNCT), Not(tk[0].any(PUNCT, *CLOSE)))), "co_await, or punctuation that is no opening bracket")
            else:
                c.ensure(s, Or(And(tk[0].any(LITERAL, '""'), tk[1].kind(IDENT)), *[And(tk[0].any(PUNCT, a), tk[1].any(PUNCT, b)) for a, b in CLOSE.items()]), "a literal operator, () or []")
            continue
        # a conversion operator
        c.ensure(s, len(done) == 2, "new, delete and decltype are tried before a type")
        ok = shape(c, s, len(rest) == len(cs) and len(cs) in (1, 2) and all(e[1] == "parse_symbol" for e in cs), "nothing but types is parsed, one or two")
        if ok:
            h1, k1 = cs[0][5]
            c.ensure(s, Not(And(h1, Or(k1.kind(PUNCT), k1.any(IDENT, "co_await"), k1.any(LITERAL, '""')))), "what is parsed as a type is no operator")
            if len(cs) == 2:
                h2, k2 = cs[1][5]
                c.ensure(s, And(h2, k2.kind(IDENT)), "a second one starts with an identifier")
            else:
                c.ensure(s, Not(And(has, h.kind(IDENT))), "a member pointer's second type is not left")


@spec("P02", "accept_operator (in a template): an operator's punctuation is taken as a whole, nothing is kept", T, secs=240)
def _(c):
    x, t, p = setup(c)
    methods(c, x, except_=("accept_operator",))
    for o in c.normal(c.run(PR + r"accept_operator\(", [p, True])):
        frame(c, o, p)
        for s, v in answers(c, o.st, o.val):
            ev = events(s)
            tk = taken(ev)
            has, h = hand(c, s, x, t.p)
            c.ensure(s, len(calls(ev)) == 0 and len(outs(ev)) == 0, "only tokens are taken")
            if v is True:
                if shape(c, s, len(tk) in (2, 3), "takes operator and its punctuation"):
                    c.ensure(s, tk[0].any(IDENT, "operator"), "the first token is operator")
                    operator_symbol(c, s, x, t, tk[1:], False)
            elif v is False:
                c.ensure(s, len(tk) < 2, "takes no punctuation")
                c.ensure(s, Not(And(has, h.kind(PUNCT))) if tk else Not(And(has, h.any(IDENT, "operator"))), "no operator is passed over")
            else:
                c.ensure(s, bad(s) or Or(len(tk) == 2 and Or(*[And(tk[1].any(PUNCT, a), Not(And(has, h.any(PUNCT, b)))) for a, b in CLOSE.items()]),
                                         len(tk) == 3 and Or(*[And(tk[1].any(PUNCT, a), Not(tk[2].any(PUNCT, b))) for a, b in CLOSE.items()])), "fails only for an unpaired bracket")


@fn("accept_lambda_or_unnamed", "lambdas and unnamed types are kept in one spelling", secs=400)
def _(c, x, t, p):
    def inner(eng, st, a, ins):
        r, q, n = a
        w = eng.fresh_str(st, "pruned", MAXN)
        note(st, "nested", q, n, w)
        setstr(eng, st, r, w)
    c.contract(D + r"prune_symbol\(", inner, "prune_symbol (of a shorter text)", discharged="prune_symbol")
    c.keep = True
    for s, v in results(c, "accept_lambda_or_unnamed", p):
        ev = events(s)
        tk, cs, ne = taken(ev), calls(ev), [e for e in ev if e[0] == "nested"]
        has, h = hand(c, s, x, t.p)
        if v is False:
            appended(c, s, [])
            c.ensure(s, len(ev) == 0, "takes nothing")
            not_at_hand(c, s, x, t, lambda h: Or(h.any(PUNCT, "{", "<"), And(h.kind(LITERAL), h.ends("'"), Or(h.begins("'lambda"), h.begins("'unnamed"), h.begins("`")))), "none is passed over")
            continue
        if v == "error":
            if not bad(s):
                c.ensure(s, len(tk) > 0 and tk[0].any(PUNCT, "{", "<"), "fails only inside one")
                if len(tk) == 1:
                    c.ensure(s, Not(And(has, Or(And(tk[0].any(PUNCT, "{"), h.any(IDENT, "lambda", "unnamed")), And(tk[0].any(PUNCT, "<"), h.kind(IDENT), h.begins("lambda_"))))), "and not for lambda, unnamed and lambda_")
                elif len(tk) > 1:
                    a, b = tk[0], tk[-1]
                    nx = lambda k, *w: And(has, h.any(k, *w) if w else h.kind(k))
                    c.ensure(s, Not(Or(And(a.any(PUNCT, "{"), Or(And(len(tk) == 2, b.any(IDENT, "unnamed"), nx(IDENT, "type")), And(bool(cs), b.any(PUNCT, "#"), nx(LITERAL)), And(bool(cs), b.kind(IDENT), nx(PUNCT, "#")), And(b.kind(LITERAL), nx(PUNCT, "}")))),
                                       And(a.any(PUNCT, "<"), b.begins("lambda_"), nx(PUNCT, ">")))), "and only where the next token is another")
            continue
        if not shape(c, s, len(tk) > 0, "takes something"):
            continue
        one = len(tk) == 1
        for s2, brace in cases(c, s, tk[0].any(PUNCT, "{")):
            if brace:
                if not shape(c, s2, len(tk) in (5, 6) and len(cs) == 1 and cs[0][1] == "consume_punctuation", "{ name, punctuation, # number }"):
                    continue
                names = tk[1:-3]
                c.ensure(s2, And(*[n.any(IDENT, w) for n, w in zip(names, ("lambda",) if len(names) == 1 else ("unnamed", "type"))]), "lambda, or unnamed type")
                i = [e[1] if e[0] == "take" else e[1] for e in ev]
                c.ensure(s2, sum(e[0] == "take" for e in ev[:ev.index(cs[0])]) == len(tk) - 3, "what is between name and # is punctuation")
                c.ensure(s2, And(tk[-3].any(PUNCT, "#"), tk[-2].kind(LITERAL), tk[-1].any(PUNCT, "}")), "# number }")
                appended(c, s2, [(False, "<")] + names + [tk[-3], tk[-2], (False, ">")])
                continue
            for s3, angle in cases(c, s2, tk[0].any(PUNCT, "<")):
                if angle:
                    if shape(c, s3, len(tk) == 3 and not cs, "< name >"):
                        c.ensure(s3, And(tk[1].kind(IDENT), tk[1].begins("lambda_"), tk[2].any(PUNCT, ">")), "<lambda_...>")
                    appended(c, s3, tk)
                    continue
                if not shape(c, s3, one and not cs, "one token"):
                    continue
                k = tk[0]
                c.ensure(s3, And(k.kind(LITERAL), k.ends("'")), "a quoted one")
                for s4, tick in cases(c, s3, k.begins("`")):
                    got = outs(events(s4))
                    if tick:
                        if not shape(c, s4, len(ne) == 1 and len(got) == 3 and not isinstance(got[1], Tok), "quoted symbols are pruned, and kept in their quotes"):
                            continue
                        _, q, n, w = ne[0]
                        c.ensure(s4, q.obj is x.o and And(eqv(q.off.val(), add(k.q.off.val(), 1)), eqv(n, sub(k.n, 2))), "what is pruned is what the quotes enclose")
                        is_out(c, s4, got[0], (False, "`"), "kept in their quotes")
                        is_out(c, s4, got[2], (False, "'"), "kept in their quotes")
                        c.ensure(s4, Not(eqv(got[1][0], IDENT, 32)), "kept as one piece")
                        c.holds_str(s4, got[1][1], w, "the pruned symbol is kept")
                        continue
                    c.ensure(s4, Or(k.begins("'lambda"), k.begins("'unnamed")), "a lambda or an unnamed type")
                    if not shape(c, s4, len(got) == 3 and isinstance(got[1], Tok) and not ne, "kept in angle brackets"):
                        continue
                    is_out(c, s4, got[0], (False, "<"), "kept in angle brackets")
                    is_out(c, s4, got[2], (False, ">"), "kept in angle brackets")
                    g = got[1]
                    c.ensure(s4, And(eqv(g.q.off.val(), add(k.q.off.val(), 1)), eqv(g.n, sub(k.n, 2)), Not(g.kind(IDENT))), "without its quotes")


# ------------------------------------------------------------------ what is dropped
@fn("accept_ignored_identifier", "const, volatile, decltype and noexcept are dropped")
def _(c, x, t, p):
    ws = ("const", "volatile", "decltype", "noexcept")
    for o in c.normal(c.run(PR + r"accept_ignored_identifier\(", [p])):
        frame(c, o, p)
        for s, v in answers(c, o.st, o.val):
            ev = events(s)
            tk = taken(ev)
            c.ensure(s, len(tk) == len(ev) == (1 if v is True else 0), "takes one token or none")
            if v is True and len(tk) == 1:
                c.ensure(s, tk[0].any(IDENT, *ws), "one of these")
            elif v is False:
                not_at_hand(c, s, x, t, lambda h: h.any(IDENT, *ws), "none is passed over")
            elif v == "error":
                c.ensure(s, bad(s), "fails only where there is no token")


@fn("accept_pointer_ref", "all of *, & and && are taken, and kept where asked for")
def _(c, x, t, p):
    ap = c.bool("append")

    def tmpl(e, entry, mods, steps, cx):
        return [("not appending leaves the fresh start", lambda st: Implies(Not(truth(ap)), eqv(c.get(p.add(RESET), 1, st=st), c.entry[2], 8)))]
    c.eng.loop_templates.append(tmpl)

    def rounds(s):
        """pieces taken, each appended if asked for, nothing else"""
        ev = events(s)
        tk, got = taken(ev), outs(ev)
        c.ensure(s, len(calls(ev)) == 0 and len(got) in (0, len(tk)), "tokens are taken and appended")
        for k in tk:
            c.ensure(s, k.any(PUNCT, "*", "&", "&&"), "only *, & and &&")
        if tk:
            c.ensure(s, Iff(truth(ap), len(got) == len(tk)), "kept exactly where asked for")
        if len(got) == len(tk):
            for a, b in zip(got, tk):
                is_out(c, s, a, b, "kept as they are, in order")

    def one(eng, head, back, ctx):
        rounds(back)
    c.eng.loop_steps.append(one)
    for o in c.normal(c.run(PR + r"accept_pointer_ref\(", [p, ap])):
        for s0, keep in cases(c, o.st, truth(ap)):
            if not keep:
                c.holds_str(s0, getstr(c.eng, s0, p.add(OUT)), c.entry[0], "the name so far is left as it is")
                c.ensure(s0, eqv(c.get(p.add(RESET), 1, st=s0), c.entry[2], 8), "a fresh start stays asked for")
            for s, v in answers(c, s0, o.val):
                rounds(s)
                if v == "error":
                    c.ensure(s, bad(s), "fails only where there is no token")
                else:
                    not_at_hand(c, s, x, t, lambda h: h.any(PUNCT, "*", "&", "&&"), "none is left")


@fn("accept_balanced_punctuation", "brackets are dropped with what they enclose")
def _(c, x, t, p):
    B = ("(", "[", "{", "<")
    for o in c.normal(c.run(PR + r"accept_balanced_punctuation\(", [p])):
        frame(c, o, p)
        for s, v in answers(c, o.st, o.val):
            ev = events(s)
            tk, cs = taken(ev), calls(ev)
            if v is True:
                if shape(c, s, len(ev) == 2 and ev[0][0] == "take" and ev[1][0] == "call" and ev[1][1] == "consume_balanced", "a bracket, and up to the one that closes it"):
                    c.ensure(s, tk[0].any(PUNCT, *B), "an opening bracket")
                    c.holds_str(s, cs[0][2][0], models.str_from_mem(c.eng, s, tk[0].q, tk[0].n), "that closes this bracket")
            elif v is False:
                c.ensure(s, len(ev) == 0, "takes nothing")
                not_at_hand(c, s, x, t, lambda h: h.any(PUNCT, *B), "no bracket is passed over")
            else:
                c.ensure(s, bad(s), "fails only where there is no token")


@fn("consume_punctuation", "punctuation up to :: or # is dropped, brackets with what they enclose")
def _(c, x, t, p):
    ok = lambda k: And(k.kind(PUNCT), Not(k.any(PUNCT, "::", "#")))

    def rounds(s):
        ev = events(s)
        for i, e in enumerate(ev):
            if e[0] == "take":
                c.ensure(s, ok(e[1]), "only punctuation other than :: and #")
                c.ensure(s, i > 0 and ev[i - 1][0] == "call" and ev[i - 1][3] is False, "brackets are taken as a whole")
            else:
                if shape(c, s, e[0] == "call" and e[1] == "accept_balanced_punctuation", "only tokens and brackets are taken"):
                    c.ensure(s, And(e[5][0], ok(e[5][1])), "only where there is punctuation")

    def one(eng, head, back, ctx):
        rounds(back)
    c.eng.loop_steps.append(one)
    for o in c.normal(c.run(PR + r"consume_punctuation\(", [p])):
        frame(c, o, p)
        for s, v in answers(c, o.st, o.val):
            rounds(s)
            if v == "error":
                c.ensure(s, bad(s), "fails only where there is no token")
            else:
                not_at_hand(c, s, x, t, ok, "none is left")


@fn("consume_punctuation_and_trailing_modifiers", "brackets, qualifiers and pointers are dropped until there are no more, up to a function pointer")
def _(c, x, t, p):
    NAMES = ("accept_balanced_punctuation", "accept_ignored_identifier", "accept_pointer_ref")

    def rounds(s, end):
        ev = [e for e in s.ghost["ev"].e if e[0] != "err"]
        tried, fp = set(), None
        for e in ev:
            if e[0] == "look":
                fp = e[1]
                continue
            if not shape(c, s, e[0] == "call" and e[1] in NAMES, "only these are tried"):
                return
            if e[1] == "accept_pointer_ref":
                c.ensure(s, isc(e[2][0]) and not yes(e[2][0]), "pointers behind brackets are dropped")
            if e[1] == "accept_balanced_punctuation":
                c.ensure(s, fp is False, "a function pointer's parenthesis is not dropped")
            if e[3] is False:
                tried.add(e[1])
            else:
                tried, fp = set(), None
        if end:
            has, h = hand(c, s, x, t.p)
            c.ensure(s, Or(Not(has), fp is True, len(tried) == 3), "stops only where none is left")
        return tried

    def one(eng, head, back, ctx):
        rounds(back, False)
    c.eng.loop_steps.append(one)
    for o in c.normal(c.run(PR + r"consume_punctuation_and_trailing_modifiers\(", [p])):
        frame(c, o, p)
        for s, v in answers(c, o.st, o.val):
            rounds(s, v != "error")
            if v == "error":
                c.ensure(s, bad(s), "fails only where something inside does")


# ------------------------------------------------------------------ symbols
@fn("parse_symbol_term", "the alternatives are tried, operators before identifiers")
def _(c, x, t, p):
    ALT = ("accept_anonymous_namespace", "accept_operator", "accept_identifier_token", "accept_lambda_or_unnamed")
    for s, v in results(c, "parse_symbol_term", p):
        ev = events(s)
        if not shape(c, s, all(e[0] == "call" and e[1] in ALT for e in ev), "only these are tried"):
            continue
        names = [e[1] for e in ev]
        for i, e in enumerate(ev):
            if e[1] == "accept_identifier_token":
                c.ensure(s, "accept_operator" in names[:i], "operators are tried before identifiers")
            if e[1] == "accept_operator":
                c.ensure(s, isc(e[2][0]) and not yes(e[2][0]), "an operator's name is kept")
            c.ensure(s, e[3] is False or i == len(ev) - 1, "nothing is tried behind a match")
        if v is False:
            c.ensure(s, set(names) == set(ALT), "all are tried")
        else:
            c.ensure(s, bool(ev) and ev[-1][3] == v, "the answer is that of the last one tried")


def ptr_kept(e):
    return e[0] == "call" and e[1] == "accept_pointer_ref" and yes(e[2][0])


@fn("parse_symbol", "terms joined by ::, their pointers kept and the rest of them dropped")
def _(c, x, t, p):
    def rounds(s, end):
        """the rounds of an automaton over what was done; the last may be incomplete"""
        ev = [e for e in s.ghost["ev"].e if e[0] != "err"]
        i = 0

        def at(k):
            return ev[k] if k < len(ev) else None
        while i < len(ev):
            matched = False
            e = at(i)
            if not shape(c, s, e[0] == "call" and e[1] == "parse_symbol_term", "a term first"):
                return "broken"
            if e[3] == "error":
                return "error"
            matched = e[3]
            i += 1
            while at(i) and at(i)[0] == "look":
                lk = at(i)[1]
                i += 1
                f = at(i)
                if lk:
                    if not shape(c, s, f and f[0] == "call" and f[1] == "parse_function_pointer", "a function pointer is parsed where there is one"):
                        return "broken"
                    if f[3] == "error":
                        return "error"
                    matched = matched or f[3]
                    i += 1
            if not matched:
                c.ensure(s, i == len(ev), "stops where there is no term")
                return "no term"
            f = at(i)
            if f is None:
                return "cut"
            if not shape(c, s, ptr_kept(f), "pointers directly behind a term are kept"):
                return "broken"
            if f[3] == "error":
                return "error"
            i += 1
            f = at(i)
            if f is None:
                return "cut"
            if not shape(c, s, f[0] == "call" and f[1] == "consume_punctuation_and_trailing_modifiers", "then arguments and qualifiers are dropped"):
                return "broken"
            if f[3] == "error":
                return "error"
            i += 1
            f = at(i)
            if f is None:
                return "no scope"
            ok = shape(c, s, f[0] == "take", "then a ::")
            if not ok:
                return "broken"
            c.ensure(s, f[1].any(PUNCT, "::"), "then a ::")
            g = at(i + 1)
            if not shape(c, s, g and g[0] == "out", ":: is kept"):
                return "broken"
            is_out(c, s, g[1], f[1], ":: is kept")
            i += 2
            f = at(i)
            if f and f[0] == "take":
                c.ensure(s, f[1].any(PUNCT, "*"), "a member pointer's *")
                g = at(i + 1)
                if not shape(c, s, g and g[0] == "out", "a member pointer's * is kept"):
                    return "broken"
                is_out(c, s, g[1], f[1], "a member pointer's * is kept")
                i += 2
            elif f is None and not bad(s):
                not_at_hand(c, s, x, t, lambda h: h.any(PUNCT, "*"), "a member pointer's * is not left")
        return "round"

    def one(eng, head, back, ctx):
        c.ensure(back, rounds(back, False) == "round", "another round only behind a ::")
    c.eng.loop_steps.append(one)
    for s, v in results(c, "parse_symbol", p):
        r = rounds(s, True)
        if v == "error":
            c.ensure(s, bad(s), "fails only where something inside does")
            continue
        has, h = hand(c, s, x, t.p)
        c.ensure(s, r in ("round", "no term", "no scope"), "stops only between terms")
        if r == "no scope":
            c.ensure(s, Not(And(has, h.any(PUNCT, "::"))), "no :: is left")
        elif r == "round":
            c.ensure(s, Not(has), "stops behind a :: only at the end")


@fn("parse_function_pointer", "the name of a function that returns a function pointer is the one inside")
def _(c, x, t, p):
    JUNK = ("*", "&", "&&")
    CC = ("__cdecl", "__clrcall", "__stdcall", "__fastcall", "__thiscall", "__vectorcall", "const", "volatile", "decltype", "noexcept")
    junk = lambda k: Or(k.any(PUNCT, *JUNK), k.any(IDENT, *CC))

    def one(eng, head, back, ctx):
        for e in events(back):
            if shape(c, back, e[0] == "take", "only tokens are taken"):
                c.ensure(back, junk(e[1]), "only pointers, qualifiers and calling conventions are dropped")
    c.eng.loop_steps.append(one)
    for s, v in results(c, "parse_function_pointer", p):
        ev = events(s)
        cs = calls(ev)
        c.ensure(s, len(outs(ev)) == 0, "appends nothing itself")
        if v == "error":
            continue
        if v is False:
            not_at_hand(c, s, x, t, lambda h: h.any(PUNCT, "("), "no parenthesis is passed over")
            continue
        if not shape(c, s, len(cs) == 1 and cs[0][1] == "parse_symbol" and cs[0][3] is True, "one symbol inside"):
            continue
        c.ensure(s, eqv(cs[0][4], 1, 8), "the name starts afresh with it")
        i = ev.index(cs[0])
        c.ensure(s, Not(And(cs[0][5][0], junk(cs[0][5][1]))), "behind all of the pointers")
        if shape(c, s, len(ev) == i + 2 and ev[-1][0] == "take", "then the closing parenthesis"):
            c.ensure(s, ev[-1][1].any(PUNCT, ")"), "then the closing parenthesis")


@fn("parse", "the last symbol of the text is the name")
def _(c, x, t, p):
    def rounds(s):
        ev = events(s)
        for i, e in enumerate(ev):
            if shape(c, s, e[0] == "call" and e[1] == "parse_symbol", "only symbols are parsed"):
                c.ensure(s, eqv(e[4], 1, 8), "each starts the name afresh")
                c.ensure(s, e[3] is True or i == len(ev) - 1, "nothing is parsed behind what can't be")

    def one(eng, head, back, ctx):
        rounds(back)
    c.eng.loop_steps.append(one)
    for o in c.normal(c.run(PR + r"parse\(\)", [p])):
        rounds(o.st)
        for s, err in cases(c, o.st, Not(eqv(c.get(o.val.add(4), 4, st=o.st), 0, 32))):
            ev = events(s)
            if err:
                c.ensure(s, bad(s) or bool(ev) and ev[-1][3] is False, "fails only where there is no symbol")
            else:
                c.ensure(s, all(e[3] is True for e in ev), "every symbol was parsed")


@spec("P02", "append_output: a fresh start, or a blank between identifiers; then the token", T)
def _(c):
    initialised(c)
    x = Text(c)
    t = tokenizer(c, x)
    p = parser(c, x, t)
    s, last, reset = getstr(c.eng, c.st, p.add(OUT)), c.get(p.add(LAST), 1), c.get(p.add(RESET), 1)
    w = c.str("token's text", MAXN)
    wo = c.eng.bytes_obj(c.st, "token's text", w, nul=False)
    k = c.raw("token", 24)
    ty = c.int("type", 32)
    c.put(k, 4, ty)
    c.put(k.add(8), 8, Ptr(wo))
    c.put(k.add(16), 8, w.len)
    for o in c.normal(c.run(PR + r"append_output\(", [p, k])):
        c.ensure(o, And(eqv(c.get(p.add(RESET), 1, st=o.st), 0, 8), Iff(truth(c.get(p.add(LAST), 1, st=o.st)), eqv(ty, IDENT, 32))), "remembers an identifier; the fresh start is used up")
        for st, fresh in cases(c, o.st, truth(reset)):
            for st2, blank in cases(c, st, And(truth(last), eqv(ty, IDENT, 32))):
                base = Str() if fresh else s.cat(lit(b" ")) if blank else s
                c.holds_str(st2, getstr(c.eng, st2, p.add(OUT)), base.cat(w), "the name is what it was, a blank where due, and the token")


for B in "([{<":
    @spec("P02", "consume_balanced (%s): everything is dropped up to the bracket that closes this one" % B, T, secs=400)
    def _(c, B=B):
        tmp = B == "<"
        shut = {"(": ")", "[": "]", "{": "}", "<": ">"}[B]
        other = [b for b in "([{<" if b != B]

        def advance(eng, st, a, ins):
            r, tk, tm = a
            d = st.ghost["depth"]
            eng.oblige(st, "nothing behind the closing bracket is taken", Not(eqv(d, 0)))
            eng.oblige(st, ">> is taken apart exactly in template arguments", Iff(truth(tm), tmp))
            x = t_x[0]
            out = take(c, eng, st, x, tk, tm)
            if out == "error":
                note(st, "err")
            elif out is not None:
                k = Tok(x, *out)
                note(st, "take", k)
                st.ghost["depth"] = simp(z3.If(bl(k.any(PUNCT, B)), d + 1, z3.If(bl(k.any(PUNCT, shut)), d - 1, d)))
            give(c, eng, st, r, out)
        bl = lambda v: z3.BoolVal(v) if isinstance(v, bool) else v
        x, t, p = setup(c, adv=advance)
        t_x = [x]
        methods(c, x)
        c.st.ghost["depth"] = z3.BitVecVal(1, 64)

        def tmpl(e, entry, mods, steps, cx):
            r = []
            up = lambda st: sub(c.getp(t.p.add(SRC), st).off.val(), t.pos)
            r.append(("the depth is at most what was used up", lambda st: ule(st.ghost["depth"], add(up(st), 1))))
            for o in entry.top().allocas:
                d = getattr(entry.mem.get(o.id), "d", None)
                if d and o.size in (4, 8) and 0 in d and (z3.is_expr(d[0][1]) or isc(d[0][1])):
                    r.append(("%s is the depth" % o.name.split("!")[0], lambda st, o=o: eqv(st.mem[o.id].d[0][1], simp(z3.Extract(8 * o.size - 1, 0, st.ghost["depth"])), 8 * o.size)))
            return r
        c.eng.loop_templates.append(tmpl)

        def rounds(s):
            ev = events(s)
            for i, e in enumerate(ev):
                if e[0] == "take":
                    nxt = ev[i + 1] if i + 1 < len(ev) else None
                    if tmp:
                        c.ensure(s, i > 0 and ev[i - 1][0] == "call" and ev[i - 1][1] == "accept_operator" and ev[i - 1][3] is False, "operators in template arguments are tried first")
                    if nxt is not None and nxt[0] == "call" and nxt[1] == "consume_balanced":
                        c.ensure(s, tmp and e[1].any(PUNCT, *other), "other brackets in template arguments")
                        c.holds_str(s, nxt[2][0], models.str_from_mem(c.eng, s, e[1].q, e[1].n), "are closed by their own kind")
                    elif tmp:
                        c.ensure(s, Not(e[1].any(PUNCT, *other)), "other brackets in template arguments are taken in whole")
                elif shape(c, s, e[0] == "call" and e[1] in ("accept_operator", "consume_balanced") and tmp, "only tokens, and in template arguments operators and brackets"):
                    if e[1] == "accept_operator":
                        c.ensure(s, yes(e[2][0]), "operators in template arguments are not kept")
                    else:
                        c.ensure(s, i > 0 and ev[i - 1][0] == "take", "a bracket was taken")

        def one(eng, head, back, ctx):
            rounds(back)
        c.eng.loop_steps.append(one)
        for o in c.normal(c.run(PR + r"consume_balanced\(", [p] + c.sv("bracket", s=lit(B.encode()))[0])):
            frame(c, o, p)
            for s, v in answers(c, o.st, o.val):
                rounds(s)
                if v == "error":
                    c.ensure(s, bad(s), "fails only where there is no token")
                    continue
                c.ensure(s, v is True, "brackets that are not closed are dropped too")
                has, h = hand(c, s, x, t.p)
                pos = c.getp(t.p.add(SRC), s).off.val()
                c.ensure(s, Or(eqv(s.ghost["depth"], 0), And(Not(has), eqv(pos, x.n))), "stops behind the closing bracket, or at the end")


@spec("P02", "lookahead_is_function_pointer: a parenthesis, calling conventions, and a pointer", T)
def _(c):
    x, t, p = setup(c, fine=True)
    CC = WORDS["is_microsoft_calling_convention"]
    PT = ("*", "&", "&&")

    def copy(eng, st, a, ins):
        q, r = a
        place(c, st, x, q, c.getp(r.add(SRC), st).off.val())
        for o, w in ((THAS, 1), (TTYPE, 4), (TLEN, 8)):
            eng.put(st, q.add(o), w, c.get(r.add(o), w, st=st))
        eng.put(st, q.add(TPTR), 8, c.getp(r.add(TPTR), st))
        made.append(q)
    made = []
    c.contract(TK + r"symbol_tokenizer\(cpptrace::v1::detail::symbol_tokenizer const&\)", copy, "copying a tokenizer", discharged="copying a tokenizer")

    def tmpl(e, entry, mods, steps, cx):
        def inv(st):
            z = made[-1]
            q = c.getp(z.add(SRC), st)
            if not isinstance(q, Ptr) or q.obj is not x.o:
                return False
            return And(ule(t.pos, q.off.val()), ule(q.off.val(), x.n), eqv(c.get(z.add(CNT), 8, st=st), sub(x.n, q.off.val())),
                       Implies(truth(c.get(z.add(THAS), 1, st=st)), good(c, st, x, z)))
        return [("the copy is in order", inv)]
    c.eng.loop_templates.append(tmpl)
    took = lambda st: st.ghost["ev"].e

    def one(eng, head, back, ctx):
        ev = back.ghost["ev"].e
        c.ensure(back, all(e[0] == "take" for e in ev) and And(*[e[1].any(IDENT, *CC) for e in ev if e[0] == "take"]), "only calling conventions are passed over")
    c.eng.loop_steps.append(one)
    for o in c.normal(c.run(PR + r"lookahead_is_function_pointer\(", [p])):
        ev = o.st.ghost["ev"].e
        tk = taken(ev)
        failed = any(e[0] == "err" for e in ev)
        for s, v in cases(c, o.st, truth(o.val)):
            if v:
                if shape(c, s, len(tk) > 0 and not failed, "a token was looked at"):
                    c.ensure(s, tk[-1].any(PUNCT, *PT), "a pointer")
            elif not failed and shape(c, s, len(ev) > 0, "something was looked at"):
                if ev[-1][0] == "refuse":
                    if ev[-1][1] is not None:
                        c.ensure(s, Not(ev[-1][1].any(PUNCT, "(")), "no parenthesis is passed over")
                else:
                    c.ensure(s, Not(Or(tk[-1].any(PUNCT, *PT), tk[-1].any(IDENT, *CC))), "stops at what is neither")


# ------------------------------------------------------------------ tokens
hexd = lambda ch: Or(digit(ch), rng(ch, 65, 70), rng(ch, 97, 102))
for NAME, DEF in (("is_identifier_start", istart), ("is_identifier_continue", icont), ("is_hex_digit", hexd), ("is_octal_digit", lambda ch: rng(ch, 48, 55))):
    @spec("P02", NAME + ": exactly these characters", T)
    def _(c, NAME=NAME, DEF=DEF):
        initialised(c)
        ch = c.int("character", 8)
        c.st.assume(ule(ch, 127, 8))
        for o in c.normal(c.run(D + NAME + r"\(", [ch])):
            c.ensure(o, Iff(truth(o.val), DEF(ch)), "exactly these")


def run_of(c, x, t, part, what):
    """a loop over the text that has passed only characters of a kind; k is any of them"""
    k = c.int("any place")

    def tmpl(e, entry, mods, steps, cx):
        r = []
        for o in entry.top().allocas:
            d = getattr(entry.mem.get(o.id), "d", None)
            if d and o.size == 8 and 0 in d and isinstance(d[0][1], Ptr) and d[0][1].obj is x.o:
                def inv(st, o=o):
                    q = st.mem[o.id].d[0][1]
                    if not isinstance(q, Ptr) or q.obj is not x.o:
                        return False
                    m = sub(q.off.val(), t.pos)
                    return And(ule(t.pos, q.off.val()), ule(q.off.val(), x.n), Implies(ult(k, m), part(x.ch(add(t.pos, k)))))
                r.append(("%s: %s up to here" % (o.name.split("!")[0], what), inv))
        return r
    c.eng.loop_templates.append(tmpl)
    return k


ANONS = ("(anonymous namespace)", "`anonymous namespace'")
OPS = ("{ } [ ] ( ) <: :> <% %> ; : ... ? :: . .* -> ->* ~ ! + - * / % ^ & | = += -= *= /= %= ^= &= |= == != < > <= >= <=> && || << >> <<= >>= ++ -- , #").split()


def at(x, pos, w):
    """the text reads w at pos"""
    w = w.encode()
    return And(ule(len(w), sub(x.n, pos)), *[eqv(x.ch(add(pos, i)), w[i], 8) for i in range(len(w))])


def piece_of(c, name, ty, args=()):
    """runs one of the token functions on a tokenizer anywhere in the text: (state, 'error' | None | length)"""
    initialised(c)
    x = Text(c)
    t = tokenizer(c, x, loaded=0)

    def go():
        for o in c.normal(c.run(TK + name + r"\(", [t.p] + list(args))):
            for st, tok in outcome(c, o.st, o.val):
                if tok not in ("error", None):
                    k, q, n = tok
                    c.ensure(st, q.obj is x.o and eqv(q.off.val(), t.pos), "the token starts at the cursor")
                    c.ensure(st, eqv(k, ty, 32), "the token's kind")
                    yield st, n
                else:
                    yield st, tok
    return x, t, go


def run_spec(name, ty, first, part, what, args=()):
    @spec("P02", "%s: all of the %s at the cursor" % (name, what), T, secs=120)
    def _(c):
        x, t, go = piece_of(c, name, ty, args)
        k = run_of(c, x, t, part, what)
        c.eng.by_invariant.append(name)
        left = sub(x.n, t.pos)
        starts = And(ult(0, left), first(x.ch(t.pos)))
        for st, n in go():
            c.ensure(st, not isinstance(n, str), "never fails")
            if n is None:
                c.ensure(st, Not(starts), "none is passed over")
            elif not isinstance(n, str):
                c.ensure(st, starts, "starts like one")
                c.ensure(st, And(ule(1, n), ule(n, left), Implies(ult(k, n), part(x.ch(add(t.pos, k))))), "contains nothing else")
                c.ensure(st, Or(eqv(n, left), Not(part(x.ch(add(t.pos, n))))), "is not cut short")


run_spec("peek_number", LITERAL, digit, num, "digits, letters, quotes, signs and points of a number")
run_spec("peek_identifier", IDENT, istart, icont, "letters, digits, $ and _ of an identifier", (0,))


@spec("P02", "peek_anonymous_namespace: both spellings, and nothing else", T)
def _(c):
    x, t, go = piece_of(c, "peek_anonymous_namespace", ANON)
    for st, n in go():
        c.ensure(st, not isinstance(n, str), "never fails")
        if n is None:
            c.ensure(st, Not(Or(*[at(x, t.pos, w) for w in ANONS])), "none is passed over")
        elif not isinstance(n, str):
            c.ensure(st, Or(*[And(eqv(n, len(w)), at(x, t.pos, w)) for w in ANONS]), "all of it is taken")


@spec("P02", "peek_punctuation: the longest operator or punctuator that the text starts with", T, secs=240)
def _(c):
    x, t, go = piece_of(c, "peek_punctuation", PUNCT, (0,))
    for st, n in go():
        c.ensure(st, not isinstance(n, str), "never fails")
        if n is None:
            c.ensure(st, Not(Or(*[at(x, t.pos, w) for w in OPS])), "none is passed over")
        elif not isinstance(n, str):
            c.ensure(st, Or(*[And(eqv(n, len(w)), at(x, t.pos, w)) for w in OPS]), "it is one of the language's")
            c.ensure(st, And(*[Implies(at(x, t.pos, w), ule(len(w), n)) for w in OPS if len(w) > 1]), "there is no longer one")


@spec("P02", "peek_misc: one character", T)
def _(c):
    initialised(c)
    x = Text(c)
    t = tokenizer(c, x, loaded=0)
    c.st.assume(ult(t.pos, x.n))
    for o in c.normal(c.run(TK + r"peek_misc\(", [t.p])):
        if isinstance(o.val, Ptr):
            c.ensure(o, And(eqv(c.get(o.val, 4, st=o.st), PUNCT, 32), c.getp(o.val.add(8), o.st).obj is x.o, eqv(c.getp(o.val.add(8), o.st).off.val(), t.pos), eqv(c.get(o.val.add(16), 8, st=o.st), 1)), "one character, as punctuation")
        else:
            raise Unsupported("a returned value %r" % (o.val,))


ESC = z3.Function("escaped", z3.BitVecSort(64), z3.BoolSort())
DEPTH = z3.Function("quotes open", z3.BitVecSort(64), z3.BitVecSort(64))
bl = lambda v: z3.BoolVal(v) if isinstance(v, bool) else v


@spec("P02", "parse_quoted_string: up to the first closing quote that is not escaped", T, secs=240)
def _(c):
    x, t, go = piece_of(c, "parse_quoted_string", LITERAL)
    left = sub(x.n, t.pos)
    quote = x.ch(t.pos)
    k = c.int("any place")
    place_ = lambda i: x.ch(add(t.pos, i))

    def define(st, i):
        """escaped(1) is false; escaped(i+1): i is a backslash that is not itself escaped"""
        st.assume(Not(ESC(bv(1, 64))))
        st.assume(Implies(And(ule(1, i), ult(i, left)), ESC(bv(add(i, 1), 64)) == bl(And(Not(ESC(bv(i, 64))), eqv(place_(i), 0x5c, 8)))))

    def tmpl(e, entry, mods, steps, cx):
        r = []
        for o in entry.top().allocas:
            d = getattr(entry.mem.get(o.id), "d", None)
            if d and o.size == 8 and 0 in d and isinstance(d[0][1], Ptr) and d[0][1].obj is x.o:
                def inv(st, o=o):
                    q = st.mem[o.id].d[0][1]
                    if not isinstance(q, Ptr) or q.obj is not x.o:
                        return False
                    i = sub(q.off.val(), t.pos)
                    for j in (i, add(i, 1), sub(i, 1), sub(i, 2)):
                        define(st, j)
                    return And(ule(1, i), ule(i, left), Not(ESC(bv(i, 64))),
                               Implies(And(ule(1, k), ult(k, i)), Or(ESC(bv(k, 64)), Not(eqv(place_(k), quote, 8)))))
                r.append(("%s: no closing quote up to here" % o.name.split("!")[0], inv))
        return r
    c.eng.loop_templates.append(tmpl)
    c.eng.by_invariant.append("parse_quoted_string")
    starts = And(ult(0, left), Or(eqv(quote, ord("'"), 8), eqv(quote, ord('"'), 8)))
    for st, n in go():
        if n is None:
            c.ensure(st, Not(starts), "none is passed over")
            continue
        c.ensure(st, starts, "starts with a quote")
        if isinstance(n, str):
            # not closed: no place in it is an unescaped quote
            define(st, k)
            define(st, sub(left, 1))
            define(st, sub(k, 1))
            c.ensure(st, Implies(And(ule(1, k), ult(k, left)), Or(ESC(bv(k, 64)), Not(eqv(place_(k), quote, 8)))), "fails only where it is not closed")
            continue
        e = sub(n, 1)
        c.ensure(st, And(ule(2, n), ule(n, left), eqv(place_(e), quote, 8), Not(ESC(bv(e, 64)))), "ends with the quote it starts with, which is not escaped")
        c.ensure(st, Implies(And(ule(1, k), ult(k, e)), Or(ESC(bv(k, 64)), Not(eqv(place_(k), quote, 8)))), "the first such quote")


@spec("P02", "peek_msvc_string: up to the quote that closes the first one", T, secs=240)
def _(c):
    x, t, go = piece_of(c, "peek_msvc_string", LITERAL)
    left = sub(x.n, t.pos)
    k = c.int("any place")
    place_ = lambda i: x.ch(add(t.pos, i))

    def define(st, i):
        """open(0) is 0; open(i+1): one more behind `, one less behind '"""
        st.assume(DEPTH(bv(0, 64)) == 0)
        ch = place_(i)
        dd = DEPTH(bv(i, 64))
        st.assume(Implies(ult(i, left), DEPTH(bv(add(i, 1), 64)) == z3.If(bl(eqv(ch, ord("`"), 8)), dd + 1, z3.If(bl(eqv(ch, ord("'"), 8)), dd - 1, dd))))

    def tmpl(e, entry, mods, steps, cx):
        ptrs, ints = [], []
        for o in entry.top().allocas:
            d = getattr(entry.mem.get(o.id), "d", None)
            if d and 0 in d and o.size == 8 and isinstance(d[0][1], Ptr) and d[0][1].obj is x.o:
                ptrs.append(o)
            elif d and 0 in d and o.size in (4, 8) and not isinstance(d[0][1], Ptr) and (z3.is_expr(d[0][1]) or isc(d[0][1])):
                ints.append(o)
        r = []
        for o in ptrs:
            def place_of(st, o=o):
                q = st.mem[o.id].d[0][1]
                return sub(q.off.val(), t.pos) if isinstance(q, Ptr) and q.obj is x.o else None

            def inv(st, f=place_of):
                i = f(st)
                if i is None:
                    return False
                for j in (i, sub(i, 1)):
                    define(st, j)
                return And(ult(i, left), ule(DEPTH(bv(i, 64)), i), Implies(ule(1, i), Not(DEPTH(bv(i, 64)) == 0)), Implies(And(ule(1, k), ule(k, i)), Not(DEPTH(bv(k, 64)) == 0)))
            r.append(("%s: not closed up to here" % o.name.split("!")[0], inv))
            for n in ints:
                r.append(("%s: quotes open at %s" % (n.name.split("!")[0], o.name.split("!")[0]),
                          lambda st, n=n, f=place_of: f(st) is not None and eqv(st.mem[n.id].d[0][1], simp(z3.Extract(8 * n.size - 1, 0, DEPTH(bv(f(st), 64)))), 8 * n.size)))
        return r
    c.eng.loop_templates.append(tmpl)
    c.eng.by_invariant.append("peek_msvc_string")
    starts = And(ult(0, left), eqv(x.ch(t.pos), ord("`"), 8))
    for st, n in go():
        if n is None:
            c.ensure(st, Not(starts), "none is passed over")
            continue
        c.ensure(st, starts, "starts with a backquote")
        if isinstance(n, str):
            define(st, sub(left, 1))
            c.ensure(st, Implies(And(ule(1, k), ule(k, left)), Not(DEPTH(bv(k, 64)) == 0)), "fails only where it is not closed")
            continue
        define(st, sub(n, 1))
        c.ensure(st, And(ule(1, n), ule(n, left), DEPTH(bv(n, 64)) == 0), "ends where the first quote is closed")
        c.ensure(st, Implies(And(ule(1, k), ult(k, n)), Not(DEPTH(bv(k, 64)) == 0)), "the first such place")


# ------------------------------------------------------------------ which token
@spec("P02", "maybe_load_next_token: blanks are skipped, and the token is the one that starts there", T, secs=120)
def _(c):
    initialised(c)
    x = Text(c)
    t = tokenizer(c, x)
    k = c.int("any place")
    punct = lambda ch: Or(*[eqv(ch, ord(w), 8) for w in OPS if len(w) == 1])
    spelled = lambda pos: Or(*[at(x, pos, w) for w in ANONS])
    is_ = lambda pos, w: And(ult(pos, x.n), eqv(x.ch(pos), ord(w), 8))
    # when each of the token functions finds a token (their contracts above; every operator's first character is one itself)
    START = {"peek_anonymous_namespace": (ANON, spelled), "peek_number": (LITERAL, lambda q: And(ult(q, x.n), digit(x.ch(q)))),
             "peek_msvc_string": (LITERAL, lambda q: is_(q, "`")), "parse_quoted_string": (LITERAL, lambda q: Or(is_(q, "'"), is_(q, '"'))),
             "peek_punctuation": (PUNCT, lambda q: And(ult(q, x.n), punct(x.ch(q)))), "peek_identifier": (IDENT, lambda q: And(ult(q, x.n), istart(x.ch(q))))}
    LEN = {n: z3.Function(n + " length", z3.BitVecSort(64), z3.BitVecSort(64)) for n in START}
    FAIL = {n: z3.Function(n + " fails", z3.BitVecSort(64), z3.BoolSort()) for n in ("peek_msvc_string", "parse_quoted_string")}

    def one(name):
        ty, starts = START[name]

        def f(eng, st, a, ins):
            r, tk = a[0], a[1]
            q, n = c.getp(tk.add(SRC), st), c.get(tk.add(CNT), 8, st=st)
            eng.oblige(st, name + ": the cursor is inside the text", And(q.obj is x.o, ule(q.off.val(), x.n), eqv(n, sub(x.n, q.off.val()))))
            if len(a) > 2:
                eng.oblige(st, name + ": looks at the cursor", eqv(a[2], 0))
            pos = q.off.val()
            if not st.decide(starts(pos)):
                give(c, eng, st, r, None)
                return
            if name in FAIL and st.decide(FAIL[name](bv(pos, 64))):
                give(c, eng, st, r, "error")
                return
            m = LEN[name](bv(pos, 64))
            st.assume(And(ule(1, m), ule(m, n)))
            give(c, eng, st, r, (ty, q, m))
        c.contract(TK + name + r"\(", f, name, discharged=name)
    for name in START:
        one(name)
    c.keep = True

    def tmpl(e, entry, mods, steps, cx):
        def inv(st):
            q = c.getp(t.p.add(SRC), st)
            if not isinstance(q, Ptr) or q.obj is not x.o:
                return False
            o = q.off.val()
            return And(ule(t.pos, o), ule(o, x.n), eqv(c.get(t.p.add(CNT), 8, st=st), sub(x.n, o)), Implies(And(ule(t.pos, k), ult(k, o)), space(x.ch(k))))
        return [("only blanks were passed", inv)]
    c.eng.loop_templates.append(tmpl)
    for o in c.normal(c.run(TK + r"maybe_load_next_token\(", [t.p])):
        st = o.st
        q = c.getp(t.p.add(SRC), st)
        if not shape(c, st, q.obj is x.o, "the source is in the text"):
            continue
        pos = q.off.val()
        for s, had in cases(c, st, truth(t.has)):
            if had:
                c.ensure(s, And(eqv(pos, t.pos), same(c, s, t)), "a token at hand stays")
                continue
            c.ensure(s, Implies(And(ule(t.pos, k), ult(k, pos)), space(x.ch(k))), "only blanks are skipped")
            c.ensure(s, Or(eqv(pos, x.n), Not(space(x.ch(pos)))), "all of them")
            has, h = hand(c, s, x, t.p)
            P = bv(pos, 64)
            quoted = [(n, START[n][1](pos)) for n in FAIL]
            for s2, err in cases(c, s, Not(eqv(c.get(o.val.add(4), 4, st=s), 0, 32))):
                if err:
                    c.ensure(s2, And(Not(spelled(pos)), Or(*[And(w, FAIL[n](P)) for n, w in quoted])), "fails only for a quote that is not closed")
                    continue
                for s3, got in cases(c, s2, has):
                    if not got:
                        c.ensure(s3, eqv(pos, x.n), "no token only at the end")
                        continue
                    has, h = hand(c, s3, x, t.p)
                    if not shape(c, s3, h.q.obj is x.o, "the token is in the text"):
                        continue
                    n = "peek_anonymous_namespace"
                    c.ensure(s3, eqv(h.q.off.val(), pos), "the token starts at the cursor")
                    c.ensure(s3, Iff(h.kind(ANON), spelled(pos)), "anonymous namespaces come first")
                    c.ensure(s3, Implies(spelled(pos), h.n == LEN[n](P)), "and are taken in whole")
                    rest = Not(spelled(pos))
                    for n in ("peek_number", "peek_msvc_string", "parse_quoted_string", "peek_identifier", "peek_punctuation"):
                        ty, starts = START[n]
                        c.ensure(s3, Implies(And(rest, starts(pos)), And(h.kind(ty), h.n == LEN[n](P))), "what " + n + " finds is the token")
                    c.ensure(s3, Implies(And(rest, *[Not(f(pos)) for _, f in START.values()]), And(h.kind(PUNCT), eqv(h.n, 1))), "any other character is a token of its own")


@spec("P02", "peek: the token at hand; of >> in template arguments only the first >", T)
def _(c):
    initialised(c)
    x = Text(c)
    t = tokenizer(c, x, loaded=1)
    tm = c.bool("in a template")
    for o in c.normal(c.run(TK + r"peek\(bool\)", [t.p, tm])):
        c.ensure(o, same(c, o.st, t), "the token stays at hand")
        for s, tok in outcome(c, o.st, o.val):
            if not shape(c, s, tok not in ("error", None), "there is a token"):
                continue
            h = Tok(x, t.ty, Ptr(x.o, t.pos), t.n)
            g = Tok(x, *tok)
            c.ensure(s, And(g.q.obj is x.o, eqv(tok[1].off.val(), t.pos), eqv(tok[0], t.ty, 32)), "the one at hand")
            for s2, split in cases(c, s, And(truth(tm), h.any(PUNCT, ">>"))):
                c.ensure(s2, eqv(g.n, 1 if split else t.n), "all of it, or one >")


@spec("P02", "the parser starts with nothing to keep", T)
def _(c):
    initialised(c)
    x = Text(c)
    t = tokenizer(c, x)
    p = c.raw("parser", 48)
    for o in c.normal(c.run(PR + r"symbol_parser\(", [p, t.p])):
        c.ensure(o, c.getp(p, o.st).obj is t.p.obj, "it reads this tokenizer")
        c.holds_str(o, getstr(c.eng, o.st, p.add(OUT)), Str(), "nothing is kept yet")
        c.ensure(o, And(Not(truth(c.get(p.add(LAST), 1, st=o.st))), Not(truth(c.get(p.add(RESET), 1, st=o.st)))), "nothing came before")
