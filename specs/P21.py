"""P21: page protections.

The map file is an arbitrary sequence of n lines, each with arbitrary bounds, permission characters and well-formedness; the
stream extractors, std::vector, std::upper_bound and the lambda's storage are trusted contracts.  load_mapped_region_info keeps
its result in function statics, which the contract starts from in both states."""
from dv.spec import *

T = [TU("platform/memory_mapping.cpp")]
TY = "struct.cpptrace::v1::detail::address_range"
RANGE, SOME = 24, 24       # size of a range; offset of the flag in optional<range> and optional<vector<range>>


class Map:
    """the lines of the map file"""

    def __init__(self, c):
        eng = c.eng
        self.c = c
        self.n = c.int("lines")
        c.st.assume(ult(self.n, 1 << 40))
        f = lambda nm, w: eng.fresh_fn(nm, w)
        self.low, self.high = f("low", 64), f("high", 64)
        self.r, self.w, self.x = f("r", 8), f("w", 8), f("x", 8)
        self.bad = f("malformed", 8)

    def perms(self, i):
        i = bv(i, 64)
        b = lambda ch, l, v: z3.If(ch(i) == ord(l), z3.BitVecVal(v, 32), z3.BitVecVal(0, 32))
        return b(self.r, "r", 1) | b(self.w, "w", 2) | b(self.x, "x", 4)


def ok_bad(m, i):
    return Not(eqv(m.bad(bv(i, 64)), 0, 8))


# ------------------------------------------------------------------ one line
@spec("P21", "reading a map line: its bounds and permissions, the end of the file, or an error", T)
def _(c):
    c.common()
    m = Map(c)
    line = c.int("line")
    c.st.assume(ule(line, m.n))
    stream = c.raw("stream", 520)
    vt = c.raw("vtable", 64)
    c.put(stream, 8, Ptr(vt.obj, 24))
    c.st.ghost.update(field=0, line=line, fail=False, eof=False)
    NUM = {0: m.low, 2: m.high}
    CH = {4: m.r, 5: m.w, 6: m.x}

    def at_end(st):
        g = st.ghost
        if g["field"] == 0 and st.decide(eqv(g["line"], m.n)):
            g["fail"] = g["eof"] = True
            return True
        return False

    def malformed(st):
        # a malformed line fails at one of its fields
        g = st.ghost
        if st.decide(ok_bad(m, g["line"])) and (g["field"] == 6 or st.decide(c.eng.fresh("fails here", 1))):
            g["fail"] = True
            if st.decide(c.eng.fresh("file ends here", 1)):
                # the file ends in the middle of a line; inside the bounds that is the end of the map
                g["eof"] = True
            return True
        return False

    def num(eng, st, a, ins):
        g = st.ghost
        if g["fail"] or at_end(st):
            return a[0]
        eng.oblige(st, "the number is read at a bound of the line", g["field"] in NUM)
        if g["field"] not in NUM:
            raise engine.Infeasible()
        if malformed(st):
            eng.put(st, a[1], 8, 0)
            return a[0]
        eng.put(st, a[1], 8, NUM[g["field"]](bv(g["line"], 64)))
        g["field"] += 1
        return a[0]

    def ch(eng, st, a, ins):
        g = st.ghost
        if g["fail"] or at_end(st):
            return a[0]
        if g["field"] == 3:
            g["field"] = 4    # formatted extraction skips the space by itself
        eng.oblige(st, "the character is read at a permission of the line", g["field"] in CH)
        if g["field"] not in CH:
            raise engine.Infeasible()
        if malformed(st):
            return a[0]
        eng.put(st, a[1], 1, CH[g["field"]](bv(g["line"], 64)))
        g["field"] += 1
        return a[0]

    def ignore1(eng, st, a, ins):
        g = st.ghost
        if not g["fail"]:
            if isc(a[1]) and a[1] == 1:
                g["field"] += 1
            else:
                raise Unsupported("ignore of that many characters")
        return a[0]

    def ignore_line(eng, st, a, ins):
        g = st.ghost
        eng.oblige(st, "the rest of the line is skipped, whatever its length", isc(a[1]) and a[1] == (1 << 63) - 1 and isc(a[2]) and a[2] == 10)
        if not g["fail"]:
            g["line"], g["field"] = (Lin.of(g["line"]) + 1).val(), 0
        return a[0]
    c.model(r"operator>>\(unsigned long&\)$|std::istream::_M_extract<unsigned long>|std::istream& std::istream::_M_extract", num)
    c.model(r"std::operator>><char, std::char_traits<char> ?>\(.*, char&\)$", ch)
    c.model(r"istream.*::ignore\(long\)$", ignore1)
    c.model(r"istream.*::ignore\(long, int\)$", ignore_line)
    c.model(r"basic_ios<.*>::eof\(\) const$", lambda eng, st, a, ins: 1 if st.ghost["eof"] else 0)
    c.model(r"basic_ios<.*>::fail\(\) const$", lambda eng, st, a, ins: 1 if st.ghost["fail"] else 0)
    c.eng.vbase = 0
    for o in c.run(r"detail::read_map_entry\(", [stream]):
        g = o.st.ghost
        if o.kind == "throw":
            c.ensure(o, And(ult(line, m.n), ok_bad(m, line)), "only a malformed line is an error")
            continue
        r = o.val
        flag = c.get(r.add(SOME), 1, st=o.st)
        for st, some in cases(c, o, truth(flag)):
            if not some:
                # a map that ends within a line's bounds ends there
                c.ensure(st, g["eof"], "nothing more only at the end of the file")
                continue
            c.ensure(st, And(ult(line, m.n), Not(ok_bad(m, line))), "a range only for a well-formed line")
            c.ensure(st, eqv(c.get(r, 8, st=st), m.low(bv(line, 64))), "lower bound")
            c.ensure(st, eqv(c.get(r.add(8), 8, st=st), m.high(bv(line, 64))), "upper bound")
            c.ensure(st, eqv(c.get(r.add(16), 4, st=st), m.perms(line), 32), "permissions")
            c.ensure(st, And(g["field"] == 0, eqv(g["line"], (Lin.of(line) + 1).val())), "the stream is left at the next line")


# ------------------------------------------------------------------ the whole map
def entry_contract(c, m):
    def read(eng, st, a, ins):
        i = st.ghost["line"]
        r = a[0]
        if st.decide(ult(i, m.n)):
            if st.decide(ok_bad(m, i)):
                raise engine.Throw("_ZTIN8cpptrace2v16detail14internal_errorE")
            i = bv(i, 64)
            eng.put(st, r, 8, m.low(i))
            eng.put(st, r.add(8), 8, m.high(i))
            eng.put(st, r.add(16), 4, simp(m.perms(i)))
            eng.put(st, r.add(SOME), 1, 1)
            st.ghost["line"] = (Lin.of(i) + 1).val()
        else:
            eng.put(st, r.add(SOME), 1, 0)
    c.contract(r"detail::read_map_entry\(", read, "read_map_entry", discharged="reading a map line")


def vec_of(c, st, p):
    return models.getvec(c.eng, st, p, c.type_like("^" + re.escape(TY) + "$"))


def field(c, st, v, i, off, w=8):
    return c.eng.raw_load(st, Ptr(v.obj, Lin.of(i).scale(RANGE) + off), w, ir.Ty("int", 8 * w))


def elem(c, a, i, off, w):
    return c.eng.arr_byte(a, Lin.of(i).scale(RANGE) + off, w)


@spec("P21", "loading the map: every line in order, ranges that do not overlap, and a tear detected", T, secs=90)
def _(c):
    c.common()
    m = Map(c)
    entry_contract(c, m)
    c.st.ghost["line"] = 0
    pq = c.int("p"), c.int("q")      # two arbitrary entries
    c.st.assume(ult(pq[0], pq[1]))

    def stream(eng, st, a, ins):
        st.ghost["path"] = 1
        name = models.cstr_value(eng, st, a[1]) if hasattr(models, "cstr_value") else None
    c.model(r"^std::basic_ifstream<.*>::basic_ifstream\(char const\*, ", stream)
    c.model(r"^std::basic_ifstream<.*>::~basic_ifstream\(\)$", lambda eng, st, a, ins: None)
    c.model(r"istream.*::operator>>\(std::ios_base& \(\*\)\(std::ios_base&\)\)$", lambda eng, st, a, ins: a[0])
    et = c.type_like("^" + re.escape(TY) + "$")

    def facts(st, n):
        """what is known of the first n lines once they are in the vector"""
        last = (Lin.of(n) - 1).val()
        low, high = m.low, m.high
        L = bv(last, 64)
        return [Forall(lambda k: Implies(ult(k, n), And(ule(low(k), high(k)), ule(high(k), high(L)), Not(ok_bad(m, k)))), {low.name(), high.name(), m.bad.name()}, "so far"),
                Implies(ult(pq[1], n), ule(high(pq[0]), low(pq[1])))]

    def tmpl(eng, entry, mods, steps, ctx):
        r = []
        for md in mods:
            if len(md) == 3 and isinstance(md[1], int):
                x = entry.mem[md[0]].d.get(md[1])
                if x and isinstance(x[1], Vec):
                    get = lambda st, md=md: st.mem[md[0]].d[md[1]][1]
                    r.append(("as many ranges as lines read", lambda st, get=get: eqv(get(st).len, st.ghost["line"])))
                    r.append(("lines read", lambda st: ule(st.ghost["line"], m.n)))

                    def same(st, get=get, off=0, w=8, f=None):
                        v = get(st)
                        a = st.mem[v.obj.id] if v.obj is not None else None
                        if not isinstance(a, engine.Arr):
                            return isc(v.len) and v.len == 0
                        return Forall(lambda k: Implies(ult(k, v.len), eqv(elem(c, a, k, off, w), f(k), 8 * w)), None, "ranges are the lines")
                    for off, w, f in ((0, 8, m.low), (8, 8, m.high), (16, 4, m.perms)):
                        r.append(("ranges are the lines read (%d)" % off, lambda st, same=same, off=off, w=w, f=f: same(st, off=off, w=w, f=f)))
                    r.append(("ordered so far", lambda st: facts(st, st.ghost["line"])[0]))
                    r.append(("no overlap so far", lambda st: facts(st, st.ghost["line"])[1]))
        return r
    c.eng.loop_templates.append(tmpl)
    for o in c.run(r"detail::try_load_mapped_region_info\(\)", []):
        g = o.st.ghost
        if o.kind == "throw":
            i = g["line"]
            prev = bv((Lin.of(i) - 1).val(), 64)
            c.ensure(o, Or(And(ult(i, m.n), ok_bad(m, i)), ult(m.high(prev), m.low(prev))), "an error only for a malformed or inverted line")
            continue
        r = o.val
        for st, some in cases(c, o, truth(c.get(r.add(SOME), 1, st=o.st))):
            if not some:
                i = bv(g["line"], 64)
                c.ensure(st, And(ule(2, i), ule(i, m.n), ult(m.low(i - 1), m.high(i - 2))), "a tear only if a range starts before the end of the one before it")
                continue
            v = vec_of(c, st, r)
            c.ensure(st, eqv(v.len, m.n), "every line has its range")
            f0, f1 = facts(st, m.n)
            c.ensure(st, f0, "bounds are in order and every line is well-formed")
            c.ensure(st, f1, "ranges do not overlap")
            if v.obj is not None:
                a = st.mem[v.obj.id]
                for off, w, f, what in ((0, 8, m.low, "lower bounds"), (8, 8, m.high, "upper bounds"), (16, 4, m.perms, "permissions")):
                    c.ensure(st, Forall(lambda k: Implies(ult(k, m.n), eqv(elem(c, a, k, off, w), f(k), 8 * w)), None, what), "the ranges are the lines' " + what)


# ------------------------------------------------------------------ retries and the cache
def some_vec(c, st, name, m):
    """vector with the n ranges of the map"""
    et = c.type_like("^" + re.escape(TY) + "$")
    def base(i, fo, w, ty):
        i = bv(i, 64)
        return {0: lambda: m.low(i), 8: lambda: m.high(i), 16: lambda: simp(m.perms(i))}[fo]()
    o = st.new_obj(name, Lin.of(m.n).scale(RANGE).val(), "input", engine.Arr(RANGE, base, (), models.flatten(et)))
    return Vec(o, m.n, RANGE)


@spec("P21", "retrying: the first map without a tear, an error after the last attempt", T)
def _(c):
    c.common()
    n = c.int("attempts", 32)
    torn = c.eng.fresh_fn("torn", 8)
    c.st.ghost.update(tries=0, got=None)
    c.st.assume(n >= 0)
    c.st.assume(ult(n, 1 << 20, 32))

    def load(eng, st, a, ins):
        i = st.ghost["tries"]
        st.ghost["tries"] = (Lin.of(i) + 1).val()
        if st.decide(Not(eqv(torn(bv(i, 64)), 0, 8))):
            eng.put(st, a[0].add(SOME), 1, 0)
            return
        o = st.new_obj("ranges", 24, "input")
        models.setvec(eng, st, a[0], Vec(o, 1, RANGE))
        eng.put(st, a[0].add(SOME), 1, 1)
        st.ghost["got"] = o.id
    c.contract(r"detail::try_load_mapped_region_info\(\)", load, "try_load_mapped_region_info", discharged="loading the map")

    def tmpl(eng, entry, mods, steps, ctx):
        r = [("all torn so far", lambda st: Forall(lambda k: Implies(ult(k, st.ghost["tries"]), Not(eqv(torn(k), 0, 8))), {torn.name()}, "torn"))]
        for md in mods:
            if len(md) == 3 and md[2] == 4 and isinstance(md[1], int):
                r.append(("counts the attempts", lambda st, md=md: eqv(z3.ZeroExt(32, bv(st.mem[md[0]].d.get(md[1])[1], 32)), st.ghost["tries"])))
                r.append(("at most n attempts", lambda st, md=md: ule(st.mem[md[0]].d[md[1]][1], n, 32)))
        return r
    c.eng.loop_templates.append(tmpl)
    for o in c.run(r"detail::try_load_mapped_region_info_with_retries\(", [n]):
        g = o.st.ghost
        if o.kind == "throw":
            c.ensure(o, Or(eqv(n, 0, 32), eqv(g["tries"], z3.ZeroExt(32, n))), "an error only after all attempts")
            c.ensure(o, Forall(lambda k: Implies(ult(k, g["tries"]), Not(eqv(torn(k), 0, 8))), None, "torn"), "an error only if every attempt was torn")
            continue
        c.ensure(o, truth(c.get(o.val.add(SOME), 1, st=o.st)), "there is a map")
        v = models.getvec(c.eng, o.st, o.val, None)
        c.ensure(o, v.obj is not None and v.obj.id == g["got"], "it is the map of the first attempt that was not torn")
        c.ensure(o, ule(g["tries"], z3.ZeroExt(32, n)), "no more attempts than allowed")


@spec("P21", "the map is loaded once and kept; a failed load leaves no ranges", T)
def _(c):
    c.common()
    m = Map(c)
    c.st.ghost["loads"] = 0
    made = []

    def load(eng, st, a, ins):
        st.ghost["loads"] += 1
        eng.oblige(st, "at least one attempt", a[-1] >= 1 if isc(a[-1]) else None)
        if st.decide(eng.fresh("load fails", 1)):
            st.ghost["failed"] = True
            raise engine.Throw("_ZTIN8cpptrace2v16detail14internal_errorE")
        v = some_vec(c, st, "ranges", m)
        st.ghost["vec"] = v.obj.id
        models.setvec(eng, st, a[0], v)
        eng.put(st, a[0].add(SOME), 1, 1)
    c.contract(r"detail::try_load_mapped_region_info_with_retries\(", load, "try_load_mapped_region_info_with_retries", discharged="retrying")
    FN = r"detail::load_mapped_region_info\(\)"
    for o in c.run(FN, []):
        c.ensure(o, o.st.ghost["loads"] == 1, "the first use loads the map")
        failed = bool(o.st.ghost.get("failed"))
        c.ensure(o, failed == (o.kind == "throw"), "a failed load is reported")
        for q in c.normal(c.run(FN, [], o.st)):
            c.ensure(q, q.st.ghost["loads"] == 1, "loaded only once")
            v = models.getvec(c.eng, q.st, q.val, None)
            if failed:
                c.ensure(q, eqv(v.len, 0), "a failed load leaves no ranges")
            else:
                c.ensure(q, v.obj is not None and v.obj.id == q.st.ghost["vec"] and eqv(v.len, m.n), "the ranges loaded are kept")


# ------------------------------------------------------------------ the query
@spec("P21", "the protections are those of the range that holds the page, or an error", T)
def _(c):
    c.common()
    m = Map(c)
    page = c.int("page")
    j = c.int("other")     # an arbitrary range
    c.st.assume(ult(j, m.n))
    vec = c.raw("regions", 24)
    c.put(vec, 24, some_vec(c, c.st, "ranges", m))
    low, high = m.low, m.high
    # what loading establishes, of every pair of ranges with the arbitrary one
    c.st.assume(Forall(lambda k: Implies(ult(k, m.n), ule(low(k), high(k))), {low.name(), high.name()}, "bounds in order"))
    c.st.assume(Forall(lambda k: Implies(And(ult(k, j)), ule(high(k), low(j))), {low.name(), high.name()}, "no overlap"))
    c.st.assume(Forall(lambda k: Implies(And(ult(j, k), ult(k, m.n)), ule(high(j), low(k))), {low.name(), high.name()}, "no overlap"))
    c.contract(r"detail::load_mapped_region_info\(\)", lambda eng, st, a, ins: vec, "load_mapped_region_info", discharged="loading the map; the map is loaded once")
    holds = And(ule(low(j), page), ult(page, high(j)))
    for o in c.run(r"detail::get_page_protections\(", [page]):
        if o.kind == "throw":
            c.ensure(o, Not(holds), "an error only if no range holds the page")
            continue
        c.ensure(o, Implies(holds, eqv(o.val, m.perms(j), 32)), "the protections of the range that holds the page")
        # and some range holds it: the one found
        pos = [k for k in c.eng.named("bound.pos")] if hasattr(c.eng, "named") else []
        found = o.st.ghost.get("bound")
        c.ensure(o, found is not None, "a range was found")
        if found is not None:
            p = (Lin.of(found) - 1).val()
            P = bv(p, 64)
            c.ensure(o, And(ult(p, m.n), ule(low(P), page), ult(page, high(P)), eqv(o.val, m.perms(p), 32)), "some range holds the page")
