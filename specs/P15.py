"""P15: one entry per address.  Traces are vectors of any length; the loader, the symbol tool and the map of objects are contracts."""
from dv.spec import *
from dv.elfspec import truth, cases, QUERY, local
from specs.P22 import loader

D = r"^cpptrace::v1::detail::"
TO = [TU("binary/object.cpp")]
OF_SIZE, SF_SIZE = 48, 96   # object_frame {raw, object address, path}, stacktrace_frame
NULLV = 0xffffffff


def begins(st, size, pre="__begin"):
    r = []
    for o in st.top().allocas:
        if o.name.split("!")[0].split("#")[0].rstrip("0123456789.") == pre and o.id in st.mem:
            d = st.mem[o.id].d
            v = d[0][1] if 0 in d else None
            if isinstance(v, Ptr) and v.obj is not None and isinstance(st.mem.get(v.obj.id), engine.Arr) and st.mem[v.obj.id].es == size:
                r.append(v.off.div(size)[0].val())
    return r


def alloca(st, name):
    return [Ptr(x) for x in st.top().allocas if x.name.split("!")[0].split("#")[0].rstrip("0123456789.") == name]


def sret(st):
    """where the value returned is built"""
    f = st.top()
    return f.regs[f.fn.params[0][1]]


def addresses(c):
    n, f = c.int("addresses"), c.eng.fresh_fn("address", 64)
    c.st.assume(ult(n, 1 << 40))
    o = c.st.new_obj("addresses", Lin.of(n).scale(8).val(), "heap", engine.Arr(8, lambda i, fo, w, ty: f(bv(i, 64)), (), [(0, 8, ir.Ty("int", 64))]))
    p = c.raw("frames", 24)
    c.put(p, 24, Vec(o, n, 8))
    return p, n, lambda k: f(bv(k, 64))


def object_frames(c):
    """an arbitrary vector of object frames"""
    t = type("T", (), {})()
    eng = c.eng
    t.n, t.raw, t.oa = c.int("frames"), eng.fresh_fn("raw_address", 64), eng.fresh_fn("object_address", 64)
    ch, ln = eng.fresh_fn2("path.char", 8) if hasattr(eng, "fresh_fn2") else None, eng.fresh_fn("path.length", 64)
    c.st.assume(ult(t.n, 1 << 40))
    P = z3.Function("path!char", z3.BitVecSort(64), z3.BitVecSort(64), z3.BitVecSort(8))
    c.st.assume(Forall(lambda k: ult(ln(k), 1 << 40), {ln.name()}, "path lengths"))

    def path(k):
        k = bv(k, 64)
        return Str.sym(("path", k.get_id()), ln(k), lambda j: P(k, bv(j, 64)))
    t.path = path
    et = c.type_like(r"^struct.cpptrace::v1::object_frame$")

    def base(i, fo, w, ty):
        return {0: lambda: t.raw(bv(i, 64)), 8: lambda: t.oa(bv(i, 64)), 16: lambda: path(i)}[fo]()
    t.obj = c.st.new_obj("object frames", Lin.of(t.n).scale(OF_SIZE).val(), "heap", engine.Arr(OF_SIZE, base, (), models.flatten(et)))
    t.p = c.raw("frames", 24)
    c.put(t.p, 24, Vec(t.obj, t.n, OF_SIZE))
    return t


# ------------------------------------------------------------------ objects of addresses
for kind in ("path", "none", "null", "empty"):
    @spec("P15", "the object of an address (%s)" % {"path": "with a path", "none": "no object", "null": "no path", "empty": "empty path"}[kind], TO)
    def _(c, kind=kind):
        base, s = loader(c, kind)
        own = c.eng.fresh_str(c.st, "own path")
        addr = c.int("address")
        if kind in ("null", "empty"):
            def name(eng, st, a, ins):
                st.ghost["l_name"] = a[1]
                models.setstr(eng, st, a[0], own)
            c.contract(D + r"resolve_l_name\(", name, "resolve_l_name", discharged="P15 executable contract")
        for o in c.normal(c.run(D + r"get_frame_object_info\(", [addr])):
            c.ensure(o, eqv(c.get(o.val, 8, st=o.st), addr), "raw address")
            asked = o.st.ghost["asked"]
            c.ensure(o, len(asked) == 1, "the loader is asked once")
            for a in asked:
                c.ensure(o, eqv(c.eng.ptrtoint(a) if isinstance(a, Ptr) else a, addr), "about the address")
            p = models.getstr(c.eng, o.st, o.val.add(16))
            if kind == "none":
                c.ensure(o, And(eqv(c.get(o.val.add(8), 8, st=o.st), 0), eqv(p.len, 0)), "no object, no object address")
                continue
            c.ensure(o, eqv(c.get(o.val.add(8), 8, st=o.st), (Lin.of(addr) - Lin.of(base)).val()), "address relative to the object")
            c.ensure(o, models.str_eq_goal(p, s if kind == "path" else own), "the object's path")


@spec("P15", "an object for every address, in order", TO, secs=100)
def _(c):
    p, n, A = addresses(c)
    seen = []
    oa = c.eng.fresh_fn("found object address", 64)
    c.eng.by_invariant.append("get_frames_object_info")
    et = c.type_like(r"^struct.cpptrace::v1::object_frame$")

    def info(eng, st, a, ins):
        eng.put(st, a[0], 8, a[1])
        eng.put(st, a[0].add(8), 8, oa(bv(a[1], 64)))
        s = eng.fresh_str(st, "path")
        st.ghost["last.path"] = s
        models.setstr(eng, st, a[0].add(16), s)
    c.st.ghost["last.path"] = Str()
    c.contract(D + r"get_frame_object_info\(", info, "get_frame_object_info", discharged="P15: the object of an address")

    def tmpl(eng, entry, mods, steps, ctx):
        if "get_frames_object_info" not in ctx.fn.dem:
            return []
        return [("one for each", lambda st: eqv(result(st).len, begins(st, 8)[0]))]

    result = lambda st: models.getvec(c.eng, st, sret(st), et)

    def one(eng, h, b, ctx):
        if "get_frames_object_info" not in ctx.fn.dem:
            return
        seen.append(1)
        i, i2 = bv(begins(h, 8)[0], 64), begins(b, 8)[0]
        q = Out("ret", b, None)
        c.ensure(q, eqv(i2, i + 1), "one address after the other")
        v0, v1 = result(h), result(b)
        c.ensure(q, eqv(v1.len, (Lin.of(v0.len) + 1).val()), "one frame each")
        at = Ptr(v1.obj, Lin.of(v0.len).scale(OF_SIZE))
        c.ensure(q, eqv(c.get(at, 8, st=b), A(i)), "with its raw address")
        c.ensure(q, eqv(c.get(at.add(8), 8, st=b), oa(A(i))), "with its object address")
        c.ensure(q, models.str_eq_goal(models.getstr(eng, b, at.add(16)), b.ghost["last.path"]), "with its object's path")
        k = bv(c.int("k"), 64)
        if v0.obj is not None and v1.obj is not None:
            F = lambda s, v, off: eng.arr_byte(s.mem[v.obj.id], Lin.of(k).scale(OF_SIZE) + off, 8)
            c.ensure(q, Implies(ult(k, v0.len), And(eqv(F(h, v0, 0), F(b, v1, 0)), eqv(F(h, v0, 8), F(b, v1, 8)))), "the frames before stay")
    c.eng.loop_templates.append(tmpl)
    c.eng.loop_steps.append(one)
    for o in c.normal(c.run(D + r"get_frames_object_info\(", [p])):
        v = models.getvec(c.eng, o.st, o.val, et)
        c.ensure(o, eqv(v.len, n), "as many as addresses")
    if not seen:
        raise Unsupported("no step of the loop was seen")


# ------------------------------------------------------------------ frames before the symbol tool is asked
TN = [TU("symbols/symbols_with_nothing.cpp", defs=("CPPTRACE_GET_SYMBOLS_WITH_NOTHING",))]
TA = [TU("symbols/symbols_with_addr2line.cpp")]
TD = [TU("symbols/symbols_with_dl.cpp", defs=("CPPTRACE_GET_SYMBOLS_WITH_LIBDL",))]


def kept(name, tus, rx, of_objects):
    """the loop that fills in what is known of each frame"""
    @spec("P15", "every frame keeps what is known of it (%s)" % name, tus, secs=150)
    def _(c):
        c.common()
        eng = c.eng
        if of_objects:
            t = object_frames(c)
            arg, n, raw = t.p, t.n, lambda k: t.raw(bv(k, 64))
        else:
            arg, n, raw = addresses(c)
        eng.by_invariant.append("resolve_frames")
        c.contract(r"has_addr2line\(\)$", lambda e, st, a, ins: False, "has_addr2line", discharged="P15 executable contract")
        et = c.type_like(r"^struct.cpptrace::v1::stacktrace_frame$")
        seen = []
        vec = lambda st: models.getvec(eng, st, sret(st), et)
        F = lambda st, v, k, off, w=8: eng.arr_byte(st.mem[v.obj.id], Lin.of(k).scale(SF_SIZE) + off, w)

        def known(st, k):
            v = vec(st) if not st.ghost.get("over") else models.getvec(eng, st, st.ghost["over"], et)
            r = [eqv(F(st, v, k, 0), raw(k)), eqv(F(st, v, k, 16, 4), NULLV, 32), eqv(F(st, v, k, 20, 4), NULLV, 32)]
            return And(*(r + ([eqv(F(st, v, k, 8), t.oa(bv(k, 64)))] if of_objects else [])))

        def tmpl(e, entry, mods, steps, ctx):
            if "resolve_frames" not in ctx.fn.dem or ctx.fn.dem.startswith("std::"):
                return []
            return [("as many", lambda st: eqv(vec(st).len, n)), ("not past the end", lambda st: ule(local(st, "i"), n))]

        def one(e, h, b, ctx):
            if "resolve_frames" not in ctx.fn.dem:
                return
            seen.append(1)
            i = bv(local(h, "i"), 64)
            q = Out("ret", b, None)
            c.ensure(q, eqv(local(b, "i"), i + 1), "one frame after the other")
            v0, v1 = vec(h), vec(b)
            b.assume(ult(i, v1.len))
            at = Ptr(v1.obj, Lin.of(i).scale(SF_SIZE))
            c.ensure(q, eqv(c.get(at, 8, st=b), raw(i)), "its raw address")
            if of_objects:
                c.ensure(q, eqv(c.get(at.add(8), 8, st=b), t.oa(i)), "its object address")
                c.ensure(q, models.str_eq_goal(models.getstr(eng, b, at.add(24)), t.path(i)), "its object's path")
            k = bv(c.int("k"), 64)
            c.ensure(q, Implies(And(ult(k, v1.len), Not(eqv(k, i))), And(*[eqv(F(h, v0, k, off, w), F(b, v1, k, off, w), 8 * w) for off, w in ((0, 8), (8, 8), (16, 4), (20, 4), (88, 1))])), "the other frames stay")
        eng.loop_templates.append(tmpl)
        eng.loop_steps.append(one)
        for o in c.normal(c.run(rx, [arg])):
            v = models.getvec(eng, o.st, o.val, et)
            c.ensure(o, eqv(v.len, n), "as many entries as frames")
        if not seen:
            raise Unsupported("no step of the loop was seen")


kept("addr2line, no tool", TA, r"addr2line::resolve_frames\(", True)
kept("no back end, objects", TN, r"nothing::resolve_frames\(std::vector<cpptrace::v1::object_frame", True)
kept("no back end, addresses", TN, r"nothing::resolve_frames\(std::vector<unsigned long", False)


# ------------------------------------------------------------------ the tool's answers
UM = r"^std::unordered_map<std::(__cxx11::)?(basic_string<.*>|string), std::vector<std::pair<std::reference_wrapper<.*>::"


@spec("P15", "each line of the tool's answer goes to the address it was given for", TA + [TU("utils/error.cpp")], secs=200)
def _(c):
    """one object (any) of the map and its addresses; the batches, and each round of every loop, are arbitrary"""
    c.common()
    eng = c.eng
    t = object_frames(c)
    g = eng.fresh_fn("frame of entry", 64)
    c.st.assume(Forall(lambda k: ult(g(k), t.n), {g.name()}, "entries refer to frames"))
    m = c.int("entries of the object")
    c.st.assume(ult(m, 1 << 40))
    eng.by_invariant.append("resolve_frames")
    c.contract(r"has_addr2line\(\)$", lambda e, st, a, ins: True, "has_addr2line", discharged="P15 executable contract")
    pair = c.raw("object and its entries", 56)
    name = eng.fresh_str(c.st, "object")
    models.setstr(eng, c.st, pair, name)
    any_frame = c.raw("any frame", 96)

    def base(i, fo, w, ty):
        return Ptr(t.obj, Lin.of(g(bv(i, 64))).scale(OF_SIZE)) if fo == 0 else any_frame
    eo = c.st.new_obj("entries", Lin.of(m).scale(16).val(), "heap", engine.Arr(16, base, (), [(0, 8, ir.PTR), (8, 8, ir.PTR)]))
    c.put(pair.add(32), 24, Vec(eo, m, 16))
    # the map: any number of entries, the one whose turn it is being an arbitrary one
    nmap = c.int("objects", 64)
    c.st.assume(ult(nmap, 1 << 40))
    nodes = c.st.new_obj("map nodes", Lin.of(nmap).scale(8).val(), "heap")
    first, end = Ptr(nodes, Lin.of(0)), Ptr(nodes, Lin.of(nmap).scale(8))
    cur = lambda e, st, p: e.raw_load(st, p, 8, ir.PTR)
    c.contract(r"^cpptrace::v1::detail::collate_frames\(", lambda e, st, a, ins: None, "collate_frames", discharged="P15 executable contract")
    c.model(UM + r"(begin|cbegin)\(\) const$", lambda e, st, a, ins: first)
    c.model(UM + r"(end|cend)\(\) const$", lambda e, st, a, ins: end)
    c.model(UM + r"~unordered_map\(\)$", lambda e, st, a, ins: None)
    NI = r"^std::__detail::_Node_(const_)?iterator<std::pair<.*"
    c.model(r"^(bool )?std::__detail::operator!=\(std::__detail::_Node_iterator_base<", lambda e, st, a, ins: Not(eqv(cur(e, st, a[0]).off.val(), cur(e, st, a[1]).off.val())))
    c.model(NI + r"::operator\*\(\) const$", lambda e, st, a, ins: pair)
    c.model(NI + r"::operator\+\+\(\)$", lambda e, st, a, ins: e.put(st, a[0], 8, Ptr(nodes, cur(e, st, a[0]).off + Lin.of(8))))
    seen = []
    batch = lambda st: (bv(local(st, "start"), 64), bv(local(st, "end"), 64))

    def fmt(e, st, a, ins):
        # {:h}{} of the object address of the entry whose turn it is
        i = bv(local(st, "i"), 64)
        e.oblige(st, "the address given to the tool is the entry's", eqv(e.raw_load(st, a[2], 8, ir.Ty("int", 64)), t.oa(g(i))))
        e.oblige(st, "each address of the batch in turn", And(eqv((Lin.of(st.ghost["given"]) + Lin.of(bv(local(st, "start"), 64))).val(), i), ult(i, bv(local(st, "end"), 64))))
        st.ghost["given"] = (Lin.of(st.ghost["given"]) + 1).val()
        seen.append("format")
        models.setstr(e, st, a[0], e.fresh_str(st, "address"))
    c.model(r"microfmt::format<char \[\d+\], unsigned long const&, char>\(", fmt)

    def ask(e, st, a, ins):
        s = models.getstr(e, st, a[2])
        e.oblige(st, "the tool is asked about the object of the entries", And(eqv(s.len, name.len), Not(eqv(s.len, 0))) if not s.same(name) else Not(eqv(s.len, 0)))
        e.oblige(st, "all addresses of the batch are given", eqv((Lin.of(st.ghost["given"]) + Lin.of(bv(local(st, "start"), 64))).val(), bv(local(st, "end"), 64)))
        st.ghost["given"] = 0
        if st.decide(e.fresh("tool.fails", 1)):
            raise engine.Throw("_ZTIN8cpptrace2v16detail14internal_errorE")
        models.setstr(e, st, a[0], e.fresh_str(st, "answer"))
        seen.append("ask")
    c.contract(r"addr2line::resolve_addresses\(", ask, "resolve_addresses", discharged="P15 executable contract")
    c.contract(D + r"trim\(", lambda e, st, a, ins: models.setstr(e, st, a[0], e.fresh_str(st, "trimmed")), "trim", discharged="P03")

    def split(e, st, a, ins):
        k = e.fresh("lines", 64)
        st.assume(ult(k, 1 << 40))
        w = e.fresh_fn("line.length", 64)
        L = z3.Function("line!char", z3.BitVecSort(64), z3.BitVecSort(64), z3.BitVecSort(8))
        st.assume(Forall(lambda j: ult(w(j), 1 << 40), {w.name()}, "line lengths"))
        o = st.new_obj("lines", Lin.of(k).scale(32).val(), "heap", engine.Arr(32, lambda i, fo, ww, ty: Str.sym(("line", bv(i, 64).get_id()), w(bv(i, 64)), lambda j: L(bv(i, 64), bv(j, 64))), (), [(0, 32, models.STRTY)]))
        e.put(st, a[0], 24, Vec(o, k, 32))
    c.contract(D + r"split\(", split, "split", discharged="P03")
    c.st.ghost.update(updates=0, given=0)

    def update(e, st, a, ins):
        # line, entry index, entries
        seen.append("update")
        i = bv(local(st, "i"), 64)
        s, n = batch(st)
        p = a[0]
        e.oblige(st, "a line of this answer", p.obj.name.startswith("lines"))
        d = p.off.div(32)
        e.oblige(st, "and the one whose number is the place of the address in the batch", eqv((Lin.of(d[0].val()) + Lin.of(s)).val(), a[1]))
        e.oblige(st, "the line is the one whose turn it is", eqv(d[0].val(), i))
        e.oblige(st, "an entry of the batch", And(ule(s, a[1]), ult(a[1], n), ule(n, m)))
        e.oblige(st, "of these entries", a[2].obj is pair.obj and a[2].off.const() == 32)
        st.ghost["updates"] = (Lin.of(st.ghost["updates"]) + 1).val()
        if st.decide(e.fresh("malformed", 1)):
            raise engine.Throw("_ZTISt16invalid_argument")
    c.contract(r"addr2line::update_trace\(", update, "update_trace", discharged="P16")
    c.contract(D + r"log_and_maybe_propagate_exception\(", lambda e, st, a, ins: None, "log_and_maybe_propagate_exception", discharged="P20")

    def tmpl(e, entry, mods, steps, ctx):
        if "resolve_frames" not in ctx.fn.dem or ctx.fn.dem.startswith("std::"):
            return []

        def le(a, b):
            def f(st):
                x, y = a(st), b(st)
                if not ((isinstance(x, int) or z3.is_bv(x)) and (isinstance(y, int) or z3.is_bv(y))):
                    return True
                return ule(x, y)
            return f
        L = lambda nm: (lambda st: local(st, nm))
        G = lambda st: bv(st.ghost["given"], 64)
        isb = lambda x: isinstance(x, int) or z3.is_bv(x)
        return [("none given yet", lambda st: eqv(G(st), 0)), ("given so far", lambda st: eqv(G(st) + bv(local(st, "start"), 64), bv(local(st, "i"), 64)) if isb(local(st, "start")) and isb(local(st, "i")) else True),
                ("within the entries", le(L("start"), lambda st: (Lin.of(m) + 4096).val())), ("the end of the batch", le(L("end"), lambda st: m)), ("from the start", le(L("start"), L("end"))),
                ("a turn in the batch", le(L("start"), L("i"))), ("below the end", le(L("i"), L("end")))]
    eng.loop_templates.append(tmpl)
    for o in c.normal(c.run(r"addr2line::resolve_frames\(", [t.p])):
        c.ensure(o, eqv(models.getvec(eng, o.st, o.val, c.type_like(r"stacktrace_frame$")).len, t.n), "as many entries as frames")
    if set(seen) != {"format", "ask", "update"}:
        raise Unsupported("only seen: %r" % (sorted(set(seen)),))
