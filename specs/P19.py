"""P19: demangling.  abi::__cxa_demangle is an arbitrary function of the text it is given: null or a fresh malloc'd C string."""
from dv.spec import *

T = [TU("demangle/demangle_with_cxxabi.cpp"), TU("utils.cpp")]


def environment(c):
    g = c.st.ghost
    g["asked"] = g["made"] = g["freed"] = ()

    def demangler(eng, st, a, ins):
        p = a[0]
        if not isinstance(p, Ptr) or p.obj.kind != "strdata":
            raise Unsupported("__cxa_demangle of %r" % (p,))
        s = models.getstr(eng, st, Ptr(*p.obj.tag))
        eng.oblige(st, "the text given to the demangler lies inside the string", ule(p.off.val(), s.len))
        st.ghost["asked"] += (models.substr(eng, st, s, p.off.val(), (Lin.of(s.len) - p.off).val()),)
        eng.oblige(st, "the demangler allocates its own buffer", a[1].null and a[2].null)
        if isinstance(a[3], Ptr) and not a[3].null:
            eng.put(st, a[3], 4, eng.fresh("status", 32))
        if st.decide(eng.fresh("is mangled", 1)):
            t = eng.fresh_str(st, "demangled")
            st.assume(Forall(lambda k: Implies(ult(k, t.len), Not(eqv(t.at(k), 0, 8))), None, "no NUL"))
            o = eng.bytes_obj(st, "demangled.bytes", t, kind="heap", nul=True)
            o.tag = ("cstr", t.len)
            st.ghost["made"] += ((o.id, t),)
            return Ptr(o)
        return NULL

    def free(eng, st, a, ins):
        if a[0].null:
            return
        made = [o for o, t in st.ghost["made"]]
        eng.oblige(st, "only the demangler's buffer is freed", a[0].obj.id in made and a[0].off.const() == 0)
        eng.oblige(st, "the buffer is freed once", a[0].obj.id not in st.ghost["freed"])
        st.ghost["freed"] += (a[0].obj.id,)
        st.mem[a[0].obj.id] = None
    c.model(r"^__cxa_demangle$", demangler)
    c.model(r"^free$", free)
    RW = r"^std::reference_wrapper<std::__cxx11::basic_string<.*> const>::"

    def rw_set(eng, st, a, ins):
        eng.put(st, a[0], 8, a[1])

    def rw_assign(eng, st, a, ins):
        eng.put(st, a[0], 8, eng.load(st, a[1], ir.PTR))
        return a[0]
    c.model(RW + r"reference_wrapper<", rw_set)
    c.model(RW + r"operator=\(", rw_assign)
    c.model(RW + r"get\(\) const$", lambda eng, st, a, ins: eng.load(st, a[0], ir.PTR))


def starts(s, lit):
    return And(ule(len(lit), s.len), *[eqv(s.at(i), b, 8) for i, b in enumerate(lit)])


def run(c, fn, args, s, p, prefix_checked):
    """p: position of the first space, or None"""
    for o in c.normal(c.run(fn, args)):
        g = o.st.ghost
        r = c.getstr(o.val, o.st)
        c.ensure(o, sorted(g["freed"]) == sorted(i for i, _ in g["made"]), "every temporary is released exactly once")
        mangled = Or(starts(s, b"_Z"), starts(s, b"__Z"))
        for st, m in (cases(c, o, mangled) if prefix_checked else [(o.st, None)]):
            if m is False:
                c.ensure(st, not g["asked"], "text without a mangling prefix is left alone")
                c.holds_str(st, r, s, "text without a mangling prefix is given back")
                continue
            c.ensure(st, len(g["asked"]) == 1, "the demangler is asked once")
            for st2, apple in cases(c, st, starts(s, b"__Z")):
                n = s.len if p is None else p
                head = models.substr(c.eng, st2, s, 1 if apple else 0, (Lin.of(n) - (1 if apple else 0)).val())
                for q in g["asked"][:1]:
                    c.holds_str(st2, q, head, "asked about the name up to the first space")
                if g["made"]:
                    rest = Str() if p is None else models.substr(c.eng, st2, s, p, (Lin.of(s.len) - Lin.of(p)).val())
                    c.holds_str(st2, r, g["made"][0][1].cat(rest), "the demangled form, then what followed the name")
                else:
                    c.holds_str(st2, r, s, "a name that is not mangled is given back unchanged")


for check in (True, False):
    for space in (True, False):
        @spec("P19", "demangle: %s, %s" % ("prefix required" if check else "any name", "text after a space" if space else "no space"), T)
        def _(c, check=check, space=space):
            environment(c)
            p, s = c.string("name")
            c.st.assume(Forall(lambda k: Implies(ult(k, s.len), Not(eqv(s.at(k), 0, 8))), None, "names have no NUL"))
            sp = None
            if space:
                sp = c.int("space")
                c.st.assume(ult(sp, s.len))
                c.st.assume(eqv(s.at(sp), 32, 8))
                c.st.assume(Forall(lambda k: Implies(ult(k, sp), Not(eqv(s.at(k), 32, 8))), None, "first space"))
            else:
                c.st.assume(Forall(lambda k: Implies(ult(k, s.len), Not(eqv(s.at(k), 32, 8))), None, "no space"))
            run(c, r"^cpptrace::v1::detail::demangle\([^$]*, bool\)$", [p, check], s, sp, check)


@spec("P19", "the public demangle accepts every name", T)
def _(c):
    p, s = c.string("name")
    c.st.ghost["calls"] = ()

    def inner(eng, st, a, ins):
        t = eng.fresh_str(st, "demangled")
        models.setstr(eng, st, a[0], t)
        st.ghost["calls"] += ((a[1], a[2], t),)
    c.contract(r"^cpptrace::v1::detail::demangle\(", inner, "detail::demangle", discharged="demangle")
    for o in c.normal(c.run(r"^cpptrace::v1::demangle\(", [p])):
        k = o.st.ghost["calls"]
        c.ensure(o, len(k) == 1 and k[0][0].obj is p.obj, "the name given is demangled")
        for _, chk, t in k:
            c.ensure(o, Not(truth(chk)), "no prefix required")
            c.holds_str(o, c.getstr(o.val, o.st), t, "its result is given back")
