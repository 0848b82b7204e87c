"""P22: signal-safe object frames.  _dl_find_object and readlink are trusted contracts: the loader reports any object (any base, any
path, no path) or none, readlink fails or stores at most the given number of bytes and no terminator."""
from dv.spec import *

T = [TU("binary/safe_dl.cpp")]
TO = [TU("binary/object.cpp"), TU("cpptrace.cpp")]
PMAX = 4096   # CPPTRACE_PATH_MAX on this platform
PATH = 16     # offset of object_path


def loader(c, named):
    """named: path / empty / null"""
    base = c.int("load_base")
    lm = c.raw("link_map", 64)
    c.put(lm, 8, base)
    q, s = (NULL, Str()) if named == "null" else c.cstr("l_name")
    if named == "empty":
        c.st.assume(eqv(s.len, 0))
    if named == "path":
        c.st.assume(Not(eqv(s.len, 0)))
    c.put(lm.add(8), 8, q)
    c.st.ghost["asked"] = ()

    def find(eng, st, a, ins):
        st.ghost["asked"] += (a[0],)
        if named == "none":
            return 0xffffffff
        for off in (0, 8, 16, 32):
            eng.put(st, a[1].add(off), 8, eng.fresh("dlfo", 64))
        eng.put(st, a[1].add(24), 8, lm)
        return 0

    def readlink(eng, st, a, ins):
        eng.ptr_ok(st, a[1], a[2], "readlink: the buffer holds the size given")
        if st.decide(eng.fresh("readlink.fails", 1)):
            st.ghost["link"] = None
            return (1 << 64) - 1
        t = eng.fresh_str(st, "exe")
        st.assume(ule(t.len, a[2]))
        st.assume(Forall(lambda k: Implies(ult(k, t.len), Not(eqv(t.at(k), 0, 8))), None, "a path has no NUL"))
        o = eng.bytes_obj(st, "exe.bytes", t, nul=False)
        eng.memcpy(st, a[1], Ptr(o), t.len)
        st.ghost["link"] = t
        return t.len
    c.model(r"^_dl_find_object$", find)
    c.model(r"^readlink$", readlink)
    return base, s


def byte(c, st, p):
    return c.eng.raw_load(st, p, 1, ir.I8)


def is_path(c, o, out, s, what):
    """the buffer holds s followed by a zero, inside its CPPTRACE_PATH_MAX + 1 bytes"""
    c.ensure(o, ule(s.len, PMAX), "the path fits the buffer")
    st = o.st if isinstance(o, Out) else o
    snap = models.snapshot(c.eng, st, out.add(PATH))
    c.ensure(o, Forall(lambda k: Implies(ult(k, s.len), eqv(snap(k), s.at(k), 8)), None, "path"), what)
    c.ensure(o, eqv(snap(s.len), 0, 8), "zero-terminated")


for kind in ("path", "empty", "null", "none"):
    @spec("P22", "filling a frame: %s" % {"path": "an object with a path", "empty": "an object with an empty path (the executable)",
                                          "null": "an object without a path (the executable)", "none": "no object"}[kind], T, secs=60)
    def _(c, kind=kind):
        base, s = loader(c, kind)
        addr = c.int("address")
        out = c.raw("out", 4120)
        for o in c.normal(c.run(r"detail::get_safe_object_frame\(", [addr, out])):
            c.ensure(o, eqv(c.get(out, 8, st=o.st), addr), "raw address")
            asked = o.st.ghost["asked"]
            c.ensure(o, len(asked) == 1, "the loader is asked once")
            for a in asked:
                v = c.eng.ptrtoint(a) if isinstance(a, Ptr) else a
                c.ensure(o, eqv(v, addr), "the loader is asked about the address")
            rel = c.get(out.add(8), 8, st=o.st)
            if kind == "none":
                c.ensure(o, eqv(rel, 0), "no object: no object address")
                is_path(c, o, out, Str(), "no object: empty path")
                continue
            c.ensure(o, eqv(rel, (Lin.of(addr) - Lin.of(base)).val()), "address relative to the object")
            if kind == "path":
                for st, fits in cases(c, o, ule(s.len, PMAX)):
                    if fits:
                        is_path(c, st, out, s, "the object's path")
                    else:
                        is_path(c, st, out, Str.sym("cut", PMAX, s.at), "the object's path as far as it fits")
            else:
                t = o.st.ghost["link"]
                is_path(c, o, out, Str() if t is None else t, "the executable's path, empty if unknown")


def stored(c, st=None):
    f = c.raw("frame", 4120)
    raw, rel = c.int("raw_address"), c.int("relative")
    s = c.str("path")
    c.st.assume(ule(s.len, PMAX))
    c.st.assume(Forall(lambda k: Implies(ult(k, s.len), Not(eqv(s.at(k), 0, 8))), None, "path has no NUL"))
    return f, raw, rel, s


for fn, tus in (("detail::resolve_safe_object_frame", [TU("binary/object.cpp")]), ("v1::safe_object_frame::resolve", TO)):
    @spec("P22", "resolving a frame: " + fn.split("::", 1)[1], tus)
    def _(c, fn=fn):
        f, raw, rel, s = stored(c)
        c.put(f, 8, raw)
        c.put(f.add(8), 8, rel)
        # the frame's buffer: the path, then a terminator, then anything
        whole = s.cat(Str.lit(b"\0"))
        o = c.eng.bytes_obj(c.st, "path.bytes", whole, nul=False)
        c.eng.memcpy(c.st, f.add(PATH), Ptr(o), whole.len)

        def from_cstr(eng, st, a, ins):
            # std::string(const char*): trusted, the characters before the first zero
            eng.oblige(st, "the path handed on is the stored one", a[1].obj is f.obj and a[1].off.const() == PATH)
            models.setstr(eng, st, a[0], s)
        c.model(r"^std::__cxx11::basic_string<char, .*>::basic_string(<.*>)?\(char const\*, std::allocator<char> const&\)$", lambda eng, st, a, ins: from_cstr(eng, st, a, ins) if a[1].obj is f.obj else models.setstr(eng, st, a[0], Str()))
        for o in c.normal(c.run(fn + r"\(", [f])):
            r = o.val
            c.ensure(o, eqv(c.get(r, 8, st=o.st), raw), "raw address")
            c.holds_str(o, c.getstr(r.add(16), o.st), s, "path")
            for st, e in cases(c, o, eqv(s.len, 0)):
                c.ensure(st, eqv(c.get(r.add(8), 8, st=st), 0 if e else rel), "object address, zero without an object")


@spec("P22", "the public entry point and the capability", [TU("cpptrace.cpp"), TU("binary/safe_dl.cpp")])
def _(c):
    addr = c.int("address")
    out = c.raw("out", 4120)
    c.st.ghost["calls"] = ()

    def inner(eng, st, a, ins):
        st.ghost["calls"] += ((a[0], a[1]),)
    c.contract(r"detail::get_safe_object_frame\(", inner, "get_safe_object_frame", discharged="filling a frame")
    for o in c.normal(c.run(r"v1::get_safe_object_frame\(", [addr, out])):
        k = o.st.ghost["calls"]
        c.ensure(o, len(k) == 1 and k[0][1].obj is out.obj and k[0][1].off.const() == 0, "the caller's frame is filled, once")
        for a, _ in k:
            c.ensure(o, eqv(a, addr), "for the caller's address")
    for o in c.normal(c.run(r"v1::can_get_safe_object_frame\(", [])):
        c.ensure(o, truth(o.val), "available on this platform")
