"""P20: log messages.  std::function is a trusted contract: a value that is called, copied and moved; std::atomic is a memory cell."""
from dv.spec import *

T = [TU("logging.cpp"), TU("options.cpp")]
FNS = r"^std::function<void \(cpptrace::v1::log_level, char const\*\)>::"
DEBUG, INFO, WARN, ERROR = 0, 1, 2, 3
LEVELS = {"debug": DEBUG, "info": INFO, "warn": WARN, "error": ERROR}


def functions(c):
    """std::function values"""
    eng = c.eng
    c.st.ghost["calls"] = ()

    def val(st, p):
        v = eng.raw_load(st, p, 32, models.VECTY)
        if not isinstance(v, Opaque):
            raise Unsupported("not a std::function: %r" % (v,))
        return v

    def from_fn(eng, st, a, ins):
        f = a[1]
        eng.put(st, a[0], 32, Opaque("function", getattr(f, "name", None) or repr(f)))

    def move(eng, st, a, ins):
        eng.put(st, a[0], 32, val(st, a[1]))
        return a[0]

    def assign_fn(eng, st, a, ins):
        eng.put(st, a[0], 32, Opaque("function", getattr(a[1], "name", None) or repr(a[1])))
        return a[0]

    def callit(eng, st, a, ins):
        st.ghost["calls"] += ((val(st, a[0]).data, a[1], a[2]),)
    c.model(FNS + r"function<void \(&\)\(cpptrace::v1::log_level, char const\*\), void>\(void", from_fn)
    c.model(FNS + r"function\((std::function<.*>&&|std::function<.*> const&)\)", move)
    c.model(FNS + r"operator=\((std::function<.*>&&|std::function<.*> const&)\)$", move)
    c.model(r"function<.*> ?& " + FNS[1:] + r"operator=<.*>\(|enable_if<.*" + FNS[1:] + r"operator=<.*\(void \(&\)", assign_fn)
    c.model(FNS + r"operator\(\)\(", callit)
    c.model(FNS + r"~function\(\)$", lambda eng, st, a, ins: None)
    c.model(r"^std::_Function_base::~_Function_base\(\)$", lambda eng, st, a, ins: None)


def install(c, st, name):
    p = c.raw(name, 32, st)
    c.put(p, 32, Opaque("function", name), st)
    return p


def level(c, name):
    v = c.int(name, 32)
    c.st.assume(ule(v, ERROR, 32))
    return v


def delivered(c, o, before, want):
    """`want`: None or (callback, level, message pointer)"""
    new = o.st.ghost["calls"][before:]
    if want is None:
        c.ensure(o, not new, "nothing happens")
        return
    c.ensure(o, len(new) == 1, "delivered once")
    for f, l, m in new[:1]:
        c.ensure(o, f == want[0], "to the callback installed")
        c.ensure(o, eqv(l, want[1], 32), "with its own level")
        c.ensure(o, isinstance(m, Ptr) and m.obj is want[2].obj and (m.off - want[2].off).const() == 0, "unchanged")


def configured(c, st):
    """[(state, threshold, callback)] after any configuration: the initial one, or a threshold and a callback last set in either order"""
    lv, lv2 = level(c, "threshold"), level(c, "earlier threshold")
    SL, SC = r"v1::set_log_level\(", r"v1::set_log_callback\("
    seqs = [([], WARN, "default_null_logger"),
            ([("l", lv)], lv, "default_null_logger"),
            ([("c", "callback")], WARN, "callback"),
            ([("l", lv2), ("c", "earlier"), ("l", lv), ("c", "callback")], lv, "callback"),
            ([("c", "callback"), ("l", lv2), ("l", lv)], lv, "callback"),
            ([("c", "earlier"), ("d", None), ("l", lv)], lv, "default_stderr_logger")]
    r = []
    for seq, t, cb in seqs:
        outs = [st.copy()]
        for k, v in seq:
            nxt = []
            for s in outs:
                if k == "l":
                    os_ = c.normal(c.run(SL, [v], s))
                elif k == "c":
                    os_ = c.normal(c.run(SC, [install(c, s, v)], s))
                else:
                    os_ = c.normal(c.run(r"v1::use_default_stderr_logger\(", [], s))
                nxt += [o.st for o in os_]
            outs = nxt
        r += [(s, t, cb) for s in outs]
    return r


def is_cb(f, cb):
    return f == cb or (isinstance(f, str) and cb in f)


for fn, own in list(LEVELS.items()) + [("do_log", None)]:
    @spec("P20", "delivery: " + fn, T)
    def _(c, fn=fn, own=own):
        functions(c)
        msg = c.raw("message", 16)
        lv = level(c, "level") if own is None else own
        for st, t, cb in configured(c, c.st):
            n = len(st.ghost["calls"])
            f, a = (r"detail::do_log\(", [lv, msg]) if own is None else (r"detail::log::%s\(char const\*\)" % fn, [msg])
            for o in c.normal(c.run(f, a, st)):
                for s, yes in cases(c, o, ule(t, lv, 32)):
                    new = s.ghost["calls"][n:]
                    want = None
                    if yes:
                        want = (new[0][0] if new and is_cb(new[0][0], cb) else cb, lv, msg)
                    delivered(c, Out("ret", s, None), n, want)
                # and a second message is judged by the same configuration
                for s, yes in cases(c, o, ule(t, ERROR, 32)):
                    n2 = len(s.ghost["calls"])
                    for q in c.normal(c.run(r"detail::do_log\(", [ERROR, msg], s)):
                        delivered(c, q, n2, (q.st.ghost["calls"][n2][0] if len(q.st.ghost["calls"]) > n2 and is_cb(q.st.ghost["calls"][n2][0], cb) else cb, ERROR, msg))


for fn, own in LEVELS.items():
    @spec("P20", "a formatted message reaches the log with its level and text: " + fn, [TU("probe:log")])
    def _(c, fn=fn, own=own):
        f, _ = c.cstr("format")
        arg, _ = c.cstr("argument")
        ap = c.raw("arg", 8)
        c.put(ap, 8, arg)
        c.st.ghost["logs"] = ()
        texts = []

        def fmt(eng, st, a, ins):
            v = c.eng.load(st, a[1], ir.PTR) if isinstance(a[1], Ptr) and a[1].obj is not f.obj else a[1]
            eng.oblige(st, "the format given is used", isinstance(v, Ptr) and v.obj is f.obj)
            t = eng.fresh_str(st, "formatted")
            texts.append(t)
            models.setstr(eng, st, a[0], t)

        def log(eng, st, a, ins):
            o = a[-1].obj
            st.ghost["logs"] += ((ins, o.tag if o.kind == "strdata" else None, a),)
            if o.kind == "strdata":
                t = models.getstr(eng, st, Ptr(*o.tag))
                eng.oblige(st, "the formatted text is logged", models.str_eq_goal(t, texts[-1]) if texts else False)
            else:
                eng.oblige(st, "the formatted text is logged", False)
        c.model(r"cpptrace::v1::microfmt::format<.*>\(", fmt)
        c.contract(r"detail::log::(error|warn|info|debug)\(char const\*\)$", lambda eng, st, a, ins: (st.ghost.update(at=eng.prog.dem(ins.a["fn"][1])), log(eng, st, a, ins))[1], "log::%s(const char*)" % fn, discharged="delivery: " + fn)
        for o in c.normal(c.run(r"^probe::%s\(" % fn, [f, ap])):
            c.ensure(o, len(o.st.ghost["logs"]) == 1, "logged once")
            c.ensure(o, "::%s(" % fn in o.st.ghost.get("at", ""), "with its own level")


@spec("P20", "the null logger does nothing; names of the levels", T)
def _(c):
    functions(c)
    lv = level(c, "level")
    for o in c.normal(c.run(r"detail::default_null_logger\(", [lv, c.raw("message", 8)])):
        c.ensure(o, not o.st.ghost["calls"], "no effect")
    for n, name in enumerate((b"debug", b"info", b"warning", b"error")):
        for o in c.normal(c.run(r"v1::to_string\(cpptrace::v1::log_level\)", [n])):
            at = models.snapshot(c.eng, o.st, o.val)
            c.ensure(o, And(*[eqv(at(i), ch, 8) for i, ch in enumerate(name + b"\0")]), "name of the level: " + name.decode())


# ------------------------------------------------------------------ internal errors
for kind, ti in (("an internal error", "_ZTIN8cpptrace2v16detail14internal_errorE"), ("a standard exception", "_ZTISt13runtime_error"), ("anything else", "_ZTIi"), ("no exception", None)):
    @spec("P20", "internal errors are swallowed or propagated as configured: " + kind, [TU("utils/error.cpp"), TU("options.cpp")])
    def _(c, kind=kind, ti=ti):
        ptr = c.raw("exception_ptr", 8)
        absorb = c.bool("absorb")
        c.st.ghost["logs"] = 0
        exc = c.raw("exception", 64)
        vt = c.raw("vtable", 64)
        c.put(exc, 8, vt.add(16))
        c.put(vt.add(8), 8, c.raw("typeinfo", 16))
        c.put(vt.add(32), 8, FnPtr("_ZNKSt9exception4whatEv"))
        what, _ = c.cstr("what")
        tname, _ = c.cstr("type name")
        c.model(r"^_ZNKSt9exception4whatEv$", lambda eng, st, a, ins: what)

        def rethrow(eng, st, a, ins):
            raise engine.Throw(ti, exc)

        def log(eng, st, a, ins):
            st.ghost["logs"] += 1
        c.model(r"^std::rethrow_exception\(", rethrow)
        c.model(r"^std::__exception_ptr::exception_ptr::exception_ptr\(std::__exception_ptr::exception_ptr const&\)$", lambda eng, st, a, ins: None)
        c.model(r"^std::__exception_ptr::exception_ptr::~exception_ptr\(\)$", lambda eng, st, a, ins: None)
        c.model(r"^std::__exception_ptr::exception_ptr::operator bool\(\) const$", lambda eng, st, a, ins: ti is not None)
        c.contract(r"detail::log::error(<.*>)?\(char const\*", log, "log::error", discharged="delivery: error")
        c.model(r"v1::demangle\(", lambda eng, st, a, ins: models.setstr(eng, st, a[0], eng.fresh_str(st, "type")))
        c.model(r"detail::exception_type_name\(", lambda eng, st, a, ins: models.setstr(eng, st, a[0], eng.fresh_str(st, "type")))
        c.model(r"^std::type_info::name\(\) const$", lambda eng, st, a, ins: tname)
        for s in c.normal(c.run(r"v1::absorb_trace_exceptions\(|experimental::absorb", [absorb])):
            for o in c.run(r"detail::log_and_maybe_propagate_exception\(", [ptr], s.st):
                c.ensure(o, o.st.ghost["logs"] == (1 if ti else 0), "reported once in the log")
                if o.kind == "throw":
                    c.ensure(o, ti is not None and o.val.ty == ti, "the error itself is propagated")
                    c.ensure(o, Not(absorb), "propagated only if not absorbed")
                else:
                    c.ensure(o, absorb if ti else True, "swallowed only if absorbed")
