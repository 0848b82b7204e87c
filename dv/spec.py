"""Contracts: registration and the context a contract is written in."""
import re
import time
import traceback
import z3
from . import ir, engine, models
from .build import TU
from .vals import *

SPECS = []


class Spec:
    def __init__(self, prop, name, tus, fn, secs, tier, unroll):
        self.prop, self.name, self.tus, self.fn, self.secs, self.tier, self.unroll = prop, name, tus, fn, secs, tier, unroll


def spec(prop, name, tus, secs=60, tier="quick", unroll=70):
    tus = [t if isinstance(t, TU) else TU(t) for t in tus]

    def d(f):
        SPECS.append(Spec(prop, name, tus, f, secs, tier, unroll))
        return f
    return d


class Contract:
    """assumed contract of a callee: replaces the call"""

    def __init__(self, rx, f, name=None, why=None):
        self.rx, self.f = re.compile(rx), f
        self.name, self.why = name or rx, why

    def matches(self, name, dem):
        return bool(self.rx.search(dem))

    def call(self, eng, st, args, ins):
        return self.f(eng, st, args, ins)


class Out:
    def __init__(self, kind, st, val):
        self.kind, self.st, self.val = kind, st, val

    def __repr__(self):
        return "Out(%s,%r)" % (self.kind, self.val)


class Ctx:
    def __init__(self, spec_, prog, secs, bounded=None, keep=False):
        self.cur = None
        self.spec, self.prog = spec_, prog
        models.M.extra = []
        opts = {"unroll": spec_.unroll}
        if bounded:
            opts.update(invs=False, unroll=bounded, cut=True)
        self.bounded = bounded
        self.keep = keep
        self.eng = engine.Engine(prog, models.M, (), opts)
        self.eng.deadline = self.eng.smt.deadline = time.time() + secs
        self.st = engine.State(self.eng)
        self.inputs = []
        self.targets = []
        self.covers = []
        self.assumed = []
        self.n = 0
        self.eng.small = [lambda: self.small(8), lambda: self.small(40)]

    def small(self, n):
        """preference for short strings and small numbers in countermodels"""
        r = []
        for name, v in self.inputs:
            if isinstance(v, Str) and not isc(v.len):
                r.append(z3.ULE(v.len, z3.BitVecVal(n, 64)))
        return r

    # ---- inputs
    def int(self, name, w=64):
        v = self.eng.fresh(name, w)
        self.inputs.append((name, v))
        return v

    def bool(self, name):
        v = self.eng.fresh(name, 1)
        self.inputs.append((name, v))
        return v

    def str(self, name, maxlen=None):
        v = self.eng.fresh_str(self.st, name, maxlen)
        self.inputs.append((name, v))
        return v

    def cstr(self, name, s=None):
        """NUL-terminated buffer holding s (fresh when absent): characters before the end are non-zero"""
        s = self.str(name) if s is None else s
        self.st.assume(Forall(lambda k, s=s: Implies(ult(k, s.len), Not(eqv(s.at(k), 0, 8))), None, name + " has no NUL"))
        o = self.eng.bytes_obj(self.st, name, s, nul=True)
        o.tag = ("cstr", s.len)
        return Ptr(o), s

    def view(self, name, s=None):
        """object of class basic string_view {ptr,len} over fresh characters"""
        s = self.str(name) if s is None else s
        o = self.eng.bytes_obj(self.st, name, s, nul=False)
        v = self.st.new_obj(name + ".view", 16, "input")
        self.eng.put(self.st, Ptr(v, 0), 8, Ptr(o))
        self.eng.put(self.st, Ptr(v, 8), 8, s.len)
        return Ptr(v), s, o

    def string(self, name, s=None, st=None):
        """std::string object"""
        s = self.str(name) if s is None else s
        o = (st or self.st).new_obj(name, 32, "input")
        self.eng.put(st or self.st, Ptr(o), 32, s)
        return Ptr(o), s

    def obj(self, ty, name, st=None):
        t = self.prog.type(ty) if isinstance(ty, str) else ty
        return Ptr(self.eng.alloc_ty(st or self.st, t, name, "input"))

    def raw(self, name, size, st=None):
        return Ptr((st or self.st).new_obj(name, size, "input"))

    def type_like(self, rx):
        r = re.compile(rx)
        for m in self.prog.modules:
            for t in m.types:
                if r.search(t):
                    return ir.Ty("named", name=t, mod=m)
        raise Unsupported("no type matches " + rx)

    def put(self, p, w, v, st=None):
        self.eng.put(st or self.st, p, w, v)

    def get(self, p, w, ty=None, st=None):
        st = st or self.st
        t = ty or (ir.PTR if ty == "ptr" else ir.Ty("int", 8 * w))
        return self.eng.coerce(st, self.eng.raw_load(st, p, w, t), t)

    def getp(self, p, st=None):
        st = st or self.st
        return self.eng.coerce(st, self.eng.raw_load(st, p, 8, ir.PTR), ir.PTR)

    def getstr(self, p, st):
        return models.getstr(self.eng, st, p)

    # ---- contracts of the library's own error plumbing, used by almost every function under contract
    def common(self):
        eng = self.eng

        def fmt(eng, st, a, ins):
            models.setstr(eng, st, a[0], eng.fresh_str(st, "formatted"))

        def afail(eng, st, a, ins):
            raise engine.Throw("_ZTISt13runtime_error")

        def err_ctor(eng, st, a, ins):
            # class internal_error : std::exception { std::string msg; }
            models.setstr(eng, st, a[0].add(8), eng.fresh_str(st, "message"))
        self.model(r"cpptrace::v1::microfmt::format<.*>\(", fmt)
        self.model(r"cpptrace::v1::detail::(assert_fail|panic)\(", afail)
        self.model(r"^cpptrace::v1::detail::internal_error::internal_error(<.*>)?\((?!cpptrace)", err_ctor)
        self.model(r"^cpptrace::v1::detail::log::(error|warn|info|debug)", lambda eng, st, a, ins: None)

    def sv(self, name, null=False, s=None):
        """string_view passed by value: (pointer, count) and its characters"""
        if null:
            return [NULL, 0], Str(), None
        s = self.str(name) if s is None else s
        o = self.eng.bytes_obj(self.st, name, s, nul=False)
        return [Ptr(o), s.len], s, o

    def sv_obj(self, name, null=False):
        a, s, o = self.sv(name, null)
        v = self.st.new_obj(name + ".view", 16, "input")
        self.put(Ptr(v, 0), 8, a[0])
        self.put(Ptr(v, 8), 8, a[1])
        return Ptr(v), s, o

    # ---- functions
    def fn(self, rx):
        fs = self.prog.find(rx)
        if not fs:
            raise Unsupported("function not found: " + rx)
        fs.sort(key=lambda f: f.name)
        return fs[0]

    def model(self, rx, f):
        models.M.extra.insert(0, (re.compile(rx), f))  # the spec's own come before the common ones
        models.M.cache.clear()
        self.eng.resolve_cache.clear()
        self.assumed.append(rx)

    def contract(self, rx, f, name, discharged=None):
        """callee replaced by its contract; `discharged` names the contract proof that establishes it.
        In the bounded refutation run a discharged contract is dropped and the body is executed."""
        if discharged and self.bounded and not self.keep:
            return
        self.eng.contracts.append(Contract(rx, f, name))
        if not discharged:
            self.assumed.append(name)

    def run(self, fn, args, st=None, target=True, expect=None):
        if isinstance(fn, str):
            fn = self.fn(fn)
        if target:
            self.targets.append(fn.dem)
        st = st or self.st
        args = list(args)
        fn.parse()
        if fn.params and "sret" in fn.params[0][2] and len(args) == len(fn.params) - 1:
            r = Ptr(self.eng.alloc_ty(st, fn.params[0][2]["sret"], "result", "input"))
            args.insert(0, r)
        else:
            r = None
        res = []
        self.cur = fn
        for k, s, v in self.eng.run_function(st, fn, args):
            res.append(Out(k, s, r if r is not None and k == "ret" else v))
        feas = False
        for o in res:
            if self.eng.smt.feasible(o.st):
                feas = True
                break
        self.covers.append((fn.dem, "an exit is reachable under the precondition", feas))
        return res

    def runall(self, seq, st=None):
        """sequence of calls: each step is a function(ctx, st) -> (fn, args); paths are followed independently"""
        outs = [Out("ret", st or self.st, None)]
        for step in seq:
            nxt = []
            for o in outs:
                if o.kind != "ret":
                    nxt.append(o)
                    continue
                f, a = step(o.st, o.val)
                nxt += self.run(f, a, o.st)
            outs = nxt
        return outs

    def normal(self, outs, may_throw=None):
        """normal returns; any other exit is an obligation failure unless may_throw(type) accepts it"""
        r = []
        for o in outs:
            if o.kind == "ret":
                r.append(o)
            else:
                ty = getattr(o.val, "ty", "?")
                if may_throw is not None and may_throw(str(ty)):
                    continue
                self.ensure(o, False, "no exception escapes (%s)" % ty)
        return r

    def ensure(self, o, goal, name):
        st = o.st if isinstance(o, Out) else o
        n = len(self.eng.obl)
        try:
            self.eng.oblige(st, "postcondition: " + name, goal)
        except engine.Infeasible:
            pass
        for ob in self.eng.obl[n:]:
            ob.fn = self.cur.dem if self.cur is not None else "lemma"
        self.n += 1

    def holds_str(self, o, a, b, name):
        """two string values are equal"""
        self.ensure(o, models.str_eq_goal(a, b), name)

    def feasible(self, st):
        return self.eng.smt.feasible(st)


class Events:
    """ghost record of what one iteration did; forgotten at the loop head"""
    def __init__(self, e=()):
        self.e = tuple(e)

    def add(self, *x):
        return Events(self.e + (x,))

    def havoc(self, eng, s, name):
        return Events()


def truth(v):
    """i1/i8/bool value as a formula"""
    if isinstance(v, bool) or (z3.is_expr(v) and z3.is_bool(v)):
        return v
    return Not(eqv(v, 0, v.size() if z3.is_expr(v) else 8))


def cases(c, o, cond):
    """the feasible cases of a formula on a path: [(state, True|False)]"""
    st = o.st if isinstance(o, Out) else o
    cond = simp(cond) if z3.is_expr(cond) else cond
    if isinstance(cond, bool):
        return [(st, cond)]
    d = c.eng.smt.decide(st, cond)
    if d is not None:
        return [(st, d)]
    r = []
    for v in (True, False):
        s = st.copy()
        try:
            s.assume(cond if v else Not(cond))
        except engine.Infeasible:
            continue
        r.append((s, v))
    return r


def witness(ctx, ob):
    """concrete input of a failed obligation, from the verifier's model"""
    m = getattr(ob, "model", None)
    if m is None:
        return None
    d = {}
    for name, v in ctx.inputs:
        try:
            if isinstance(v, Str):
                n = m.eval(bv(v.len, 64), model_completion=True).as_long()
                if n > 4096:
                    d[name] = "<%d bytes>" % n
                    continue
                bs = []
                for i in range(n):
                    x = v.at(i)
                    bs.append(x if isc(x) else m.eval(x, model_completion=True).as_long())
                d[name] = {"hex": bytes(bs).hex(), "text": bytes(bs).decode("latin1")}
            else:
                x = m.eval(v, model_completion=True) if z3.is_expr(v) else v
                d[name] = str(x)
        except Exception as e:
            d[name] = "?" + str(e)
    return d


def run_spec(sp, prog, secs):
    """-> plain dict with everything the driver reports"""
    t0 = time.time()
    res = {"name": sp.name, "status": "undecided", "note": None, "obligations": [], "targets": [], "inlined": [],
           "models": [], "assumed": [], "contracts": [], "loops": {}, "covers": [], "bounded": False}
    c = None
    try:
        c = Ctx(sp, prog, secs)
        sp.fn(c)
        collect(res, c)
        bad = [o for o in c.eng.obl if o.status == "failed"]
        unk = [o for o in c.eng.obl if o.status == "unknown"]
        if not c.eng.obl or c.n == 0:
            res["note"] = "vacuous: no obligation was generated"
        elif not all(x[2] for x in c.covers):
            res["note"] = "vacuous: the precondition admits no run of " + ", ".join(x[0] for x in c.covers if not x[2])
        elif not bad and not unk:
            res["status"] = "proved"
        elif [o for o in bad if not o.tainted]:
            res["status"] = "failed"
        else:
            res["note"] = "%d obligations not discharged (%s)" % (len(bad) + len(unk), ", ".join(sorted({o.name for o in bad + unk}))[:400])
            if bad:
                res["retry"] = True
    except Unsupported as e:
        if c:
            collect(res, c)
        res["note"] = "out of the verifier's reach: %s: %s" % (type(e).__name__, e)
        if c and [o for o in c.eng.obl if o.status == "failed" and not o.tainted]:
            res["status"] = "failed"
        elif c and [o for o in c.eng.obl if o.status == "failed"]:
            res["retry"] = True
    except Exception as e:
        if c:
            collect(res, c)
        res["note"] = "verifier error: %s" % traceback.format_exc()[-2200:]
    if res.pop("retry", False):
        # obligations failed only behind a loop invariant or a callee contract: look for a concrete refutation
        # by executing loops and callees themselves up to a bound
        try:
            c2 = Ctx(sp, prog, min(secs, 45), bounded=6)
            try:
                sp.fn(c2)
            except Unsupported as e:
                # a callee out of reach: keep the callees' contracts
                res["refutation"] = "stopped: %s" % e
                if not [o for o in c2.eng.obl if o.status == "failed" and not o.tainted]:
                    c2 = Ctx(sp, prog, min(secs, 45), bounded=6, keep=True)
                    try:
                        sp.fn(c2)
                    except Unsupported as e:
                        res["refutation"] = "stopped: %s" % e
            # with callees by contract, a failure is one of the caller against the contracts its callees are proved to meet
            bad = [o for o in c2.eng.obl if o.status == "failed" and (c2.keep or not o.tainted)]
            if bad:
                res["status"] = "failed"
                res["refutation"] = "bounded execution (6 iterations%s) violates: %s" % (", callees by contract" if c2.keep else "", bad[0].name)
                for o in bad[:5]:
                    res["obligations"].append(ob_dict(c2, o))
        except Exception:
            res["refutation"] = "error: " + traceback.format_exc()[-500:]
    res["secs"] = round(time.time() - t0, 2)
    return res


def ob_dict(c, o):
    d = {"fn": o.fn, "name": o.name, "status": o.status, "backend": o.backend, "secs": round(o.secs, 4), "line": o.line,
         "tainted": o.tainted}
    if o.status != "proved":
        d["detail"] = {k: (v if isinstance(v, (str, list, dict)) else str(v)) for k, v in (o.detail or {}).items()}
        d["loc"] = getattr(o, "loc", None)
        w = witness(c, o)
        if w:
            d["witness"] = w
    return d


def collect(res, c):
    res["obligations"] = [ob_dict(c, o) for o in c.eng.obl]
    res["targets"] = sorted(set(c.targets))
    res["inlined"] = sorted(c.eng.inlined)
    res["models"] = sorted(c.eng.calls_model)
    res["assumed"] = c.assumed
    res["contracts"] = sorted(c.eng.calls_contract)
    res["loops"] = {"%s/%s" % k: sorted(v) for k, v in c.eng.loops_done.items()}
    res["covers"] = c.covers
    res["solver_s"] = round(c.eng.smt.t, 2)
    res["queries"] = c.eng.smt.n
    res["paths"] = c.eng.paths
