"""Contract-based deductive verifier for the LLVM IR of the real sources.

For one function under contract the engine assumes the precondition over a fully
symbolic entry state, generates the verification conditions along every path of the
body by forward symbolic execution (strongest postcondition), cuts every loop at an
inductive invariant (templates, filtered to the inductive subset by Houdini) and
replaces every call to another function under contract by that contract.  Each
condition is discharged by z3 (cvc5 as second back end).
"""
import re
import time
import subprocess
import tempfile
import os
import z3
from . import ir
from .vals import *

sys_max = 1 << 62


class Fork(Exception):
    def __init__(self, cond):
        self.cond = cond


class Infeasible(Exception):
    pass


class Throw(Exception):
    """a C++ exception leaves the modelled callee"""

    def __init__(self, ty, ptr=None):
        self.ty, self.ptr = ty, ptr


class UnrollLimit(Unsupported):
    pass


class Budget(Unsupported):
    pass


# ------------------------------------------------------------------ memory contents
class Zero:
    def __repr__(self):
        return "ZERO"


ZERO = Zero()


class Cells:
    __slots__ = ("d", "lazy", "regions")

    def __init__(self, d=None, lazy=None, regions=None):
        self.d, self.lazy, self.regions = d or {}, lazy, regions or ()

    def copy(self):
        return Cells(dict(self.d), self.lazy, self.regions)

    def region(self, off):
        for i, (s, e, a) in enumerate(self.regions):
            if s <= off < e:
                return i
        for i, (s, e, a) in enumerate(self.regions):
            if off == e:
                return i
        return None


class Arr:
    __slots__ = ("es", "base", "ov", "fields", "n")

    def __init__(self, es, base, ov=(), fields=None, n=None):
        # fields: [(foff, w, ty-or-None)] leaf layout of one element
        self.es, self.base, self.ov, self.fields, self.n = es, base, ov, fields, n

    def with_ov(self, o):
        return Arr(self.es, self.base, self.ov + (o,), self.fields, self.n)


def int_bytes(val, w):
    """little-endian byte list of an integer value"""
    if isinstance(val, Zero):
        return [0] * w
    if isc(val):
        return [(int(val) >> (8 * i)) & 255 for i in range(w)]
    if z3.is_bool(val):
        val = bv(val, 8 * w)
    sz = val.size()
    if sz < 8 * w:
        val = z3.ZeroExt(8 * w - sz, val)
    return [simp(z3.Extract(8 * i + 7, 8 * i, val)) for i in range(w)]


def from_bytes(bs):
    if all(isc(b) for b in bs):
        return sum(int(b) << (8 * i) for i, b in enumerate(bs))
    if len(bs) == 1:
        return bs[0]
    # re-join adjacent extracts of one term
    e = z3.Concat(*[bv(b, 8) for b in reversed(bs)])
    return simp(e)


def is_intval(v):
    return isinstance(v, (int, bool, Zero)) or z3.is_expr(v)


# ------------------------------------------------------------------ states
class Frame:
    __slots__ = ("fn", "regs", "blk", "idx", "prev", "ret", "allocas", "loops")

    def __init__(self, fn):
        self.fn, self.regs, self.blk, self.idx, self.prev = fn, {}, None, 0, None
        self.ret, self.allocas, self.loops = None, [], {}

    def copy(self):
        f = Frame.__new__(Frame)
        f.fn, f.regs, f.blk, f.idx, f.prev, f.ret = self.fn, dict(self.regs), self.blk, self.idx, self.prev, self.ret
        f.allocas, f.loops = list(self.allocas), dict(self.loops)
        return f


class State:
    def __init__(self, eng):
        self.eng = eng
        self.pc = []
        self.facts = []
        self.mem = {}
        self.objs = {}
        self.frames = []
        self.owned = set()
        self.ghost = {}
        self.model = None
        self.steps = 0
        self.exc = []        # stack of in-flight/caught exceptions (type, ptr)
        self.taint = False   # path went through a havocked loop or a contract call
        self.note = []
        self.replay = ()

    def copy(self):
        s = State.__new__(State)
        s.replay = self.replay
        s.eng = self.eng
        s.pc, s.facts, s.mem, s.objs = list(self.pc), list(self.facts), dict(self.mem), dict(self.objs)
        s.frames, s.owned = list(self.frames), set()
        self.owned = set()
        s.ghost, s.model, s.steps, s.exc = dict(self.ghost), self.model, self.steps, list(self.exc)
        s.taint, s.note = self.taint, list(self.note)
        return s

    def top(self):
        f = self.frames[-1]
        if id(f) not in self.owned:
            f = f.copy()
            self.frames[-1] = f
            self.owned.add(id(f))
        return f

    # ---- path condition
    def assume(self, c):
        if c is True:
            return
        if c is False:
            raise Infeasible()
        if isinstance(c, Forall):
            self.facts.append(c)
            return
        if isinstance(c, (list, tuple)):
            for x in c:
                self.assume(x)
            return
        c = simp(c)
        if c is True:
            return
        if c is False:
            raise Infeasible()
        self.pc.append(c)
        if self.model is not None:
            try:
                if not z3.is_true(self.model.eval(c, model_completion=True)):
                    self.model = None
            except z3.Z3Exception:
                self.model = None

    def decide(self, cond):
        """truth of cond on this path; forks the path when both are possible"""
        if isinstance(cond, bool):
            return cond
        cond = simp(cond)
        if isinstance(cond, bool):
            return cond
        r = self.eng.smt.decide(self, cond)
        if r is None:
            raise Fork(cond)
        return r

    def must(self, cond):
        if isinstance(cond, bool):
            return cond
        cond = simp(cond)
        if isinstance(cond, bool):
            return cond
        return self.eng.smt.decide(self, cond) is True

    # ---- objects
    def new_obj(self, name, size, kind, content=None, tag=None):
        o = Obj(name, size, kind, tag)
        self.objs[o.id] = o
        self.mem[o.id] = content if content is not None else Cells()
        return o


# ------------------------------------------------------------------ SMT
class Smt:
    def __init__(self, log=None):
        self.s = z3.Solver()
        self.s.set("timeout", 300)
        self.back = {"z3": 0, "cvc5": 0, "z3-long": 0, "unknown": 0}
        self.last = "z3"
        self.cur = []
        self.t = 0.0
        self.n = 0
        self.argcache = {}
        self.keep = []
        self.deadline = None

    def _sync(self, pc):
        i = 0
        cur = self.cur
        m = min(len(cur), len(pc))
        while i < m and cur[i].eq(pc[i]):
            i += 1
        if i < len(cur):
            self.s.pop(len(cur) - i)
            del cur[i:]
        for c in pc[i:]:
            self.s.push()
            self.s.add(c)
            cur.append(c)

    def check(self, pc, extra, timeout=3000, want_model=False):
        self.n += 1
        t = time.time()
        if self.deadline and t > self.deadline:
            raise Budget("time budget")
        self._sync(pc)
        self.s.push()
        for e in extra:
            self.s.add(e)
        r = self.s.check()
        m = self.s.model() if r == z3.sat else None
        self.s.pop()
        self.last = "z3"
        if r == z3.unknown:
            s = z3.Solver()
            s.set("timeout", timeout)
            s.add(*pc)
            s.add(*extra)
            a = cvc5_int(s.to_smt2(), timeout)
            self.last = "cvc5"
            if a == "unsat":
                r = z3.unsat
            elif a == "sat" and not want_model:
                r = z3.sat
            else:
                r = s.check()
                m = s.model() if r == z3.sat else None
                self.last = "z3-long"
                if r == z3.unknown and a == "sat":
                    r = z3.sat
        self.back[self.last if r != z3.unknown else "unknown"] += 1
        dt = time.time() - t
        self.t += dt
        if dt > 1 and os.environ.get("DV_SLOW"):
            print("slow %.1f %s" % (dt, r), [str(e)[:300] for e in extra[-1:]], len(pc), len(extra))
        return r, m

    def decide(self, st, cond):
        """True / False when implied by the path condition, else None"""
        pos = neg = None
        if st.model is not None:
            v = st.model.eval(cond, model_completion=True)
            if z3.is_true(v):
                pos = True
            elif z3.is_false(v):
                neg = True
        ex = self.instances(st, [cond]) if st.facts else []
        if pos is None:
            r, m = self.check(st.pc, ex + [cond])
            if r == z3.unsat:
                return False
            pos = True
            if m is not None and neg is None and st.model is None:
                st.model = m
        if neg is None:
            r, m = self.check(st.pc, ex + [z3.Not(cond)])
            if r == z3.unsat:
                return True
        return None

    def feasible(self, st):
        if st.model is not None:
            return True
        ex = self.instances(st, []) if st.facts else []
        r, m = self.check(st.pc, ex)
        if m is not None:
            st.model = m
        return r != z3.unsat

    # ---- instantiation of quantified facts
    def uf_args(self, e):
        """set of (fname, arg ast) of unary UF applications over BV64 inside e"""
        k = e.get_id()
        r = self.argcache.get(k)
        if r is not None:
            return r[1]
        out = {}
        seen = set()
        st = [e]
        while st:
            x = st.pop()
            i = x.get_id()
            if i in seen:
                continue
            seen.add(i)
            if z3.is_app(x):
                d = x.decl()
                if d.kind() == z3.Z3_OP_UNINTERPRETED and d.arity() >= 1:
                    for a in x.children():
                        if z3.is_bv(a) and a.size() == 64:
                            out[(d.name(), a.get_id())] = (d.name(), a)
                st.extend(x.children())
        self.argcache[k] = (e, out)   # keep e alive so ids stay valid
        return out

    def instances(self, st, goals, rounds=2, limit=400):
        out = []
        done = set()
        pool = list(st.pc) + [g for g in goals if z3.is_expr(g)]
        idx = {}
        for _ in range(rounds):
            new = []
            for e in pool:
                for kk, (fn, a) in self.uf_args(e).items():
                    idx.setdefault(a.get_id(), (a, set()))[1].add(fn)
            for fi, f in enumerate(st.facts):
                for aid, (a, fns) in list(idx.items()):
                    if f.trig is not None and not (fns & f.trig):
                        continue
                    if (fi, aid) in done or len(done) > limit:
                        continue
                    done.add((fi, aid))
                    b = f.body(a)
                    if isinstance(b, bool):
                        if b is False:
                            new.append(z3.BoolVal(False))
                        continue
                    new.append(b)
            if not new:
                break
            out += new
            pool = new
        return out

    def prove(self, st, goal, timeout=20000):
        """-> (status, model, backend)   status: proved | failed | unknown"""
        if goal is True:
            return "proved", None, "simplify"
        if isinstance(goal, (list, tuple)):
            for g in goal:
                r = self.prove(st, g, timeout)
                if r[0] != "proved":
                    return r
            return "proved", None, "z3"
        extra = []
        if isinstance(goal, Forall):
            k = z3.FreshConst(z3.BitVecSort(64), "sk")
            g = goal.body(k)
            if g is True:
                return "proved", None, "simplify"
            goal = g
            # make the skolem constant an instantiation point
            probe = z3.Function("$pt", z3.BitVecSort(64), z3.BoolSort())(k)
            extra = [probe]
            if isinstance(goal, (list, tuple)):
                goal = And(*goal)
        if goal is False:
            neg = z3.BoolVal(True)
        else:
            g = simp(goal)
            if g is True:
                return "proved", None, "simplify"
            neg = z3.BoolVal(True) if g is False else z3.Not(g)
        t = time.time()
        inst = self.instances(st, [neg] + extra) if st.facts else []
        r, m = self.check(st.pc, inst + [neg], want_model=True)
        back = "z3" if self.last != "cvc5" else "cvc5"
        if r == z3.unknown:
            s = z3.Solver()
            s.set("timeout", timeout)
            s.add(*st.pc)
            s.add(*inst)
            s.add(neg)
            r = s.check()
            m = s.model() if r == z3.sat else None
            if r == z3.unknown:
                r2 = cvc5_check(s.to_smt2(), timeout)
                self.t += time.time() - t
                if r2 == "unsat":
                    return "proved", None, "cvc5"
                if r2 == "sat":
                    return "failed", None, "cvc5"
                return "unknown", None, "z3+cvc5"
        self.t += time.time() - t
        if r == z3.unsat:
            return "proved", None, back
        return "failed", m, back


def cvc5_int(smt2, timeout):
    """cvc5 (in process), bit vectors decided through integer arithmetic"""
    try:
        import cvc5
        tm = cvc5.TermManager()
        sv = cvc5.Solver(tm)
        sv.setOption("solve-bv-as-int", "sum")
        sv.setOption("tlimit-per", str(int(timeout)))
        p = cvc5.InputParser(sv)
        p.setStringInput(cvc5.InputLanguage.SMT_LIB_2_6, "(set-logic ALL)\n" + smt2, "q")
        sm = p.getSymbolManager()
        o = ""
        while True:
            c = p.nextCommand()
            if c.isNull():
                break
            o += c.invoke(sv, sm)
        o = o.strip().split("\n")[0]
        return o if o in ("sat", "unsat") else "unknown"
    except Exception:
        return "unknown"


def cvc5_check(smt2, timeout):
    with tempfile.NamedTemporaryFile("w", suffix=".smt2", delete=False) as f:
        f.write("(set-logic ALL)\n" + smt2)
    try:
        p = subprocess.run(["cvc5", "--tlimit=%d" % timeout, f.name], capture_output=True, text=True,
                           timeout=timeout / 1000 + 10)
        o = p.stdout.strip().split("\n")[0]
        return o if o in ("sat", "unsat") else "unknown"
    except Exception:
        return "unknown"
    finally:
        os.unlink(f.name)


# ------------------------------------------------------------------ program
class Program:
    def __init__(self, modules):
        self.modules = modules
        self.defs, self.decl = {}, {}
        for m in modules:
            for n, f in m.fns.items():
                if f.body is not None:
                    self.defs.setdefault(n, f)
                else:
                    self.decl.setdefault(n, f)

    def find(self, pat):
        """functions whose demangled name matches the regex"""
        r = re.compile(pat)
        return [f for f in self.defs.values() if r.search(f.dem)]

    def fn(self, name):
        f = self.defs.get(name)
        if f is None:
            for m in self.modules:
                if name in m.aliases:
                    return self.defs.get(m.aliases[name])
        return f

    def dem(self, name):
        for t in (self.defs, self.decl):
            if name in t:
                return t[name].dem
        return name

    def type(self, name):
        for m in self.modules:
            if name in m.types:
                return ir.Ty("named", name=name, mod=m)
        raise Unsupported("type " + name)


LEAF = re.compile(r"^class\.std::__cxx11::basic_string(\.\d+)?$|^class\.std::vector(\.\d+)?$|"
                  r"^class\.std::basic_string(\.\d+)?$|^class\.std::function(\.\d+)?$")


def flatten(ty, off=0, out=None):
    """leaf fields [(off, w, ty)] of a type; std::string / std::vector are leaves"""
    if out is None:
        out = []
    if ty.k == "named":
        if LEAF.match(ty.name):
            out.append((off, ty.size(), ty))
            return out
    t = ty.resolve()
    if t.k in ("struct", "packed"):
        for i in range(len(t.el)):
            o, ft = ty.field(i)
            flatten(ft, off + o, out)
    elif t.k == "arr":
        if t.n <= 64:
            for i in range(t.n):
                flatten(t.el, off + i * t.el.size(), out)
        else:
            out.append((off, t.size(), t))
    else:
        out.append((off, t.size(), t))
    return out


class Obligation:
    def __init__(self, fn, name, status, backend, secs, line, detail=None, tainted=False):
        self.fn, self.name, self.status, self.backend, self.secs = fn, name, status, backend, secs
        self.line, self.detail, self.tainted = line, detail, tainted


class LoopCtx:
    def __init__(self, depth, fn, header, body):
        self.depth, self.fn, self.header, self.body = depth, fn, header, body
        self.hstate = None
        self.inv = []
        self.measures = []


class Engine:
    def __init__(self, prog, models, contracts=(), opts=None):
        self.prog, self.models = prog, models
        self.contracts = list(contracts)
        self.smt = Smt()
        self.obl = []
        self.mute = 0
        self.fresh_n = 0
        self.globals = {}
        self.gobj = {}
        self.ginit = {}
        self.opts = {"unroll": 70, "max_paths": 4000, "max_steps": 400000, "deadline": None, "invs": True}
        self.opts.update(opts or {})
        self.current = None
        self.loopmode = {}
        self.div_hook = None        # quotients and remainders named by a contract
        self.by_invariant = []      # functions whose loops are never unrolled
        self.loop_templates = []
        self.cand_filter = None
        self.loop_steps = []      # contracts of one arbitrary iteration: f(eng, state at the loop head, state at the back edge, loop)
        self.loops_done = {}
        self.calls_contract = {}
        self.calls_model = {}
        self.inlined = {}
        self.resolve_cache = {}
        self.paths = 0
        self.deadline = None
        self.fail_models = []
        self.termination = True
        self.fr_log, self.fr_replay = [], []
        self.small = []

    # ---------------------------------------------------------- helpers
    def fresh_idx(self, key):
        """number for a new symbol; an instruction re-executed after a fork gets the same numbers again"""
        log, rep = self.fr_log, self.fr_replay
        i = len(log)
        if i < len(rep) and rep[i][0] == key:
            log.append(rep[i])
            return rep[i][1]
        self.fresh_n += 1
        log.append((key, self.fresh_n))
        return self.fresh_n

    def fresh(self, name, w):
        n = "%s!%d" % (name, self.fresh_idx((name, w)))
        if w == 1:
            return z3.Bool(n)
        return z3.BitVec(n, w)

    def fresh_fn(self, name, w=8):
        n = "%s!%d" % (name, self.fresh_idx((name, -w)))
        f = z3.Function(n, z3.BitVecSort(64), z3.BitVecSort(w))
        return f

    def fresh_str(self, st, name, maxlen=None):
        """arbitrary byte string; its length is bounded by SSIZE_MAX as for every std::string"""
        f = self.fresh_fn(name)
        ln = self.fresh(name + ".len", 64)
        st.assume(z3.ULT(ln, z3.BitVecVal(maxlen or (1 << 62), 64)))
        return Str.sym((f.name(),), ln, lambda k: f(bv(k, 64)))

    def bytes_obj(self, st, name, s, kind="input", nul=True):
        """memory object holding the characters of Str s"""
        n = Lin.of(s.len)
        size = (n + (1 if nul else 0)).val()
        o = st.new_obj(name, size, kind, Arr(1, lambda i, fo, w, ty, s=s: s.at(i), fields=[(0, 1, ir.I8)]))
        return o

    def where(self, st):
        if not st.frames:
            return None, None
        f = st.frames[-1]
        try:
            ins = f.fn.blocks[f.blk].ins[f.idx]
            return f.fn, ins.line
        except Exception:
            return f.fn, None

    def oblige(self, st, name, goal, kind="safety"):
        """verification condition: the goal must hold here"""
        if self.mute:
            if goal is not True:
                # continue under the assumption, as the full run will decide it
                if isinstance(goal, bool):
                    raise Infeasible()
                if not isinstance(goal, (Forall, list, tuple)):
                    st.assume(goal)
            return True
        t = time.time()
        status, model, be = self.smt.prove(st, goal)
        fn, line = self.where(st)
        o = Obligation(fn.dem if fn else "?", name, status, be, time.time() - t, line, None, st.taint)
        if status == "failed" and self.small and not isinstance(goal, Forall):
            g2 = goal if not isinstance(goal, (list, tuple)) else And(*[x for x in goal if not isinstance(x, Forall)])
            ng = z3.BoolVal(True) if g2 is False else (None if g2 is True else z3.Not(g2))
            if ng is not None:
                for lim in self.small:
                    try:
                        r, m2 = self.smt.check(st.pc, (self.smt.instances(st, [ng]) if st.facts else []) + [ng] + lim())
                        if m2 is not None:
                            model = m2
                            break
                    except Exception:
                        break
        if status != "proved":
            o.detail = self.describe(st, goal, model)
            o.model, o.state = model, st
            o.loc = "%s:%s" % (fn.mod.label if fn else "?", line)
        self.obl.append(o)
        if status != "proved":
            if goal is False:
                raise Infeasible()
            # go on as if it held: later obligations are reported independently
            try:
                if not isinstance(goal, (Forall, list, tuple)):
                    st.assume(goal)
                else:
                    for g in (goal if isinstance(goal, (list, tuple)) else [goal]):
                        st.assume(g)
            except Infeasible:
                raise
        return status == "proved"

    def describe(self, st, goal, model):
        d = {"goal": str(goal)[:600] if not isinstance(goal, Forall) else "forall " + goal.name,
             "stack": [f.fn.dem for f in st.frames][-6:]}
        if model is not None:
            try:
                d["model"] = {str(x): str(model[x])[:80] for x in list(model.decls())[:40]}
            except Exception:
                pass
        return d

    # ---------------------------------------------------------- globals
    def global_ptr(self, st, mod, name):
        if name in mod.fns or name in mod.aliases or self.prog.fn(name):
            if name not in mod.globals:
                return FnPtr(name)
        g = mod.globals.get(name)
        if g is not None and g[1] is None:
            for m in self.prog.modules:
                h = m.globals.get(name)
                if h is not None and h[1] is not None:
                    mod, g = m, h
                    break
        if g is None:
            return FnPtr(name)
        key = (mod.label if name.startswith(".") or g[2] and name.startswith("_ZL") else "", name)
        o = self.gobj.get(key)
        if o is None:
            ty, init, const = g
            o = Obj("@" + name, ty.size() if ty.resolve().k != "opaque" else 0, "const" if const else "global")
            self.gobj[key] = o
            self.ginit[o.id] = (mod, ty, init, const)
        if o.id not in st.mem:
            st.objs[o.id] = o
            mod, ty, init, const = self.ginit[o.id]
            hook = self.models.global_init(self, st, name, o, ty)
            if hook is not None:
                st.mem[o.id] = hook
            elif init is None:
                st.mem[o.id] = Cells()
            else:
                st.mem[o.id] = self.init_content(st, mod, ty, init)
        return Ptr(o)

    def init_content(self, st, mod, ty, init):
        t = ty.resolve()
        if t.k == "arr" or (t.k in ("struct", "packed") and len(t.el) == 1 and t.el[0].resolve().k == "arr"):
            if t.k != "arr":
                if init[0] == "agg":
                    init = init[1][0][1]
                t = t.el[0].resolve()
            el = t.el
            es = el.size()
            if init[0] == "cstr":
                data = init[1]
                return Arr(1, const_bytes(data), fields=[(0, 1, ir.I8)], n=len(data))
            if init[0] in ("zero", "undef"):
                return Arr(es, lambda i, fo, w, ty: zero_of(ty, w), fields=flatten(el), n=t.n)
            if init[0] == "agg":
                cells = []
                for (_, v) in init[1]:
                    c = Cells()
                    self.init_cells(st, mod, el, v, 0, c)
                    cells.append(c.d)
                return Arr(es, const_elems(cells, self), fields=flatten(el), n=t.n)
            raise Unsupported("global initialiser")
        c = Cells()
        self.init_cells(st, mod, ty, init, 0, c)
        return c

    def init_cells(self, st, mod, ty, v, off, c):
        t = ty.resolve()
        if v[0] == "bad":
            raise Unsupported("global initialiser: " + v[1])
        if v[0] in ("zero",):
            c.d[off] = (ty.size(), ZERO)
        elif v[0] == "undef":
            pass
        elif v[0] == "agg":
            for i, (et, ev) in enumerate(v[1]):
                o, _ = ty.field(i)
                self.init_cells(st, mod, et, ev, off + o, c)
        elif v[0] == "cstr":
            for i, b in enumerate(v[1]):
                c.d[off + i] = (1, b)
        else:
            c.d[off] = (t.size(), self.const(st, mod, ty, v))

    def const(self, st, mod, ty, v):
        k = v[0]
        if k == "int":
            t = ty.resolve()
            return bool(v[1] & 1) if t.n == 1 else v[1] & mask(t.n)
        if k == "null":
            return NULL
        if k == "global":
            return self.global_ptr(st, mod, v[1])
        if k == "undef":
            return self.undef(ty)
        if k == "zero":
            t = ty.resolve()
            if t.k == "int":
                return False if t.n == 1 else 0
            if t.k == "ptr":
                return NULL
            if t.k in ("struct", "packed"):
                return [self.const(st, mod, e, v) for e in t.el]
            return Opaque("zero")
        if k == "gep":
            b = self.const(st, mod, ir.PTR, v[2])
            return self.gep(st, b, v[1], [(t, self.const(st, mod, t, x)) for t, x in v[3]])
        if k == "cast":
            x = self.const(st, mod, v[2], v[3])
            if v[1] == "ptrtoint":
                return self.ptrtoint(x)
            if v[1] == "inttoptr":
                return self.inttoptr(x)
            return x
        if k == "agg":
            return [self.const(st, mod, t, x) for t, x in v[1]]
        if k == "fp":
            return Opaque("fp", v[1])
        if k == "cbin":
            a, b = self.const(st, mod, v[2], v[3]), self.const(st, mod, v[2], v[4])
            return self.binop(st, v[1], v[2].resolve().n, a, b, ())
        raise Unsupported("constant " + k)

    def undef(self, ty):
        t = ty.resolve()
        if t.k == "int":
            return self.fresh("undef", t.n)
        if t.k in ("struct", "packed"):
            return [self.undef(e) for e in t.el]
        return UNDEF

    # ---------------------------------------------------------- pointers
    def addr(self, o):
        if o.addr is None:
            o.addr = z3.BitVec("addr:%s#%d" % (o.name, o.id), 64)
            self.addr_objs = getattr(self, "addr_objs", {})
            self.addr_objs[o.addr.get_id()] = o
        return o.addr

    def ptrtoint(self, p):
        if isinstance(p, Ptr):
            if p.null:
                return p.off.val()
            return (p.off + Lin.of(self.addr(p.obj))).val()
        if isinstance(p, FnPtr):
            return z3.BitVec("fn:" + p.name, 64)
        if is_intval(p):
            return p
        raise Unsupported("ptrtoint of %r" % (p,))

    def inttoptr(self, v):
        l = Lin.of(v if isc(v) else v)
        hits = [(k, t, c) for k, (t, c) in l.t.items() if k in getattr(self, "addr_objs", {})]
        if len(hits) == 1 and hits[0][2] == 1:
            k, t, c = hits[0]
            o = self.addr_objs[k]
            return Ptr(o, l - Lin(0, {k: (t, 1)}))
        return Ptr(None, l)

    def gep(self, st, base, ty, idx):
        if isinstance(base, (FnPtr, Undef, Opaque, SymFn)):
            raise Unsupported("gep on %r" % (base,))
        off = base.off
        t0, i0 = idx[0]
        off = off + self.sext_lin(i0, t0).scale(ty.size())
        cur = ty
        for t, i in idx[1:]:
            r = cur.resolve()
            if r.k == "arr":
                off = off + self.sext_lin(i, t).scale(r.el.size())
                cur = r.el
            else:
                if not isc(i):
                    raise Unsupported("symbolic struct index")
                o, cur = cur.field(i)
                off = off + o
        return Ptr(base.obj, off)

    def sext_lin(self, v, ty):
        n = ty.resolve().n
        if isc(v):
            return Lin(sgn(int(v), n))
        if n < 64:
            v = z3.SignExt(64 - n, v)
        return Lin.of(v)

    def ptr_ok(self, st, p, w, what):
        """memory-safety obligation for an access of w bytes (w int or z3)"""
        if not isinstance(p, Ptr):
            if isinstance(p, (Undef,)):
                self.oblige(st, what + ": pointer is initialised", False)
            raise Unsupported("access through %r" % (p,))
        if p.null:
            self.oblige(st, what + ": pointer is not null", False)
            raise Infeasible()
        o = p.obj
        if o.id not in st.mem:
            raise Unsupported("object %r not in this state" % o)
        if st.mem[o.id] is None:
            self.oblige(st, what + ": object is alive (%s)" % re.sub(r"#.*", "", o.name), False)
            raise Infeasible()
        if o.size is None:
            return
        off = p.off.val()
        size = o.size
        if isc(off) and isc(w) and isc(size):
            ok = off + w <= size
        else:
            ok = And(ule(off, size), ule(w, Lin.of(size).__sub__(off).val() if not isc(size) or not isc(off) else size - off))
        c = st.mem[o.id]
        if not (isc(off) and isc(size)) and isinstance(c, Arr) and 1 < c.es < 256 and isc(w):
            # member r of element k of n elements: k < n suffices (and implies `ok`), without multiplications
            k, n = p.off.div(c.es), Lin.of(size).div(c.es)
            if k is not None and n is not None and n[1] == 0 and k[1] + w <= c.es:
                elem = And(ult(k[0].val(), n[0].val()), ule(n[0].val(), 1 << 55))
                if st.must(elem):
                    ok = elem
        if ok is not True:
            self.oblige(st, what + ": in bounds of " + re.sub(r"#.*", "", o.name), ok)

    # ---------------------------------------------------------- loads and stores
    def load(self, st, p, ty, what="load"):
        t = ty.resolve()
        w = t.size()
        if isinstance(p, Ptr) and p.obj is not None and p.obj.kind == "opaque":
            return self.opaque_load(st, p, ty)
        if t.k in ("struct", "packed"):
            return [self.load(st, p.add(t.field(i)[0]), t.field(i)[1], what) for i in range(len(t.el))]
        self.ptr_ok(st, p, w, what)
        v = self.raw_load(st, p, w, ty)
        return self.coerce(st, v, ty)

    def opaque_load(self, st, p, ty):
        raise Unsupported("load from opaque object %r" % p.obj)

    def coerce(self, st, v, ty):
        t = ty.resolve()
        if t.k == "ptr":
            if isinstance(v, Zero):
                return NULL
            if is_intval(v):
                return NULL if isc(v) and v == 0 else self.inttoptr(v)
            return v
        if t.k == "int":
            if isinstance(v, Zero):
                v = 0
            if isinstance(v, (Ptr, FnPtr)):
                v = self.ptrtoint(v)
            if isinstance(v, Undef):
                return self.fresh("uninit", t.n)
            if not is_intval(v):
                raise Unsupported("integer load of %r" % (v,))
            if t.n == 1:
                if isinstance(v, bool) or z3.is_bool(v):
                    return v
                if isc(v):
                    return bool(v & 1)
                return simp(z3.Extract(0, 0, v) == 1)
            if isinstance(v, bool):
                return int(v)
            if z3.is_expr(v) and z3.is_bool(v):
                return bv(v, t.n)
            if z3.is_expr(v) and v.size() != t.n:
                v = simp(z3.Extract(t.n - 1, 0, v)) if v.size() > t.n else simp(z3.ZeroExt(t.n - v.size(), v))
            return v
        if isinstance(v, Zero):
            return Opaque("zero")
        return v

    def raw_load(self, st, p, w, ty):
        o = p.obj
        c = st.mem[o.id]
        off = p.off.const()
        if isinstance(c, Arr):
            return self.arr_load(st, c, p.off, w, ty)
        if off is None:
            r = self.sym_region(st, c, p)
            if r is None:
                c = self.to_arr(st, o, c, p, w)
                return self.arr_load(st, c, p.off, w, ty)
            s, e, a = c.regions[r]
            return self.arr_load(st, a, p.off - s, w, ty)
        r = c.region(off) if c.regions else None
        if r is not None and off < c.regions[r][1]:
            s, e, a = c.regions[r]
            return self.arr_load(st, a, p.off - s, w, ty)
        h = c.d.get(off)
        if h is not None and h[0] == w:
            return h[1]
        # covering / assembling
        bs = []
        i = off
        while i < off + w:
            hit = None
            for co, (cw, cv) in c.d.items():
                if co <= i < co + cw:
                    hit = (co, cw, cv)
                    break
            if hit is None:
                break
            co, cw, cv = hit
            if isinstance(cv, Zero):
                bs.append(0)
                i += 1
                continue
            if isinstance(cv, Ptr) or isinstance(cv, FnPtr):
                cv = self.ptrtoint(cv)
            if not is_intval(cv):
                raise Unsupported("partial load of %r from %r" % (cv, o))
            b = int_bytes(cv, cw)
            take = min(co + cw, off + w) - i
            bs += b[i - co:i - co + take]
            i += take
        if i >= off + w:
            if isinstance(bs[0], int) and all(isc(b) and b == 0 for b in bs):
                return ZERO
            return from_bytes(bs)
        if bs:
            # partially initialised
            raise Unsupported("partially initialised load of %d bytes at %s+%d" % (w, o, off))
        if c.lazy:
            v = c.lazy(off, w, ty)
        elif LEAF.match(getattr(ty, "name", None) or ""):
            v = UNDEF
        else:
            v = self.undef_val(o, off, w, ty)
        self.raw_store(st, p, w, v)
        return v

    def undef_val(self, o, off, w, ty):
        t = ty.resolve()
        if t.k == "int":
            return self.fresh("uninit:%s+%d" % (o.name, off), 8 * w)
        return UNDEF

    def sym_region(self, st, c, p):
        if not c.regions:
            return None
        if len(c.regions) == 1 and not any(True for _ in c.d):
            return 0
        k = p.off.c
        r = c.region(k)
        return r

    def to_arr(self, st, o, c, p, w):
        """give an object an array view because it is indexed symbolically"""
        cos = [abs(sgn(co, 64)) for _, co in p.off.t.values()]
        import math
        g = 0
        for x in cos:
            g = math.gcd(g, x)
        g = max(1, g)
        if isc(o.size) and o.size is not None and o.size % g:
            g = 1
        lazy = c.lazy
        if c.d:
            # keep known cells as overlays
            arr = Arr(g, (lambda i, fo, w, ty: UNDEF), fields=None)
            for off, (cw, cv) in sorted(c.d.items()):
                if isinstance(cv, Zero):
                    if g == 1 or cw % g == 0:
                        arr = arr.with_ov(("bulk", Lin(off // g), cw // g, lambda i, fo, w, ty: zero_of(ty, w)))
                        continue
                    raise Unsupported("array view of zeroed cells")
                if is_intval(cv) and cw > g:
                    for j, b in enumerate(int_bytes(cv, cw)):
                        if g != 1:
                            raise Unsupported("array view")
                        arr = arr.with_ov(("one", Lin(off + j), 0, 1, b))
                else:
                    arr = arr.with_ov(("one", Lin(off // g), off % g, cw, cv))
        else:
            eng = self
            cache = {}

            def base(i, fo, w, ty):
                return eng.undef_val(o, 0, w, ty)
            arr = Arr(g, base, fields=None)
        st.mem[o.id] = arr
        return arr

    def arr_load(self, st, a, off, w, ty):
        if ty is not None and ty.resolve().k == "int" and w > 1 and a.es == 1:
            return from_bytes([self.arr_load(st, a, off + j, 1, ir.I8) for j in range(w)])
        d = off.div(a.es)
        if d is None:
            raise Unsupported("unaligned symbolic offset %r stride %d" % (off, a.es))
        idx, foff = d
        if a.fields is not None and ty is not None and is_int_ty(ty):
            # reading part of a wider integer field, or several narrow ones
            if not any(fo == foff and fw == w for fo, fw, _ in a.fields):
                return self.arr_load_bytes(st, a, idx, foff, w)
        conds = []
        res = None
        for o in reversed(a.ov):
            if o[0] == "one":
                _, i2, fo2, w2, v2 = o
                if fo2 + w2 <= foff or foff + w <= fo2:
                    continue
                dif = (idx - i2).const()
                if dif is not None and dif != 0:
                    continue
                if fo2 != foff or w2 != w:
                    c = True if dif == 0 else eqv(idx.val(), i2.val())
                    if not st.decide(c):
                        continue
                    if fo2 <= foff and foff + w <= fo2 + w2 and is_intval(v2):
                        res = from_bytes(int_bytes(v2, w2)[foff - fo2:foff - fo2 + w])
                        break
                    raise Unsupported("overlapping array access (%d bytes at %d+%r)" % (w, foff, idx))
                if dif == 0:
                    res = v2
                    break
                c = eqv(idx.val(), i2.val())
                if is_intval(v2) and not isinstance(v2, Zero):
                    c = simp(c)
                    if c is False:
                        continue
                    if c is True:
                        res = v2
                        break
                    conds.append((c, v2))
                    continue
                if st.decide(c):
                    res = v2
                    break
            else:
                _, lo, n, fn = o
                rel = (idx - lo)
                c = ult(rel.val(), n) if not (rel.const() is not None and isc(n)) else (sgn(rel.const(), 64) >= 0 and rel.const() < n)
                if st.decide(c):
                    res = fn(rel.val(), foff, w, ty)
                    break
        if res is None:
            iv = idx.val()
            res = a.base(iv, foff, w, ty)
        if conds:
            if not is_intval(res):
                for c, v in conds:
                    if st.decide(c):
                        return v
                return res
            r = bv(0 if isinstance(res, Zero) else res, 8 * w)
            for c, v in reversed(conds):
                r = z3.If(c, bv(v, 8 * w), r)
            return simp(r)
        return res

    def arr_byte(self, a, off, w=1):
        """an integer of an array as a term, without deciding which write it comes from (for use in goals)"""
        d = off.div(a.es)
        if d is None:
            raise Unsupported("unaligned symbolic offset %r stride %d" % (off, a.es))
        idx, foff = d
        ty = ir.Ty("int", 8 * w)

        def intval(v):
            if isinstance(v, (Ptr, FnPtr)) and w == 8:
                v = self.ptrtoint(v)
            return 0 if isinstance(v, Zero) else v if is_intval(v) else self.fresh("undef", 8 * w)
        sel = []
        res = None
        for o in reversed(a.ov):
            if o[0] == "one":
                _, i2, fo2, w2, v2 = o
                if foff + w <= fo2 or fo2 + w2 <= foff:
                    continue
                c = simp(eqv(idx.val(), i2.val()))
                if c is False:
                    continue
                if fo2 == foff and w2 == w:
                    v = intval(v2)
                elif fo2 <= foff and foff + w <= fo2 + w2:
                    if isinstance(v2, Zero):
                        v = 0
                    elif is_intval(v2):
                        v = from_bytes(int_bytes(v2, w2)[foff - fo2:foff - fo2 + w])
                    else:
                        raise Unsupported("byte view of %r" % (v2,))
                else:
                    raise Unsupported("overlapping array access (%d bytes at %d+%r)" % (w, foff, idx))
            else:
                _, lo, n, fn = o
                rel = idx - lo
                c = simp(ult(rel.val(), n))
                if c is False:
                    continue
                v = intval(fn(rel.val(), foff, w, ty))
            if c is True:
                res = v
                break
            sel.append((c, v))
        if res is None:
            res = intval(a.base(idx.val(), foff, w, ty))
        for c, v in reversed(sel):
            res = simp(z3.If(c, bv(v, 8 * w), bv(res, 8 * w)))
        return res

    def arr_load_bytes(self, st, a, idx, foff, w):
        bs = []
        i = foff
        while i < foff + w:
            hit = None
            for fo, fw, ft in a.fields:
                if fo <= i < fo + fw:
                    hit = (fo, fw, ft)
            if hit is None:
                raise Unsupported("load of padding")
            fo, fw, ft = hit
            v = self.arr_load(st, a, idx.scale(a.es) + fo, fw, ft)
            if isinstance(v, (Ptr, FnPtr)):
                v = self.ptrtoint(v)
            if not is_intval(v):
                raise Unsupported("byte view of %r" % (v,))
            b = int_bytes(v, fw)
            take = min(fo + fw, foff + w) - i
            bs += b[i - fo:i - fo + take]
            i += take
        return from_bytes(bs)

    def store(self, st, p, ty, v, what="store"):
        t = ty.resolve()
        w = t.size()
        if t.k in ("struct", "packed"):
            for i in range(len(t.el)):
                self.store(st, p.add(t.field(i)[0]), t.field(i)[1], v[i], what)
            return
        self.ptr_ok(st, p, w, what)
        if p.obj.kind == "const" or p.obj.kind == "strdata":
            if p.obj.kind == "strdata":
                self.models.strdata_store(self, st, p, v)
                return
            self.oblige(st, what + ": object is writable", False)
            raise Infeasible()
        if t.k == "int" and t.n == 1:
            v = int(v) if isinstance(v, bool) else bv(v, 8)
        self.raw_store(st, p, w, v)

    def raw_store(self, st, p, w, v):
        o = p.obj
        c = st.mem[o.id]
        off = p.off.const()
        if isinstance(c, Arr):
            st.mem[o.id] = self.arr_store(st, c, p.off, w, v)
            return
        if off is None:
            r = self.sym_region(st, c, p)
            if r is None:
                c = self.to_arr(st, o, c, p, w)
                st.mem[o.id] = self.arr_store(st, c, p.off, w, v)
                return
        else:
            r = c.region(off) if c.regions else None
            if r is not None and off >= c.regions[r][1]:
                r = None
        if r is not None:
            s, e, a = c.regions[r]
            rs = list(c.regions)
            rs[r] = (s, e, self.arr_store(st, a, p.off - s, w, v))
            st.mem[o.id] = Cells(c.d, c.lazy, tuple(rs))
            return
        c = c.copy()
        cut_cells(c.d, off, w, self)
        c.d[off] = (w, v)
        st.mem[o.id] = c

    def arr_store(self, st, a, off, w, v):
        if a.es == 1 and w > 1 and is_intval(v):
            for j, b in enumerate(int_bytes(v, w)):
                a = a.with_ov(("one", off + j, 0, 1, b))
            return a
        d = off.div(a.es)
        if d is None:
            raise Unsupported("unaligned symbolic store")
        idx, foff = d
        if a.fields is not None and not any(fo == foff and fw == w for fo, fw, _ in a.fields) and is_intval(v):
            # narrower or wider than a field
            for fo, fw, ft in a.fields:
                if fo <= foff and foff + w <= fo + fw and not (fo == foff and fw == w):
                    old = self.arr_load(st, a, idx.scale(a.es) + fo, fw, ft)
                    if not is_intval(old):
                        raise Unsupported("partial array store")
                    b = int_bytes(old, fw)
                    b[foff - fo:foff - fo + w] = int_bytes(v, w)
                    return a.with_ov(("one", idx, fo, fw, from_bytes(b)))
        return a.with_ov(("one", idx, foff, w, v))

    # ---------------------------------------------------------- block copies
    def memcpy(self, st, d, s, n, what="memcpy"):
        if isinstance(n, int) and n == 0:
            return
        if not isc(n):
            n = norm64(n)
        self.ptr_ok(st, s, n, what + " source")
        self.ptr_ok(st, d, n, what + " destination")
        if d.obj.kind in ("const",):
            self.oblige(st, what + ": object is writable", False)
        if d.obj.kind == "strdata":
            self.models.strdata_memcpy(self, st, d, s, n)
            return
        self.copy_raw(st, d, s, n)

    def view(self, st, p):
        """(container, offset within it, write-back)"""
        c = st.mem[p.obj.id]
        if isinstance(c, Arr):
            def wb(a):
                st.mem[p.obj.id] = a
            return c, p.off, wb
        k = p.off.const()
        r = self.sym_region(st, c, p) if k is None else (c.region(k) if c.regions else None)
        if r is not None and (k is None or k < c.regions[r][1]):
            s, e, a = c.regions[r]

            def wb(a, r=r, s=s, e=e):
                rs = list(c.regions)
                rs[r] = (s, e, a)
                st.mem[p.obj.id] = Cells(c.d, c.lazy, tuple(rs))
            return a, p.off - s, wb
        return c, p.off, None

    def copy_raw(self, st, d, s, n):
        sc, so, _ = self.view(st, s)
        dc, do, dwb = self.view(st, d)
        if isinstance(sc, Cells) and so.const() is None or (isinstance(sc, Cells) and not isc(n) and sc.d):
            sc = self.to_arr(st, s.obj, sc, Ptr(s.obj, Lin(0, {0: (None, 1)})), 1)
        if isinstance(dc, Cells) and (do.const() is None or not isc(n) or (n > 256 and isinstance(sc, Arr) and sc.es == 1)):
            dc = self.to_arr(st, d.obj, dc, Ptr(d.obj, Lin(0, {0: (None, 1)})), 1)

            def dwb(a):
                st.mem[d.obj.id] = a
        if isinstance(sc, Arr) and isinstance(dc, Arr) and sc.es == dc.es:
            es = sc.es
            sd, dd = so.div(es), do.div(es)
            nd = Lin.of(n).div(es)
            if sd and dd and nd and sd[1] == 0 and dd[1] == 0 and nd[1] == 0:
                if isc(n) and n <= 8 * es and es > 1:
                    pass
                else:
                    src, si = sc, sd[0]
                    eng = self

                    def fn(rel, fo, w, ty):
                        return eng.arr_load(st_box[0], src, (si + Lin.of(rel)).scale(es) + fo, w, ty)
                    st_box = [st]
                    fn2 = lambda rel, fo, w, ty: self.arr_load_any(src, (si + Lin.of(rel)).scale(es) + fo, w, ty)
                    dwb(dc.with_ov(("bulk", dd[0], nd[0].val(), fn2)))
                    return
        if not isc(n):
            raise Unsupported("memcpy of symbolic size between different layouts")
        # element-wise copy of leaves
        leaves = self.leaves(st, sc, so, n)
        dobj, doff = d.obj, d.off
        vals = []
        for (o, w, ty) in leaves:
            v = self.raw_load(st, s.add(o), w, ty)
            vals.append((o, w, v))
        # absent leaves become uninitialised: clear first
        if isinstance(dc, Cells) and do.const() is not None:
            c2 = st.mem[d.obj.id]
            if isinstance(c2, Cells):
                c2 = c2.copy()
                cut_cells(c2.d, doff.const(), n, self)
                st.mem[d.obj.id] = c2
        for o, w, v in vals:
            self.raw_store(st, d.add(o), w, v)

    def arr_load_any(self, a, off, w, ty):
        st = self.cur_state
        return self.arr_load(st, a, off, w, ty)

    def leaves(self, st, c, off, n):
        """[(relative offset, width, type)] of the data in [off, off+n)"""
        if isinstance(c, Cells):
            b = off.const()
            out = []
            for co, (cw, cv) in sorted(c.d.items()):
                if co + cw <= b or co >= b + n:
                    continue
                if co >= b and co + cw <= b + n:
                    out.append((co - b, cw, guess_ty(cw, cv)))
                else:
                    lo, hi = max(co, b), min(co + cw, b + n)
                    for j in range(lo, hi):
                        out.append((j - b, 1, ir.I8))
            for s, e, a in c.regions:
                if e <= b or s >= b + n:
                    continue
                lo, hi = max(s, b), min(e, b + n)
                if hi - lo > 8192:
                    raise Unsupported("copy of large region")
                for (o, w, ty) in self.leaves(st, a, Lin(lo - s), hi - lo):
                    out.append((lo - b + o, w, ty))
            return out
        d = off.div(c.es)
        if d is None:
            raise Unsupported("copy at unaligned offset")
        idx, foff = d
        out = []
        fl = c.fields
        if fl is None:
            fl = {}
            for o in c.ov:
                if o[0] == "one":
                    fl[(o[2], o[3])] = guess_ty(o[3], o[4])
            fl = [(a, b, t) for (a, b), t in fl.items()]
            if not fl:
                fl = [(0, c.es, ir.Ty("int", 8 * c.es))]
        if n > 65536:
            raise Unsupported("copy of %d bytes" % n)
        base = 0
        while base < n + foff:
            for fo, fw, ft in fl:
                rel = base + fo - foff
                if rel >= 0 and rel + fw <= n:
                    out.append((rel, fw, ft))
                elif rel + fw > 0 and rel < n and is_int_ty(ft):
                    for j in range(max(0, rel), min(n, rel + fw)):
                        out.append((j, 1, ir.I8))
            base += c.es
        return out

    def memset(self, st, p, byte, n):
        if isc(n) and n == 0:
            return
        self.ptr_ok(st, p, n, "memset")
        c, off, wb = self.view(st, p)
        if isinstance(c, Arr):
            d = off.div(c.es)
            nd = Lin.of(n).div(c.es)
            if d is None or nd is None or d[1] or nd[1]:
                raise Unsupported("memset alignment")
            if c.es == 1:
                wb(c.with_ov(("bulk", d[0], nd[0].val(), lambda i, fo, w, ty: byte)))
            elif isc(byte) and byte == 0:
                wb(c.with_ov(("bulk", d[0], nd[0].val(), lambda i, fo, w, ty: zero_of(ty, w))))
            else:
                raise Unsupported("memset pattern")
            return
        if not isc(n) or off.const() is None or not isc(byte):
            raise Unsupported("memset symbolic")
        c = st.mem[p.obj.id].copy()
        cut_cells(c.d, off.const(), n, self)
        if byte == 0:
            c.d[off.const()] = (n, ZERO)
        else:
            for j in range(n):
                c.d[off.const() + j] = (1, byte)
        rs = []
        b = off.const()
        for s, e, a in c.regions:
            if s >= b and e <= b + n and byte == 0:
                a = a.with_ov(("bulk", Lin(0), (e - s) // a.es, lambda i, fo, w, ty: zero_of(ty, w)))
            rs.append((s, e, a))
        c.regions = tuple(rs)
        st.mem[p.obj.id] = c

    # typed cell helpers used by models and contracts
    def get(self, st, p, w, ty=None):
        return self.raw_load(st, p, w, ty or ir.Ty("int", 8 * w))

    def put(self, st, p, w, v):
        self.raw_store(st, p, w, v)

    def alloc_ty(self, st, ty, name, kind="stack"):
        return st.new_obj(name, ty.size(), kind, self.blank(ty, name))

    def blank(self, ty, name):
        t = ty.resolve()
        if t.k == "arr":
            return self.blank_arr(t, name)
        c = Cells()
        regs = []
        self._regions(ty, 0, regs, name)
        c.regions = tuple(regs)
        return c

    def _regions(self, ty, off, regs, name):
        if ty.k == "named" and LEAF.match(ty.name):
            return
        t = ty.resolve()
        if t.k in ("struct", "packed"):
            union = ty.k == "named" and "union." in ty.name
            for i in range(len(t.el)):
                o, ft = ty.field(i)
                fr = ft.resolve()
                if union and len(t.el) == 2 and i == 1 and fr.k == "arr" and fr.el.resolve().k == "int" and fr.el.resolve().n == 8:
                    continue   # the room a union needs beyond the member its type is written with: plain cells
                self._regions(ft, off + o, regs, name)
        elif t.k == "arr" and t.n > 1 and not (t.el.resolve().k == "int" and t.size() <= 8 and False):
            if t.el.resolve().k == "int" and t.el.resolve().n == 8 and t.n <= 16 and not name.startswith("!"):
                return   # small padding / storage arrays: plain cells
            regs.append((off, off + t.size(), self.blank_arr(t, name)))

    def blank_arr(self, t, name):
        eng = self

        def base(i, fo, w, ty):
            if ty is not None and ty.resolve().k == "int":
                return eng.fresh("uninit:" + name, 8 * w)
            return UNDEF
        return Arr(t.el.size(), base, fields=flatten(t.el), n=t.n)

    # ---------------------------------------------------------- operands
    def val(self, st, v, ty):
        if v[0] == "reg":
            f = st.frames[-1]
            return f.regs[v[1]]
        return self.const(st, st.frames[-1].fn.mod, ty, v)

    def binop(self, st, op, n, a, b, fl):
        if isinstance(a, (Ptr, FnPtr)):
            a = self.ptrtoint(a)
        if isinstance(b, (Ptr, FnPtr)):
            b = self.ptrtoint(b)
        if isinstance(a, (Undef, Opaque)) or isinstance(b, (Undef, Opaque)):
            raise Unsupported("arithmetic on %r, %r" % (a, b))
        if n == 1:
            if op == "and":
                return simpb(And(a, b))
            if op == "or":
                return simpb(Or(a, b))
            if op == "xor":
                if isinstance(b, bool):
                    return Not(a) if b else a
                if isinstance(a, bool):
                    return Not(b) if a else b
                return simp(z3.Xor(a, b))
            a, b = bv(a, 1), bv(b, 1)
        if isc(a) and isc(b):
            m = mask(n)
            if op == "add":
                self.ovf(st, fl, n, sgn(a, n) + sgn(b, n))
                return (a + b) & m
            if op == "sub":
                self.ovf(st, fl, n, sgn(a, n) - sgn(b, n))
                return (a - b) & m
            if op == "mul":
                self.ovf(st, fl, n, sgn(a, n) * sgn(b, n))
                return (a * b) & m
            if op == "and":
                return a & b
            if op == "or":
                return a | b
            if op == "xor":
                return a ^ b
            if op in ("shl", "lshr", "ashr"):
                if b >= n:
                    self.oblige(st, "shift amount below the width", False)
                    raise Infeasible()
                if op == "shl":
                    return (a << b) & m
                if op == "lshr":
                    return a >> b
                return (sgn(a, n) >> b) & m
            if op in ("udiv", "urem", "sdiv", "srem"):
                if b == 0:
                    self.oblige(st, "no division by zero", False)
                    raise Infeasible()
                if op == "udiv":
                    return a // b
                if op == "urem":
                    return a % b
                x, y = sgn(a, n), sgn(b, n)
                q = abs(x) // abs(y)
                if (x < 0) != (y < 0):
                    q = -q
                if op == "sdiv":
                    return q & m
                return (x - q * y) & m
        if n == 64 and op in ("add", "sub"):
            if "nsw" in fl:
                self.nsw(st, op, n, a, b)
            la, lb = Lin.of(a), Lin.of(b)
            return (la + lb if op == "add" else la - lb).val()
        if n == 64 and op == "mul" and (isc(a) or isc(b)):
            if "nsw" in fl:
                self.nsw(st, op, n, a, b)
            x, k = (a, b) if isc(b) else (b, a)
            return Lin.of(x).scale(k).val()
        x, y = bv(a, n), bv(b, n)
        if op in ("add", "sub", "mul"):
            if "nsw" in fl:
                self.nsw(st, op, n, a, b)
            r = {"add": lambda: x + y, "sub": lambda: x - y, "mul": lambda: x * y}[op]()
            return simp(r)
        if op in ("and", "or", "xor"):
            return simp({"and": lambda: x & y, "or": lambda: x | y, "xor": lambda: x ^ y}[op]())
        if op in ("shl", "lshr", "ashr"):
            if not (isc(b) and b < n):
                self.oblige(st, "shift amount below the width", z3.ULT(y, n))
            return simp({"shl": lambda: x << y, "lshr": lambda: z3.LShR(x, y), "ashr": lambda: x >> y}[op]())
        if op in ("udiv", "urem", "sdiv", "srem"):
            if not isc(b):
                self.oblige(st, "no division by zero", y != 0)
            if self.div_hook is not None and op in ("udiv", "urem"):
                h = self.div_hook(st, op, x, y)
                if h is not None:
                    return h
            if op in ("sdiv", "srem") and n >= 32:
                g = z3.Not(z3.And(x == z3.BitVecVal(1 << (n - 1), n), y == z3.BitVecVal(mask(n), n)))
                if simp(g) is not True:
                    self.oblige(st, "no signed division overflow", g)
            if op == "sdiv" and isc(b) and n == 64 and sgn(b, 64) > 1:
                # pointer difference: exact division of a known multiple
                d = Lin.of(a).div(b)
                if d is not None and d[1] == 0 and "exact" in fl:
                    return d[0].val()
            r = {"udiv": lambda: z3.UDiv(x, y), "urem": lambda: z3.URem(x, y), "sdiv": lambda: x / y,
                 "srem": lambda: z3.SRem(x, y)}[op]()
            return simp(r)
        raise Unsupported("binop " + op)

    def ovf(self, st, fl, n, r):
        if "nsw" in fl and not (-(1 << (n - 1)) <= r < (1 << (n - 1))):
            self.oblige(st, "no signed overflow", False)
            raise Infeasible()

    def nsw(self, st, op, n, a, b):
        x, y = bv(a, n), bv(b, n)
        if n == 64 and op in ("add", "sub") and (self.is_ptrish(a) or self.is_ptrish(b)):
            return
        if op == "add":
            g = z3.And(z3.BVAddNoOverflow(x, y, True), z3.BVAddNoUnderflow(x, y))
        elif op == "sub":
            g = z3.And(z3.BVSubNoOverflow(x, y), z3.BVSubNoUnderflow(x, y, True))
        else:
            g = z3.And(z3.BVMulNoOverflow(x, y, True), z3.BVMulNoUnderflow(x, y))
        g = simp(g)
        if g is not True:
            self.oblige(st, "no signed overflow", g)

    def is_ptrish(self, v):
        if isc(v):
            return False
        ao = getattr(self, "addr_objs", {})
        return any(k in ao for k in Lin.of(v).t)

    def icmp(self, st, c, ty, a, b):
        if isinstance(a, (Ptr, FnPtr, SymFn)) or isinstance(b, (Ptr, FnPtr, SymFn)):
            return self.ptrcmp(st, c, a, b)
        if isinstance(a, (Undef, Opaque)) or isinstance(b, (Undef, Opaque)):
            raise Unsupported("comparison of %r and %r" % (a, b))
        n = ty.resolve().n
        if n == 1:
            if c == "eq":
                return simpb(Iff(a, b))
            if c == "ne":
                return simpb(Not(Iff(a, b)))
            a, b = bv(a, 1), bv(b, 1)
        if isc(a) and isc(b):
            if c in ("eq", "ne"):
                return (a == b) == (c == "eq")
            if c[0] == "s":
                a, b = sgn(a, n), sgn(b, n)
            return {"lt": a < b, "le": a <= b, "gt": a > b, "ge": a >= b}[c[1:]]
        if n == 64 and c in ("eq", "ne"):
            d = (Lin.of(a) - Lin.of(b)).const()
            if d is not None:
                return (d == 0) == (c == "eq")
        x, y = bv(a, n), bv(b, n)
        r = {"eq": lambda: x == y, "ne": lambda: x != y, "ult": lambda: z3.ULT(x, y), "ule": lambda: z3.ULE(x, y),
             "ugt": lambda: z3.UGT(x, y), "uge": lambda: z3.UGE(x, y), "slt": lambda: x < y, "sle": lambda: x <= y,
             "sgt": lambda: x > y, "sge": lambda: x >= y}[c]()
        return simp(r)

    def ptrcmp(self, st, c, a, b):
        if is_intval(a):
            a = self.inttoptr(a)
        if is_intval(b):
            b = self.inttoptr(b)
        if isinstance(a, SymFn) or isinstance(b, SymFn):
            if isinstance(a, SymFn) and isinstance(b, Ptr) and b.null:
                return a.null if c == "eq" else Not(a.null)
            if isinstance(b, SymFn) and isinstance(a, Ptr) and a.null:
                return b.null if c == "eq" else Not(b.null)
            raise Unsupported("function pointer comparison")
        if isinstance(a, FnPtr) or isinstance(b, FnPtr):
            same = isinstance(a, FnPtr) and isinstance(b, FnPtr) and a.name == b.name
            if c == "eq":
                return same
            if c == "ne":
                return not same
            raise Unsupported("function pointer order")
        if isinstance(a, (Undef, Opaque)) or isinstance(b, (Undef, Opaque)):
            raise Unsupported("comparison of %r and %r" % (a, b))
        if a.obj is b.obj:
            if c in ("eq", "ne"):
                d = (a.off - b.off).const()
                if d is not None:
                    return (d == 0) == (c == "eq")
            return self.icmp(st, c, ir.I64, a.off.val(), b.off.val())
        if c == "eq":
            return self.xobj_eq(st, a, b)
        if c == "ne":
            return Not(self.xobj_eq(st, a, b))
        raise Unsupported("order of pointers to different objects")

    def xobj_eq(self, st, a, b):
        for p, q in ((a, b), (b, a)):
            if p.null and p.off.const() == 0:
                return False
            if p.null:
                raise Unsupported("integer-valued pointer comparison")
        return False

    def truth(self, v):
        return v

    # ---------------------------------------------------------- calls
    def resolve_call(self, name):
        r = self.resolve_cache.get(name)
        if r is None:
            dem = self.prog.dem(name)
            r = ("none", None)
            for c in self.contracts:
                if c.matches(name, dem):
                    r = ("contract", c)
                    break
            else:
                m = self.models.lookup(name, dem)
                if m is not None:
                    r = ("model", m)
                else:
                    f = self.prog.fn(name)
                    if f is not None:
                        r = ("inline", f)
            self.resolve_cache[name] = r
        return r

    def call(self, st, ins, name, args):
        """returns ('val', v) or ('push', frame)"""
        kind, x = self.resolve_call(name)
        if kind == "contract":
            self.calls_contract[x.name] = self.calls_contract.get(x.name, 0) + 1
            v = x.call(self, st, args, ins)
            st.taint = True
            return ("val", v)
        if kind == "model":
            self.calls_model[self.prog.dem(name)] = self.calls_model.get(self.prog.dem(name), 0) + 1
            return ("val", x(self, st, args, ins))
        if kind == "inline":
            if len(st.frames) > 60 or sum(1 for fr in st.frames if fr.fn is x) > 24:
                raise Unsupported("recursion without contract: " + x.dem)
            self.inlined[x.dem] = self.inlined.get(x.dem, 0) + 1
            return ("push", x)
        raise Unsupported("no body, model or contract for " + self.prog.dem(name))

    def push(self, st, fn, args):
        fn.parse()
        if st.frames:
            st.top()
        f = Frame(fn)
        f.blk, f.idx = fn.order[0], 0
        if fn.vararg:
            f.regs["$va"] = args[len(fn.params):]
        for (ty, nm, at), v in zip(fn.params, args):
            if "byval" in at:
                o = self.alloc_ty(st, at["byval"], "byval")
                self.copy_raw(st, Ptr(o), v, at["byval"].size())
                f.allocas.append(o)
                v = Ptr(o)
            f.regs[nm] = v
        st.frames.append(f)
        st.owned.add(id(f))
        return f

    # ---------------------------------------------------------- exploration
    def explore(self, st, base_depth, stop=None):
        """run st until every path leaves the frame at base_depth (returns/throws) or hits `stop`.
        -> list of outcomes (kind, state, value)"""
        out = []
        work = [st]
        while work:
            s = work.pop()
            self.paths += 1
            if self.deadline and time.time() > self.deadline:
                raise Budget("time budget")
            if len(out) + len(work) > self.opts["max_paths"]:
                raise Budget("too many paths")
            try:
                r = self.run_path(s, base_depth, stop, work)
                if r is not None:
                    out.append(r)
            except Infeasible:
                pass
            except UnrollLimit:
                if not self.opts.get("cut") or self.mute:
                    raise
                self.cut_paths = getattr(self, "cut_paths", 0) + 1
        return out

    def run_path(self, st, base, stop, work):
        while True:
            st.steps += 1
            if st.steps > self.opts["max_steps"]:
                raise Budget("step budget")
            f = st.frames[-1]
            ins = f.fn.blocks[f.blk].ins[f.idx]
            op = ins.op
            snap = None
            if op not in CHEAP:
                snap = st.copy()
            self.cur_state = st
            outer = self.fr_log, self.fr_replay
            self.fr_log, self.fr_replay = [], st.replay
            st.replay = ()
            try:
                r = self.step(st, f, ins, base, stop)
            except Fork as fk:
                a = snap
                a.replay = tuple(self.fr_log)
                b = snap.copy()
                try:
                    b.assume(z3.Not(fk.cond))
                    work.append(b)
                except Infeasible:
                    pass
                a.assume(fk.cond)
                st = a
                if (st.steps & 63) == 0 and self.deadline and time.time() > self.deadline:
                    raise Budget("time budget")
                continue
            except Throw as ex:
                r = self.unwind(st, ex, base, stop)
            finally:
                self.fr_log, self.fr_replay = outer
            if r is not None:
                return r if r != "end" else None

    def unwind(self, st, ex, base, stop=None):
        """propagate an exception from the instruction at the top frame"""
        while True:
            f = st.top()
            ins = f.fn.blocks[f.blk].ins[f.idx]
            if ins.op == "invoke":
                st.exc.append((ex.ty, ex.ptr))
                f.regs["$exc"] = (ex.ty, ex.ptr)
                return self.goto(st, f, ins.a["unwind"], base, stop)
            self.kill_frame(st, f)
            st.frames.pop()
            if len(st.frames) <= base:
                return ("throw", st, ex)

    def kill_frame(self, st, f):
        for o in f.allocas:
            st.mem[o.id] = None

    def goto(self, st, f, target, base, stop):
        f.prev, f.blk, f.idx = f.blk, target, 0
        lps = f.fn.loops()
        # leaving loops resets their mode
        if f.loops:
            for h in list(f.loops):
                if target not in lps[h]:
                    del f.loops[h]
        if stop is not None and len(st.frames) == stop.depth and f.fn is stop.fn:
            if target == stop.header:
                return ("back", st, None)
            if target not in stop.body:
                return ("exit", st, None)
        if target in lps:
            return self.at_header(st, f, target, lps[target], base, stop)
        return None

    def at_header(self, st, f, h, body, base, stop):
        m = f.loops.get(h)
        if m is None:
            mode = self.loop_policy(st, f, h, body)
            if mode == "inv":
                return self.cut_loop(st, f, h, body, base)
            f.loops[h] = ("unroll", 0)
            return None
        if m[0] == "body":
            return ("back", st, None)
        if m[0] == "unroll":
            n = m[1] + 1
            lim = self.opts["unroll"] * (20 if self.opts.get("allow_long") else 1)
            if n > lim:
                raise UnrollLimit("loop in %s exceeds %d iterations" % (f.fn.dem, lim))
            f.loops[h] = ("unroll", n)
            return None
        # back edge of a loop cut at its invariant
        self.check_back(st, m[1])
        return "end"

    def loop_policy(self, st, f, h, body):
        key = (f.fn.name, h)
        pol = self.loopmode.get(key)
        if pol is not None:
            return pol
        if not self.opts["invs"]:
            pol = "unroll"
        elif any(r in f.fn.dem for r in self.by_invariant):
            pol = "inv"
        else:
            pol = "unroll" if self.trial(st, f, h, body) else "inv"
        self.loopmode[key] = pol
        return pol

    def trial(self, st, f, h, body):
        """does the loop leave by itself within the unrolling limit whatever its early exits do?"""
        s = st.copy()
        self.mute += 1
        outer = self.fr_log, self.fr_replay
        fr = s.top()
        fr.loops[h] = ("unroll", 0)
        depth = len(s.frames)
        fn = fr.fn
        limit = self.opts["unroll"]
        iters = 0
        steps = 0
        ok = False
        alts = []
        decided = forced = False    # this iteration: an exit test was decided / the next branch was forced by a fork
        try:
            while True:
                steps += 1
                if steps > 60000:
                    break
                fr = s.frames[-1]
                if len(s.frames) < depth or (len(s.frames) == depth and fr.blk not in body):
                    if alts:
                        # it left because of the outcome picked at an undecided test: try the other one
                        s, c2 = alts.pop()
                        s.assume(c2)
                        forced = True
                        continue
                    ok = True
                    break
                ins = fr.fn.blocks[fr.blk].ins[fr.idx]
                snap = s.copy()
                self.cur_state = s
                nf = len(s.frames)
                pb = (fr.blk, fr.idx)
                self.fr_log, self.fr_replay = [], s.replay
                s.replay = ()
                try:
                    r = self.step(s, fr, ins, 0, None)
                    if r is not None:
                        ok = r != "end"
                        break
                except Fork as fk:
                    # stay inside the loop if one side leaves it
                    s = snap
                    s.replay = tuple(self.fr_log)
                    g = s.frames[-1]
                    stay = None
                    if ins.op == "br" and len(s.frames) == depth and len(ins.a) == 3:
                        ina, inb = ins.a[1] in body, ins.a[2] in body
                        if ina and not inb:
                            stay = True
                        if inb and not ina:
                            stay = False
                        if stay is not None and g.blk == h:
                            break  # header test undecided: not concretely bounded
                    if stay is None and len(alts) < 40:
                        alts.append((s.copy(), z3.Not(fk.cond)))
                    s.assume(fk.cond if stay in (True, None) else z3.Not(fk.cond))
                    forced = True
                    continue
                except Throw as ex:
                    if self.unwind(s, ex, 0) is not None:
                        if alts:
                            s, c2 = alts.pop()
                            s.assume(c2)
                            forced = True
                            continue
                        ok = True
                        break
                if ins.op in ("br", "switch") and nf == depth:
                    if ins.op == "switch" or (len(ins.a) == 3 and (ins.a[1] in body) != (ins.a[2] in body)):
                        decided = decided or not forced
                    forced = False
                if len(s.frames) == depth and s.frames[-1].blk == h and s.frames[-1].idx == 0 and (pb[0] != h or len(body) == 1):
                    iters += 1
                    if iters > limit or not decided:
                        break    # an iteration none of whose exit tests is decided: not concretely bounded
                    decided = False
                    alts = []
        except (Infeasible,):
            ok = True
        except Unsupported:
            ok = False
        finally:
            self.mute -= 1
            self.fr_log, self.fr_replay = outer
        return ok

    # ---------------------------------------------------------- loop cutting
    def cells_of(self, st, ids):
        """leaf cells (objid, off, w, val) of the given objects with plain cell content"""
        for i in ids:
            c = st.mem.get(i)
            if isinstance(c, Cells):
                for off, (w, v) in c.d.items():
                    yield i, off, w, v

    def modified(self, s0, s1, known):
        """locations (over objects of s0) whose content differs between two states"""
        out = set()
        for i, c0 in s0.mem.items():
            c1 = s1.mem.get(i)
            if c0 is c1:
                continue
            if c0 is None:
                continue
            if c1 is None:
                out.add((i, "dead"))
                continue
            if isinstance(c0, Cells) and isinstance(c1, Cells):
                for off, (w, v) in c1.d.items():
                    h = c0.d.get(off)
                    if h is None or h[0] != w or not same_val(h[1], v):
                        out.add((i, off, w))
                for off, (w, v) in c0.d.items():
                    if off not in c1.d:
                        out.add((i, off, w, "gone"))
                for r0, r1 in zip(c0.regions, c1.regions):
                    if r0[2] is not r1[2]:
                        out.add((i, "region", r0[0]))
                if len(c0.regions) != len(c1.regions):
                    out.add((i, "all"))
            else:
                out.add((i, "all"))
        if s0.ghost != s1.ghost:
            for k in set(s0.ghost) | set(s1.ghost):
                if isinstance(k, str) and k.startswith("cache:") or isinstance(k, tuple) and k[0] == "strdata":
                    continue    # lazily materialised views of immutable facts
                a, b = s0.ghost.get(k), s1.ghost.get(k)
                if a is not b and not same_val(a, b):
                    out.add(("ghost", k))
        return out

    def havoc(self, s, mods, entry, steps):
        """replace the modified locations of s by arbitrary values; returns the list of havocked variables"""
        hv = []
        gone = set(m[0] for m in mods if m[0] != "ghost")
        for k in [k for k in s.ghost if isinstance(k, tuple) and k[0] == "strdata" and k[1] in gone]:
            # views of the characters of strings that change
            s.mem[s.ghost[k][0].id] = None
            del s.ghost[k]
        for m in sorted(mods, key=lambda m: (len(m) == 2 and m[1] == "dead", str(m))):
            if m[0] == "ghost":
                k = m[1]
                v = entry.ghost.get(k)
                s.ghost[k] = self.havoc_val(s, v, "ghost." + str(k), None, entry)
                hv.append(("ghost", k))
                continue
            i = m[0]
            o = s.objs[i]
            if len(m) == 4 and m[3] == "gone":
                continue
            if m[1] == "dead":
                # storage a container gave up: not to be used by later iterations (nor, conservatively, by the first)
                vs = [entry.mem[x[0]].d.get(x[1]) for x in mods if len(x) == 3 and isinstance(x[1], int) and isinstance(entry.mem.get(x[0]), Cells)]
                if not any(x is not None and type(x[1]).__name__ == "Vec" and x[1].obj is o for x in vs):
                    raise Unsupported("object freed inside a loop: %r" % o)
                s.mem[i] = None
                continue
            if m[1] == "all":
                c = s.mem[i]
                if not isinstance(c, Arr):
                    raise Unsupported("layout of %r changes inside a loop" % o)
                s.mem[i] = self.havoc_arr(s, c, o.name)
                hv.append((i, "all"))
                continue
            if m[1] == "region":
                c = s.mem[i].copy()
                rs = []
                for (a, b, arr) in c.regions:
                    if a == m[2]:
                        arr = self.havoc_arr(s, arr, o.name)
                    rs.append((a, b, arr))
                c.regions = tuple(rs)
                s.mem[i] = c
                hv.append((i, "region", m[2]))
                continue
            off, w = m[1], m[2]
            c0 = entry.mem[i]
            h = c0.d.get(off)
            c = s.mem[i].copy()
            if h is None or h[0] != w:
                # not initialised before the loop, or differently typed: unknown afterwards
                cut_cells(c.d, off, w, self)
                if h is not None:
                    # keep as unknown integer when it is an int cell
                    if is_intval(h[1]):
                        c.d[off] = (w, self.fresh("havoc:%s+%d" % (o.name, off), 8 * w))
                s.mem[i] = c
                continue
            v = h[1]
            nv = self.havoc_val(s, v, "%s+%d" % (o.name, off), steps.get((i, off)), entry)
            cut_cells(c.d, off, w, self)
            if nv is not UNDEF:
                c.d[off] = (w, nv)
            s.mem[i] = c
            hv.append((i, off, w))
        return hv

    def havoc_val(self, s, v, name, step, entry):
        if isinstance(v, bool) or (z3.is_expr(v) and z3.is_bool(v)):
            return self.fresh(name, 1)
        if isinstance(v, int):
            w = step[1] if step and step[0] == "w" else 64
            return self.fresh(name, w)
        if z3.is_expr(v):
            return self.fresh(name, v.size())
        if isinstance(v, Ptr):
            if step is not None and step[0] == "obj":
                raise Unsupported("pointer %s changes object inside a loop" % name)
            k = step[1] if step else 1
            n = self.fresh(name + ".n", 64)
            return Ptr(v.obj, v.off + Lin.of(n).scale(k))
        if isinstance(v, Str):
            return self.fresh_str(s, name)
        if isinstance(v, Vec):
            return self.models.havoc_vec(self, s, v, name)
        if isinstance(v, Undef):
            return UNDEF
        h = getattr(v, "havoc", None)
        if h is not None:
            return h(self, s, name)
        raise Unsupported("cannot havoc %r (%s)" % (v, name))

    def havoc_arr(self, s, c, name):
        fns = {}
        eng = self

        def base(i, fo, w, ty):
            if ty is not None and ty.resolve().k != "int":
                if LEAF.match(getattr(ty, "name", None) or "") and "basic_string" in ty.name:
                    k = ("s", fo)
                    if k not in fns:
                        fns[k] = (eng.fresh_fn(name + ".len", 64),
                                  z3.Function("%s.ch!%d" % (name, eng.fresh_n), z3.BitVecSort(64), z3.BitVecSort(64), z3.BitVecSort(8)))
                    lf, cf = fns[k]
                    ii = bv(i, 64)
                    return Str.sym((lf.name(), ii.get_id()), lf(ii), lambda q: cf(ii, bv(q, 64)))
                raise Unsupported("havocked array of %r" % ty)
            k = (fo, w)
            if k not in fns:
                fns[k] = eng.fresh_fn("%s.f%d" % (name, fo), 8 * w)
            return fns[k](bv(i, 64))
        return Arr(c.es, base, (), c.fields, c.n)

    def cut_loop(self, st, f, h, body, base):
        key = (f.fn.name, h)
        depth = len(st.frames)
        ctx = LoopCtx(depth, f.fn, h, body)
        entry = st.copy()
        mods, steps = set(), {}
        tok = self.loop_prefix(f)
        # 1. modified set: fixpoint of dry runs
        self.mute += 1
        try:
            for rnd in range(12):
                s = entry.copy()
                hv = self.havoc(s, mods, entry, steps)
                hs = s.copy()
                outs = self.explore_body(s, ctx)
                new = set()
                for kind, b, _ in outs:
                    if kind == "back":
                        new |= self.modified(hs, b, mods)
                        self.note_steps(entry, hs, b, steps)
                # storage created by the havoc itself (a vector's) is arbitrary anyway
                fresh = set(x for x in new if x not in mods and (x[0] == "ghost" or x[0] in entry.objs))
                if not fresh:
                    break
                mods |= fresh
            else:
                raise Unsupported("loop frame does not stabilise in " + f.fn.dem)
            # 2. candidate invariants
            cands = self.candidates(entry, mods, steps, ctx)
            keep = []
            s = entry.copy()
            hv = self.havoc(s, mods, entry, steps)
            for c in cands:
                try:
                    g = c[1](entry)
                except (Unsupported, Fork, KeyError, AttributeError, TypeError):
                    continue
                if self.smt.prove(entry, g, 3000)[0] == "proved":
                    keep.append(c)
            # 3. Houdini
            backs = []
            hs = None
            for rnd in range(40):
                s = entry.copy()
                self.havoc(s, mods, entry, steps)
                s.taint = True
                try:
                    for nm, fn in keep:
                        s.assume(fn(s))
                except Infeasible:
                    pass
                hs = s.copy()
                outs = self.explore_body(s, ctx)
                backs = [b for k, b, _ in outs if k == "back"]
                drop = []
                for c in keep:
                    for b in backs:
                        try:
                            g = c[1](b)
                        except (Unsupported, Fork, KeyError, AttributeError, TypeError):
                            drop.append(c)
                            break
                        if self.smt.prove(b, g, 5000)[0] != "proved":
                            drop.append(c)
                            break
                if not drop:
                    break
                ids = set(id(c) for c in drop)
                keep = [c for c in keep if id(c) not in ids]
            else:
                raise Unsupported("Houdini does not converge")
        finally:
            self.mute -= 1
        # 4. cut: continue from an arbitrary iteration
        for c in keep:
            self.oblige(entry, "loop invariant holds on entry: " + c[0], c[1](entry), "inv")
        s = st
        self.havoc(s, mods, entry, steps)
        s.taint = True
        for nm, fn in keep:
            s.assume(fn(s))
        ctx.inv, ctx.entry, ctx.mods = keep, entry, mods
        ctx.hstate = s.copy()
        ctx.measures = self.measures(entry, hs, backs, mods) if backs else ["none"]
        fr = s.top()
        fr.loops[h] = ("inv", ctx)
        self.loops_done.setdefault((f.fn.dem, h), set()).update(c[0] for c in keep)
        if self.termination and backs:
            fn_, line = self.where(s)
            ok = bool(ctx.measures)
            if not self.mute:
                self.obl.append(Obligation(f.fn.dem, "loop terminates (variant decreases and is bounded)",
                                           "proved" if ok else "unknown", "z3", 0.0, line,
                                           None if ok else {"goal": "no decreasing measure found"}, True))
        return None

    def loop_prefix(self, f):
        return f.fn.name

    def explore_body(self, s, ctx):
        fr = s.top()
        fr.loops[ctx.header] = ("body", ctx)
        stop = ctx
        return self.explore(s, ctx.depth - 1, stop)

    def note_steps(self, entry, hs, b, steps):
        """stride of modified pointers (gcd of constant steps)"""
        import math
        for i, c1 in b.mem.items():
            c0 = hs.mem.get(i)
            e0 = entry.mem.get(i)
            if not isinstance(c1, Cells) or not isinstance(c0, Cells) or not isinstance(e0, Cells) or c1 is c0:
                continue
            for off, (w, v) in c1.d.items():
                h = c0.d.get(off)
                e = e0.d.get(off)
                if h is None or e is None:
                    continue
                if isinstance(e[1], int) and not isinstance(e[1], bool):
                    steps.setdefault((i, off), ("w", 8 * w))
                if isinstance(v, Ptr) and isinstance(h[1], Ptr) and isinstance(e[1], Ptr):
                    if v.obj is not h[1].obj or e[1].obj is not h[1].obj:
                        steps[(i, off)] = ("obj", 0)
                        continue
                    d = (v.off - h[1].off)
                    g = steps.get((i, off), ("s", 0))[1]
                    if d.const() is not None:
                        g = math.gcd(g, abs(sgn(d.const(), 64)))
                    else:
                        for _, co in d.t.values():
                            g = math.gcd(g, abs(sgn(co, 64)))
                        g = math.gcd(g, abs(sgn(d.c, 64)))
                    if g:
                        steps[(i, off)] = ("s", g)

    def scalar(self, st, loc):
        """64-bit (or narrower) integer view of a havocked location, with its width"""
        i, off, w = loc
        c = st.mem[i]
        if not isinstance(c, Cells) or off not in c.d or c.d[off][0] != w:
            raise Unsupported("cell gone")
        v = c.d[off][1]
        if isinstance(v, Ptr):
            return v.off.val(), 64
        if isinstance(v, Zero):
            return 0, 8 * w
        if isinstance(v, bool) or (z3.is_expr(v) and z3.is_bool(v)):
            return bv(v, 8), 8
        if is_intval(v):
            return v, 8 * w
        if isinstance(v, Str):
            return v.len, 64
        if isinstance(v, Vec):
            return v.len, 64
        ln = getattr(v, "len", None)
        if ln is not None:
            return ln, 64
        raise Unsupported("not scalar")

    def candidates(self, entry, mods, steps, ctx):
        locs = [m for m in mods if len(m) == 3 and isinstance(m[1], int)]
        cands = []
        sc = []
        for l in sorted(locs):
            try:
                v, w = self.scalar(entry, l)
                sc.append((l, v, w))
            except (Unsupported, KeyError, AttributeError):
                pass
        # bound terms: unmodified scalar cells of the same frame, object sizes, string/vector lengths
        bounds = {}

        def addb(v, w):
            if isc(v):
                bounds.setdefault((w, v), (v, w))
            else:
                bounds.setdefault((w, v.get_id()), (v, w))
        fr = entry.frames[-1]
        for o in fr.allocas:
            c = entry.mem.get(o.id)
            if not isinstance(c, Cells):
                continue
            for off, (w, v) in c.d.items():
                self.bound_terms(entry, v, w, addb, 0)
        for k, v in entry.ghost.items():
            if k[:1] == "b" and k.startswith("bound:"):
                addb(v, 64)
        names = {}
        ml = set(mods)
        for n, (l, v0, w0) in enumerate(sc):
            pv = entry.mem[l[0]].d[l[1]][1]
            nm = "%s+%d" % (entry.objs[l[0]].name, l[1])
            cands.append(("%s >= entry" % nm, lambda s, l=l, v0=v0, w=w0: uge(self.scalar(s, l)[0], v0, w)))
            cands.append(("%s <= entry" % nm, lambda s, l=l, v0=v0, w=w0: ule(self.scalar(s, l)[0], v0, w)))
            if w0 == 32:
                cands.append(("%s >=s entry" % nm, lambda s, l=l, v0=v0, w=w0: bv(self.scalar(s, l)[0], w) >= bv(v0, w)))
                cands.append(("%s <=s entry" % nm, lambda s, l=l, v0=v0, w=w0: bv(self.scalar(s, l)[0], w) <= bv(v0, w)))
            if isinstance(pv, Ptr):
                if pv.obj is not None and pv.obj.size is not None:
                    sz = pv.obj.size
                    cands.append(("%s in object" % nm, lambda s, l=l, b=sz: ule(self.scalar(s, l)[0], b)))
                    stp = steps.get((l[0], l[1]))
                    if stp and stp[0] == "s" and stp[1] > 1:
                        # element count form: n <= (size - off0)/stride, and no wrap-around
                        k = stp[1]
                        d = (Lin.of(sz) - pv.off).div(k)
                        if d is not None:
                            bnd = d[0].val()

                            def g(s, l=l, k=k, o0=pv.off, bnd=bnd):
                                q = s.mem[l[0]].d[l[1]][1]
                                dd = (q.off - o0).div(k)
                                return ule(dd[0].val(), bnd)
                            cands.append(("%s element count" % nm, g))
                            bounds_k = [b for b in bounds.values() if b[1] == 64]
                            for (b, bw) in bounds_k:
                                db = (Lin.of(b) - pv.off).div(k)
                                if db is not None and db[1] == 0 and not isc(b):
                                    def g2(s, l=l, k=k, o0=pv.off, bnd=db[0].val()):
                                        q = s.mem[l[0]].d[l[1]][1]
                                        dd = (q.off - o0).div(k)
                                        return ule(dd[0].val(), bnd)
                                    cands.append(("%s element bound" % nm, g2))
            for (b, bw) in list(bounds.values())[:24]:
                if bw != w0:
                    continue
                cands.append(("%s <= %s" % (nm, short(b)), lambda s, l=l, b=b, w=w0: ule(self.scalar(s, l)[0], b, w)))
                if w0 == 32:
                    cands.append(("%s <=s %s" % (nm, short(b)), lambda s, l=l, b=b, w=w0: bv(self.scalar(s, l)[0], w) <= bv(b, w)))
                if not isc(b):
                    cands.append(("%s >= %s" % (nm, short(b)), lambda s, l=l, b=b, w=w0: uge(self.scalar(s, l)[0], b, w)))
        for a in range(len(sc)):
            for b in range(a + 1, len(sc)):
                (l1, v1, w1), (l2, v2, w2) = sc[a], sc[b]
                if w1 != w2:
                    continue
                cands.append(("lockstep %s %s" % (l1, l2), lambda s, l1=l1, l2=l2, v1=v1, v2=v2, w=w1:
                              bv(self.scalar(s, l1)[0], w) - bv(v1, w) == bv(self.scalar(s, l2)[0], w) - bv(v2, w)))
                cands.append(("sum %s %s" % (l1, l2), lambda s, l1=l1, l2=l2, v1=v1, v2=v2, w=w1:
                              bv(self.scalar(s, l1)[0], w) + bv(self.scalar(s, l2)[0], w) == bv(v1, w) + bv(v2, w)))
                cands.append(("%s <= %s" % (l1, l2), lambda s, l1=l1, l2=l2, w=w1: ule(self.scalar(s, l1)[0], self.scalar(s, l2)[0], w)))
                cands.append(("%s <= %s" % (l2, l1), lambda s, l1=l1, l2=l2, w=w1: ule(self.scalar(s, l2)[0], self.scalar(s, l1)[0], w)))
        if self.cand_filter is not None:
            cands = [x for x in cands if self.cand_filter(x[0], ctx)]
        for t in self.loop_templates:
            cands += t(self, entry, mods, steps, ctx) or []
        return cands

    def bound_terms(self, st, v, w, addb, d):
        if isinstance(v, Ptr):
            if v.obj is None:
                return
            if v.off.t or v.off.c:
                addb(v.off.val(), 64)
            sz = v.obj.size
            if sz is not None:
                addb(sz, 64)
            if d < 2 and v.off.const() is not None:
                c = st.mem.get(v.obj.id)
                if isinstance(c, Cells):
                    for off, (w2, v2) in list(c.d.items())[:12]:
                        self.bound_terms(st, v2, w2, addb, d + 1)
        elif isinstance(v, (Str, Vec)):
            addb(v.len, 64)
        elif is_intval(v) and not isinstance(v, (bool, Zero)) and not (z3.is_expr(v) and z3.is_bool(v)):
            if w in (4, 8):
                addb(v, 8 * w)

    def measures(self, entry, hs, backs, mods):
        """expressions that strictly move towards a bound on every back edge"""
        locs = [m for m in mods if len(m) == 3 and isinstance(m[1], int)]
        found = []
        for l in sorted(locs):
            try:
                h, w = self.scalar(hs, l)
            except Exception:
                continue
            up = dn = True
            for b in backs:
                try:
                    v, _ = self.scalar(b, l)
                except Exception:
                    up = dn = False
                    break
                if up and self.smt.prove(b, ugt(v, h, w), 3000)[0] != "proved":
                    up = False
                if dn and self.smt.prove(b, ugt(h, v, w), 3000)[0] != "proved":
                    dn = False
                if not up and not dn:
                    break
            if up or dn:
                found.append((l, "up" if up else "down"))
        for k in [m[1] for m in mods if m[0] == "ghost"]:
            h = hs.ghost.get(k)
            if not (is_intval(h) and not isinstance(h, (bool, Zero)) and (isinstance(h, int) or z3.is_bv(h))):
                continue
            for nm, f in (("up", ugt), ("down", lambda a, b, w=64: ugt(b, a, w))):
                if backs and all(is_intval(b.ghost.get(k)) and self.smt.prove(b, f(b.ghost[k], h), 3000)[0] == "proved" for b in backs):
                    found.append((("ghost", k), nm))
        # a strictly monotone machine integer cannot move for ever: < 2^64 iterations
        return found

    def check_back(self, st, ctx):
        for nm, fn in ctx.inv:
            try:
                g = fn(st)
            except (Unsupported, Fork):
                g = False
            self.oblige(st, "loop invariant is preserved: " + nm, g, "inv")
        for fn in self.loop_steps:
            fn(self, ctx.hstate, st, ctx)

    # ---------------------------------------------------------- one instruction
    def step(self, st, f, ins, base, stop):
        op, a = ins.op, ins.a
        f = st.top()
        R = f.regs
        if op == "load":
            p = self.val(st, a[1], ir.PTR)
            R[ins.res] = self.load(st, p, a[0])
        elif op == "store":
            v = self.val(st, a[1], a[0])
            p = self.val(st, a[2], ir.PTR)
            self.store(st, p, a[0], v)
        elif op == "alloca":
            o = self.alloc_ty(st, a[0], ins.res)
            if a[1] is not None:
                n = self.val(st, a[1][1], a[1][0])
                if n != 1:
                    raise Unsupported("dynamic alloca")
            f.allocas.append(o)
            R[ins.res] = Ptr(o)
        elif op == "getelementptr":
            b = self.val(st, a[1], ir.PTR)
            if not isinstance(b, Ptr):
                if is_intval(b):
                    b = self.inttoptr(b)
                else:
                    raise Unsupported("gep on %r" % (b,))
            R[ins.res] = self.gep(st, b, a[0], [(t, self.val(st, v, t)) for t, v in a[2]])
        elif op == "br":
            if len(a) == 1:
                return self.goto(st, f, a[0], base, stop)
            c = self.val(st, a[0], ir.I1)
            if isinstance(c, (Undef,)):
                c = self.fresh("undef", 1)
            return self.goto(st, f, a[1] if st.decide(c) else a[2], base, stop)
        elif op == "icmp":
            R[ins.res] = self.icmp(st, a[0], a[1], self.val(st, a[2], a[1]), self.val(st, a[3], a[1]))
        elif op in ("call", "invoke"):
            return self.do_call(st, f, ins, base, stop)
        elif op == "ret":
            v = None if a[1] is None else self.val(st, a[1], a[0])
            self.kill_frame(st, f)
            st.frames.pop()
            if len(st.frames) <= base:
                return ("ret", st, v)
            g = st.top()
            ci = g.fn.blocks[g.blk].ins[g.idx]
            if ci.res is not None:
                g.regs[ci.res] = v
            if ci.op == "invoke":
                return self.goto(st, g, ci.a["normal"], base, stop)
            g.idx += 1
            return None
        elif op in ir.BINOPS:
            if op[0] == "f":
                R[ins.res] = Opaque(op)
            else:
                R[ins.res] = self.binop(st, op, a[0].resolve().n, self.val(st, a[1], a[0]), self.val(st, a[2], a[0]), a[3])
        elif op in ("zext", "sext", "trunc"):
            R[ins.res] = self.intcast(op, self.val(st, a[1], a[0]), a[0].resolve().n, a[2].resolve().n)
        elif op == "phi":
            # all phis of the block together
            vals = []
            blk = f.fn.blocks[f.blk]
            i = f.idx
            while blk.ins[i].op == "phi":
                t, inc = blk.ins[i].a
                for v, b in inc:
                    if b == f.prev:
                        vals.append((blk.ins[i].res, self.val(st, v, t)))
                        break
                else:
                    raise Unsupported("phi")
                i += 1
            for r, v in vals:
                R[r] = v
            f.idx = i
            return None
        elif op == "select":
            c = self.val(st, a[0], ir.I1)
            x, y = self.val(st, a[2], a[1]), self.val(st, a[3], a[1])
            if isinstance(c, bool):
                R[ins.res] = x if c else y
            elif is_intval(x) and is_intval(y):
                t = a[1].resolve()
                if t.n == 1:
                    R[ins.res] = simpb(Or(And(c, x), And(Not(c), y)))
                else:
                    R[ins.res] = simp(z3.If(c, bv(x, t.n), bv(y, t.n)))
            else:
                R[ins.res] = x if st.decide(c) else y
        elif op == "switch":
            v = self.val(st, a[1], a[0])
            n = a[0].resolve().n
            for c, b in a[3]:
                if st.decide(eqv(v, c & mask(n), n)):
                    return self.goto(st, f, b, base, stop)
            return self.goto(st, f, a[2], base, stop)
        elif op == "ptrtoint":
            R[ins.res] = self.ptrtoint(self.val(st, a[1], a[0]))
        elif op == "inttoptr":
            R[ins.res] = self.inttoptr(self.val(st, a[1], a[0]))
        elif op in ("bitcast", "freeze"):
            R[ins.res] = self.val(st, a[1], a[0])
        elif op == "extractvalue":
            v = self.val(st, a[1], a[0])
            for i in a[2]:
                v = v[i]
            R[ins.res] = v
        elif op == "insertvalue":
            v = self.val(st, a[1], a[0])
            if not isinstance(v, list):
                v = self.undef(a[0])
            x = self.val(st, a[3], a[2])
            v = list(v)
            if len(a[4]) != 1:
                raise Unsupported("nested insertvalue")
            v[a[4][0]] = x
            R[ins.res] = v
        elif op == "landingpad":
            ty, ptr = R["$exc"]
            sel = None
            cleanup = False
            for cl in a[1]:
                if cl[0] == "cleanup":
                    cleanup = True
                elif cl[0] == "catch":
                    if cl[1][0] == "null":
                        sel = self.typeid("*")
                        break
                    nm = cl[1][1]
                    m = self.models.exc_match(self, st, ty, nm)
                    if st.decide(m):
                        sel = self.typeid(nm)
                        break
                else:
                    raise Unsupported("exception filter")
            if sel is None:
                if not cleanup:
                    # not ours: keep unwinding
                    st.exc.pop()
                    self.kill_frame(st, f)
                    st.frames.pop()
                    if len(st.frames) <= base:
                        return ("throw", st, Throw(ty, ptr))
                    return self.unwind(st, Throw(ty, ptr), base, stop)
                sel = 0
            R[ins.res] = [ptr if ptr is not None else Ptr(None, 1), sel]
            f.ret = None
        elif op == "resume":
            ty, ptr = st.exc.pop()
            self.kill_frame(st, f)
            st.frames.pop()
            if len(st.frames) <= base:
                return ("throw", st, Throw(ty, ptr))
            return self.unwind(st, Throw(ty, ptr), base, stop)
        elif op == "unreachable":
            raise Infeasible()
        elif op in ("fcmp",):
            R[ins.res] = self.fresh("fcmp", 1)
        elif op in ("uitofp", "sitofp", "fpext", "fptrunc", "fneg"):
            R[ins.res] = Opaque(op)
        elif op in ("fptoui", "fptosi"):
            R[ins.res] = self.fresh("fptoint", a[2].resolve().n)
        elif op == "fence":
            pass
        elif op == "atomicrmw":
            p = self.val(st, a[1], ir.PTR)
            old = self.load(st, p, a[2])
            x = self.val(st, a[3], a[2])
            n = a[2].resolve().n
            new = x if a[0] == "xchg" else self.binop(st, a[0], n, old, x, ())
            self.store(st, p, a[2], new)
            R[ins.res] = old
        else:
            raise Unsupported("instruction " + op)
        f.idx += 1
        return None

    def typeid(self, nm):
        t = self.globals.setdefault("$typeids", {})
        return t.setdefault(nm, len(t) + 1)

    def intcast(self, op, v, n, m):
        if isinstance(v, (Ptr, FnPtr)):
            v = self.ptrtoint(v)
        if isinstance(v, (Undef, Opaque)):
            raise Unsupported("cast of %r" % (v,))
        if op == "trunc":
            if m == 1:
                if isc(v):
                    return bool(v & 1)
                return simp(z3.Extract(0, 0, bv(v, n)) == 1)
            if isc(v):
                return v & mask(m)
            return simp(z3.Extract(m - 1, 0, v))
        if n == 1:
            if isinstance(v, bool):
                return (1 if op == "zext" else mask(m)) if v else 0
            return z3.If(v, z3.BitVecVal(1 if op == "zext" else mask(m), m), z3.BitVecVal(0, m))
        if isc(v):
            return v if op == "zext" else sgn(v, n) & mask(m)
        return simp(z3.ZeroExt(m - n, v) if op == "zext" else z3.SignExt(m - n, v))

    def do_call(self, st, f, ins, base, stop):
        a = ins.a
        fnv = a["fn"]
        if fnv[0] == "global":
            name = fnv[1]
        else:
            fv = self.val(st, fnv, ir.PTR)
            if isinstance(fv, FnPtr):
                name = fv.name
            elif isinstance(fv, SymFn):
                args = [self.val(st, v, t) for t, v, _ in a["args"]]
                r = fv.call(self, st, args, ins)
                return self.finish_call(st, ins, r, base, stop)
            else:
                raise Unsupported("indirect call through %r" % (fv,))
        args = [self.val(st, v, t) for t, v, _ in a["args"]]
        self.call_types = [(t, at) for t, _, at in a["args"]]
        kind, r = self.call(st, ins, name, args)
        if kind == "push":
            self.push(st, r, args)
            return None
        return self.finish_call(st, ins, r, base, stop)

    def finish_call(self, st, ins, r, base, stop):
        f = st.top()
        if ins.res is not None:
            if type(r) is int and ins.a["ret"].k == "int" and ins.a["ret"].n == 1:
                r = bool(r & 1)
            f.regs[ins.res] = r
        if ins.op == "invoke":
            return self.goto(st, f, ins.a["normal"], base, stop)
        f.idx += 1
        return None

    # ---------------------------------------------------------- run a function body from a prepared state
    def run_function(self, st, fn, args):
        depth = len(st.frames)
        self.push(st, fn, args)
        return self.explore(st, depth)

    def call_sync(self, st, fn, args):
        """run a function to completion inside a model; must yield exactly one normal outcome.
        (used for small leaf functions such as constructors)"""
        outs = self.run_function(st, fn, args)
        return outs


CHEAP = {"alloca", "getelementptr", "phi", "zext", "sext", "ptrtoint", "inttoptr", "bitcast", "extractvalue",
         "insertvalue", "unreachable", "ret", "resume", "fence"}


def const_bytes(data):
    def base(i, fo, w, ty):
        if isc(i):
            return data[i] if i < len(data) else 0
        e = z3.BitVecVal(0, 8)
        for j in range(len(data) - 1, -1, -1):
            e = z3.If(i == j, z3.BitVecVal(data[j], 8), e)
        return e
    return base


def const_elems(cells, eng):
    def base(i, fo, w, ty):
        if isc(i):
            return _elem(cells[i], fo, w) if i < len(cells) else UNDEF
        st = eng.cur_state
        vals = [_elem(c, fo, w) for c in cells]
        if all(is_intval(v) for v in vals):
            e = bv(0, 8 * w)
            for j in range(len(vals) - 1, -1, -1):
                e = z3.If(i == j, bv(0 if isinstance(vals[j], Zero) else vals[j], 8 * w), e)
            return e
        for j, v in enumerate(vals):
            if st.decide(i == j):
                return v
        return UNDEF
    return base


def _elem(d, fo, w):
    h = d.get(fo)
    if h is not None and h[0] == w:
        return h[1]
    for off, (cw, v) in d.items():
        if off <= fo and fo + w <= off + cw:
            if isinstance(v, Zero):
                return ZERO
            if is_intval(v):
                return from_bytes(int_bytes(v, cw)[fo - off:fo - off + w])
    return UNDEF


def zero_of(ty, w):
    if ty is not None and ty.resolve().k == "ptr":
        return NULL
    if ty is not None and LEAF.match(getattr(ty, "name", None) or ""):
        return UNDEF
    return 0


def is_int_ty(ty):
    return ty.resolve().k == "int"


def guess_ty(w, v):
    if isinstance(v, Str):
        return ir.Ty("named", name="class.std::__cxx11::basic_string", mod=_FakeMod(32))
    if isinstance(v, Vec):
        return ir.Ty("named", name="class.std::vector", mod=_FakeMod(24))
    if isinstance(v, (Ptr, FnPtr, Undef, Opaque, SymFn)):
        return ir.PTR if w == 8 else ir.Ty("opq")
    return ir.Ty("int", 8 * w)


class _FakeMod:
    def __init__(self, n):
        self.types = _FT(n)


class _FT:
    def __init__(self, n):
        self.n = n

    def get(self, k):
        return ir.Ty("arr", self.n, ir.I8)


def cut_cells(d, off, w, eng):
    """remove [off, off+w) from the cell map, keeping the uncovered parts of integer cells"""
    for co in list(d):
        cw, cv = d[co]
        if co + cw <= off or co >= off + w:
            continue
        del d[co]
        if co >= off and co + cw <= off + w:
            continue
        if isinstance(cv, Zero):
            if co < off:
                d[co] = (off - co, ZERO)
            if co + cw > off + w:
                d[off + w] = (co + cw - off - w, ZERO)
        elif is_intval(cv):
            b = int_bytes(cv, cw)
            for j in range(cw):
                if not (off <= co + j < off + w):
                    d[co + j] = (1, b[j])
        # other kinds (pointers, strings) are simply invalidated


def same_val(a, b):
    if a is b:
        return True
    if isinstance(a, (bool, int)) and isinstance(b, (bool, int)):
        return a == b
    if z3.is_expr(a) and z3.is_expr(b):
        return a.eq(b)
    if isinstance(a, Ptr) and isinstance(b, Ptr):
        return a.obj is b.obj and a.off.same(b.off)
    if isinstance(a, Str) and isinstance(b, Str):
        return a.same(b)
    if isinstance(a, Vec) and isinstance(b, Vec):
        return a.obj is b.obj and same_val(a.len, b.len)
    if isinstance(a, FnPtr) and isinstance(b, FnPtr):
        return a.name == b.name
    if isinstance(a, Zero) and isinstance(b, Zero):
        return True
    if isinstance(a, Undef) and isinstance(b, Undef):
        return True
    s = getattr(a, "same_as", None)
    if s is not None:
        return s(b)
    return False


def simpb(e):
    return e if isinstance(e, bool) else simp(e)


def uge(a, b, w=64):
    return ule(b, a, w)


def ugt(a, b, w=64):
    return ult(b, a, w)


def short(b):
    s = str(b)
    return s if len(s) < 40 else s[:37] + "..."
