"""Trusted contracts of libc / libstdc++ entry points (the dependencies the verifier does not look into).

Every model here is an assumption; the driver lists those a run actually used in the evidence file.
Everything not listed here is taken from its real definition (inlined from the IR).
"""
import re
import z3
from . import ir
from .vals import *
from .engine import (Engine, Throw, Fork, Infeasible, Arr, Cells, ZERO, Zero, is_intval, from_bytes, flatten,
                     LEAF, cut_cells, uge, ugt, simpb)

EXC_BASES = {
    "_ZTISt12out_of_range": ["_ZTISt11logic_error", "_ZTISt9exception"],
    "_ZTISt12length_error": ["_ZTISt11logic_error", "_ZTISt9exception"],
    "_ZTISt16invalid_argument": ["_ZTISt11logic_error", "_ZTISt9exception"],
    "_ZTISt11logic_error": ["_ZTISt9exception"],
    "_ZTISt13runtime_error": ["_ZTISt9exception"],
    "_ZTISt9bad_alloc": ["_ZTISt9exception"],
    "_ZTIN8cpptrace2v16detail14internal_errorE": ["_ZTISt9exception"],
}


class Models:
    def __init__(self):
        self.exact = {}
        self.pats = []
        self.ginit = {}
        self.cache = {}
        self.extra = []       # spec-provided (regex, fn), looked up first

    def lookup(self, name, dem):
        for r, f in self.extra:
            if r.search(dem):
                return f
        f = self.exact.get(name)
        if f is not None:
            return f
        if name in self.cache:
            return self.cache[name]
        f = None
        for r, g in self.pats:
            if r.search(dem):
                f = g
                break
        self.cache[name] = f
        return f

    def global_init(self, eng, st, name, o, ty):
        f = self.ginit.get(name)
        if f is not None:
            return f(eng, st, o, ty)
        snap = getattr(eng, "ctor_snapshot", None)
        if snap and name in snap:
            return snap[name](eng, st)
        return None

    def exc_match(self, eng, st, ty, catch):
        if ty == catch:
            return True
        if ty == "?":
            return eng.fresh("exc_is_" + catch, 1)
        if catch in EXC_BASES.get(ty, []):
            return True
        if catch == "_ZTISt9exception" and ty.startswith("_ZTIN8cpptrace"):
            return True
        return False

    def strdata_store(self, eng, st, p, v):
        """write of one character through a pointer into a std::string's buffer"""
        so, soff = p.obj.tag
        s = getstr(eng, st, Ptr(so, soff))
        k = p.off.val()
        n = s.len
        old = s
        if isc(k) and isc(n):
            chars = [old.at(i) for i in range(n)]
            chars[k] = v
            ns = mkstr_chars(eng, st, chars)
        else:
            eng.oblige(st, "string write in bounds", ult(k, n))
            f = eng.fresh_n
            eng.fresh_n += 1
            ns = Str.sym(("upd", eng.fresh_n), n, lambda q, k=k, v=v, old=old: Ite(eqv(q, k), v, old.at(q), 8))
        # the buffer object keeps its identity: content follows
        eng.put(st, Ptr(so, soff), 32, ns)
        st.mem[p.obj.id] = Arr(1, lambda i, fo, w, ty, s=ns: s.at(i), fields=[(0, 1, ir.I8)])
        st.ghost[("strdata", so.id, Lin.of(soff).key())] = (p.obj, ns)

    def strdata_memcpy(self, eng, st, d, s, n):
        raise Unsupported("memcpy into string buffer")

    def havoc_vec(self, eng, st, v, name):
        ln = eng.fresh(name + ".size", 64)
        st.assume(z3.ULT(ln, z3.BitVecVal(1 << 40, 64)))
        if v.obj is not None:
            c = st.mem[v.obj.id]
            a = eng.havoc_arr(st, c if isinstance(c, Arr) else Arr(v.es, None, (), None), name)
        else:
            a = eng.havoc_arr(st, Arr(v.es, None, (), None), name)
        o = st.new_obj(name + ".data", Lin.of(ln).scale(v.es).val(), "heap", a)
        return Vec(o, ln, v.es)


M = Models()


def model(*names):
    def d(f):
        for n in names:
            M.exact[n] = f
        return f
    return d


def pat(*rs):
    def d(f):
        for r in rs:
            M.pats.append((re.compile(r), f))
        return f
    return d


# ------------------------------------------------------------------ libc characters
def in_range(c, lo, hi, w=32):
    if isc(c):
        c = sgn(c, w)
        return lo <= c <= hi
    return And(bv(c, w) >= lo, bv(c, w) <= hi)


def ctype(pred):
    def f(eng, st, args, ins):
        c = args[0]
        # the C locale; the argument must be representable as unsigned char or EOF
        # (glibc also defines negative chars: tables start at -128)
        eng.oblige(st, "ctype argument in the domain glibc defines", in_range(c, -128, 255))
        r = simpb(pred(c))
        return (1 if r else 0) if isinstance(r, bool) else z3.If(r, z3.BitVecVal(1, 32), z3.BitVecVal(0, 32))
    return f


isdigit = lambda c: in_range(c, 48, 57)
isupper = lambda c: in_range(c, 65, 90)
islower = lambda c: in_range(c, 97, 122)
isalpha = lambda c: Or(isupper(c), islower(c))
isspace = lambda c: Or(eqv(c, 32, 32), in_range(c, 9, 13))
M.exact["isdigit"] = ctype(isdigit)
M.exact["isalpha"] = ctype(isalpha)
M.exact["isspace"] = ctype(isspace)
M.exact["isupper"] = ctype(isupper)
M.exact["islower"] = ctype(islower)
M.exact["isalnum"] = ctype(lambda c: Or(isalpha(c), isdigit(c)))
M.exact["isxdigit"] = ctype(lambda c: Or(isdigit(c), in_range(c, 65, 70), in_range(c, 97, 102)))


# ------------------------------------------------------------------ libc memory
def ty8(eng):
    return ir.I8


@model("llvm.memcpy.p0.p0.i64", "memcpy", "llvm.memmove.p0.p0.i64", "memmove")
def m_memcpy(eng, st, a, ins):
    n = a[2]
    if isc(n) and n == 0:
        return a[0]
    if not isc(n) and st.must(eqv(n, 0)):
        return a[0]
    if isinstance(a[0], Ptr) and isinstance(a[1], Ptr) and (a[0].null or a[1].null):
        eng.oblige(st, "memcpy: pointers are not null", eqv(n, 0))
        return a[0]
    eng.memcpy(st, a[0], a[1], n)
    return a[0]


@model("llvm.memset.p0.i64", "memset")
def m_memset(eng, st, a, ins):
    b = a[1]
    b = b & 255 if isc(b) else simp(z3.Extract(7, 0, b) if b.size() > 8 else b)
    eng.memset(st, a[0], b, a[2])
    return a[0]


def load8(eng, st, p, i):
    return eng.raw_load(st, p.add(i), 1, ir.I8)


@model("memcmp", "bcmp", "__builtin_memcmp")
def m_memcmp(eng, st, a, ins):
    p, q, n = a
    if not isc(n):
        n = norm64(n)
    if not isc(n) and st.must(eqv(n, 0)):
        n = 0
    if isc(n) and n == 0:
        return 0
    for x in (p, q):
        if x.null:
            eng.oblige(st, "memcmp: pointer is not null", eqv(n, 0))
            st.assume(eqv(n, 0))
            return 0
        eng.ptr_ok(st, x, n, "memcmp")
    r = eng.fresh("memcmp", 32)
    if isc(n) and n <= 64:
        cs = []
        for i in range(n):
            cs.append(eqv(load8(eng, st, p, i), load8(eng, st, q, i), 8))
        e = simpb(And(*cs))
        if isinstance(e, bool) and e:
            return 0
        # sign: first difference
        lt = False
        for i in range(n - 1, -1, -1):
            x, y = load8(eng, st, p, i), load8(eng, st, q, i)
            lt = Or(ult(x, y, 8), And(eqv(x, y, 8), lt))
        lt = simpb(lt)
        st.assume(Iff(e, r == 0))
        st.assume(Iff(lt, r < 0))
        return r
    # unbounded: equality <=> all bytes equal, witness of the first difference otherwise
    ps, qs = snapshot(eng, st, p), snapshot(eng, st, q)
    if st.decide(r == 0):
        st.assume(Forall(lambda k: Implies(ult(k, n), eqv(ps(k), qs(k), 8)), None, "memcmp equal"))
        for x in (p, q):
            if isc(x.obj.size) and x.obj.size <= 64:   # at most that many bytes: state them
                for i in range(x.obj.size):
                    st.assume(Implies(ult(i, n), eqv(ps(bv(i, 64)), qs(bv(i, 64)), 8)))
                break
        return 0
    d = eng.fresh("memcmp.diff", 64)
    st.assume(ult(d, n))
    st.assume(Not(eqv(ps(d), qs(d), 8)))
    st.assume(Forall(lambda k: Implies(ult(k, d), eqv(ps(k), qs(k), 8)), None, "memcmp prefix"))
    st.assume(Iff(ult(ps(d), qs(d), 8), r < 0))
    return r


def snapshot(eng, st, p):
    """function k -> byte at p+k in the memory as it is now"""
    c, off, _ = eng.view(st, p)
    if not isinstance(c, Arr):
        c = eng.to_arr(st, p.obj, c, Ptr(p.obj, Lin(0, {0: (None, 1)})), 1)
    s2 = st

    def at(k):
        return eng.arr_byte(c, off + Lin.of(k))
    return at


@model("strlen")
def m_strlen(eng, st, a, ins):
    p = a[0]
    if not isinstance(p, Ptr):
        raise Unsupported("strlen of %r" % (p,))
    if p.null:
        eng.oblige(st, "strlen: pointer is not null", False)
        raise Infeasible()
    t = p.obj.tag
    if p.obj.kind == "strdata" and p.off.const() == 0:
        s = getstr(eng, st, Ptr(*t))
        v = s.lit_value()
        if v is not None and b"\0" not in v:
            return len(v)
    if isinstance(t, tuple) and t and t[0] == "cstr" and p.off.const() == 0:
        return t[1]
    if isinstance(st.mem.get(p.obj.id), Arr) and p.off.const() is not None and isc(p.obj.size):
        a_ = st.mem[p.obj.id]
        for i in range(p.off.const(), min(p.obj.size, p.off.const() + 400)):
            b = eng.arr_load(st, a_, Lin(i), 1, ir.I8)
            if isc(b):
                if b == 0:
                    return i - p.off.const()
            else:
                if st.decide(eqv(b, 0, 8)):
                    return i - p.off.const()
        eng.oblige(st, "strlen: terminator within the object", False)
        raise Infeasible()
    # symbolic: first zero at or after p
    at = snapshot(eng, st, p)
    n = eng.fresh("strlen", 64)
    if isinstance(t, tuple) and t and t[0] == "cstr":
        # pointer into a C string of known length
        eng.oblige(st, "strlen: pointer within the C string", ule(p.off.val(), t[1]))
        return (Lin.of(t[1]) - p.off).val()
    rem = (Lin.of(p.obj.size) - p.off).val()
    if isinstance(t, tuple) and t and t[0] == "nulterm":
        # the last byte of the object is a terminator, so a scan from inside it stays inside
        eng.oblige(st, "strlen: pointer within the terminated object", ult(p.off.val(), p.obj.size))
        st.assume(ult(n, rem))
        st.assume(eqv(at(n), 0, 8))
        st.assume(Forall(lambda k: Implies(ult(k, n), Not(eqv(at(k), 0, 8))), None, "first terminator"))
        return n
    raise Unsupported("strlen of %r" % (p,))


@model("memchr", "__builtin_memchr")
def m_memchr(eng, st, a, ins):
    p, c, n = a
    c = c & 255 if isc(c) else simp(z3.Extract(7, 0, c))
    if not isc(n) and st.must(eqv(n, 0)):
        return NULL
    eng.ptr_ok(st, p, n, "memchr")
    at = snapshot(eng, st, p)
    d = eng.fresh("memchr", 64)
    if st.decide(eng.fresh("memchr.found", 1)):
        st.assume(ult(d, n))
        st.assume(eqv(at(d), c, 8))
        st.assume(Forall(lambda k: Implies(ult(k, d), Not(eqv(at(k), c, 8))), None, "memchr first"))
        return p.add(d)
    st.assume(Forall(lambda k: Implies(ult(k, n), Not(eqv(at(k), c, 8))), None, "memchr none"))
    return NULL


# ------------------------------------------------------------------ intrinsics
def nop(eng, st, a, ins):
    return None


for n in ("llvm.lifetime.start.p0", "llvm.lifetime.end.p0", "llvm.dbg.declare", "llvm.dbg.value",
          "llvm.experimental.noalias.scope.decl", "llvm.stackrestore.p0", "llvm.va_end", "llvm.va_end.p0"):
    M.exact[n] = nop


@model("llvm.eh.typeid.for", "llvm.eh.typeid.for.p0")
def m_typeid(eng, st, a, ins):
    p = a[0]
    nm = p.name if isinstance(p, FnPtr) else p.obj.name.lstrip("@")
    return eng.typeid(nm)


@model("__cxa_begin_catch")
def m_begin_catch(eng, st, a, ins):
    ty, ptr = st.exc[-1]
    return ptr if ptr is not None else a[0]


@model("__cxa_end_catch")
def m_end_catch(eng, st, a, ins):
    if st.exc:
        st.exc.pop()
    return None


@pat(r"std::current_exception\(\)$")
def m_current_exception(eng, st, a, ins):
    # the pointer is only passed on or destroyed by the code under contract
    eng.put(st, a[0], 8, bv(1, 64))


@pat(r"std::__exception_ptr::exception_ptr::~exception_ptr\(\)$")
def m_exception_ptr_dtor(eng, st, a, ins):
    return None


@model("__cxa_rethrow")
def m_rethrow(eng, st, a, ins):
    ty, ptr = st.exc.pop() if st.exc else ("?", None)
    raise Throw(ty, ptr)


@model("__cxa_allocate_exception")
def m_alloc_exc(eng, st, a, ins):
    return Ptr(st.new_obj("exception", a[0], "heap"))


@model("__cxa_free_exception")
def m_free_exc(eng, st, a, ins):
    return None


@model("__cxa_throw")
def m_throw(eng, st, a, ins):
    p = a[1]
    raise Throw(p.name if isinstance(p, FnPtr) else p.obj.name.lstrip("@"), a[0])


class Terminate(Throw):
    pass


@model("__clang_call_terminate", "_ZSt9terminatev", "abort", "__cxa_call_unexpected")
def m_terminate(eng, st, a, ins):
    eng.oblige(st, "std::terminate / abort is not reached", False)
    raise Infeasible()


@model("__cxa_guard_acquire")
def m_guard(eng, st, a, ins):
    return 0 if st.ghost.get(("guard", a[0].obj.id)) else 1


@model("__cxa_guard_release")
def m_guardr(eng, st, a, ins):
    st.ghost[("guard", a[0].obj.id)] = True


M.exact["__cxa_guard_abort"] = nop
M.exact["__cxa_atexit"] = lambda eng, st, a, ins: 0
M.exact["__cxa_thread_atexit"] = lambda eng, st, a, ins: 0


def exc_ctor(eng, st, a, ins):
    return None


pat(r"^std::(runtime_error|logic_error|out_of_range|invalid_argument|length_error|exception|bad_alloc)::~?\w+\(")(exc_ctor)
pat(r"^std::__exception_ptr::exception_ptr::")(lambda eng, st, a, ins: None)


def throwing(ti):
    def f(eng, st, a, ins):
        raise Throw(ti, None)
    return f


pat(r"^std::__throw_out_of_range(_fmt)?\(")(throwing("_ZTISt12out_of_range"))
pat(r"^std::__throw_length_error\(")(throwing("_ZTISt12length_error"))
pat(r"^std::__throw_logic_error\(")(throwing("_ZTISt11logic_error"))
pat(r"^std::__throw_bad_function_call\(")(throwing("_ZTISt17bad_function_call"))
pat(r"^std::__throw_bad_array_new_length\(")(throwing("_ZTISt20bad_array_new_length"))
pat(r"^std::__throw_bad_alloc\(")(throwing("_ZTISt9bad_alloc"))


@model("llvm.ctlz.i64")
def m_ctlz(eng, st, a, ins):
    v = a[0]
    if isc(v):
        return 64 - v.bit_length()
    e = z3.BitVecVal(64, 64)
    for i in range(64):
        e = z3.If(z3.Extract(i, i, v) == 1, z3.BitVecVal(63 - i, 64), e)
    return e


@model("llvm.umul.with.overflow.i64")
def m_umulo(eng, st, a, ins):
    x, y = a
    if isc(x) and isc(y):
        return [(x * y) & M64, x * y > M64]
    r = Lin.of(x).scale(y).val() if isc(y) else (Lin.of(y).scale(x).val() if isc(x) else bv(x, 64) * bv(y, 64))
    o = Not(z3.BVMulNoOverflow(bv(x, 64), bv(y, 64), False))
    return [r, simpb(o)]


@model("llvm.uadd.with.overflow.i64")
def m_uaddo(eng, st, a, ins):
    x, y = a
    r = (Lin.of(x) + Lin.of(y)).val()
    return [r, simpb(ult(r, x))]


# ------------------------------------------------------------------ heap
pat(r"^llvm\.is\.constant\.")(lambda eng, st, a, ins: False)


@model("_Znwm", "_Znam", "malloc")
def m_new(eng, st, a, ins):
    n = norm64(a[0])
    return Ptr(st.new_obj("heap", n, "heap"))


@model("_ZnwmRKSt9nothrow_t", "_ZnamRKSt9nothrow_t")
def m_new_nt(eng, st, a, ins):
    return m_new(eng, st, a, ins)


@model("_ZdlPv", "_ZdaPv", "free", "_ZdlPvm", "_ZdaPvm")
def m_delete(eng, st, a, ins):
    p = a[0]
    if isinstance(p, Ptr) and p.null and p.off.const() == 0:
        return None
    if not isinstance(p, Ptr) or p.obj is None:
        raise Unsupported("delete of %r" % (p,))
    if p.obj.kind != "heap":
        eng.oblige(st, "delete: pointer comes from the heap", False)
        raise Infeasible()
    if st.mem.get(p.obj.id) is None:
        eng.oblige(st, "delete: object not freed twice", False)
        raise Infeasible()
    if p.off.const() != 0:
        eng.oblige(st, "delete: pointer to the start of the object", eqv(p.off.val(), 0))
    st.mem[p.obj.id] = None
    st.ghost[("freed", p.obj.id)] = True
    return None


# ------------------------------------------------------------------ std::string
def getstr(eng, st, p):
    v = eng.raw_load(st, p, 32, STRTY)
    if isinstance(v, Str):
        return v
    if isinstance(v, Undef):
        eng.oblige(st, "std::string object is alive", False)
        raise Infeasible()
    raise Unsupported("not a string: %r" % (v,))


class _M32:
    def __init__(self):
        self.types = {"class.std::__cxx11::basic_string": ir.Ty("arr", 32, ir.I8)}


STRTY = ir.Ty("named", name="class.std::__cxx11::basic_string", mod=_M32())


def setstr(eng, st, p, s):
    kill_data(eng, st, p)
    eng.put(st, p, 32, s)


def kill_data(eng, st, p):
    k = ("strdata", p.obj.id, p.off.key())
    d = st.ghost.get(k)
    if d is not None:
        st.mem[d[0].id] = None
        del st.ghost[k]


def strdata(eng, st, p):
    """pointer to the character buffer of the string object at p"""
    s = getstr(eng, st, p)
    k = ("strdata", p.obj.id, p.off.key())
    d = st.ghost.get(k)
    if d is not None and st.mem.get(d[0].id) is not None:
        return Ptr(d[0])
    o = eng.bytes_obj(st, "strdata:" + p.obj.name, s, "strdata")
    o.tag = (p.obj, p.off)
    st.ghost[k] = (o, s)
    return Ptr(o)


def mkstr_chars(eng, st, chars):
    if all(isc(c) for c in chars):
        return Str.lit(bytes(int(c) & 255 for c in chars))
    n = len(chars)
    cs = list(chars)

    def at(k):
        if isc(k):
            return cs[k] if 0 <= k < n else 0
        e = z3.BitVecVal(0, 8)
        for i in range(n - 1, -1, -1):
            e = z3.If(k == i, bv(cs[i], 8), e)
        return e
    return Str.sym(("chars", tuple(c if isc(c) else c.get_id() for c in cs)), n, at)


def substr(eng, st, s, pos, n):
    """s[pos, pos+n), caller guarantees pos+n <= len"""
    if isc(n) and n == 0:
        return EMPTY
    L = Lin.of(s.len)
    if isc(pos) and pos == 0 and (Lin.of(n) - L).const() == 0:
        return s
    lv = s.lit_value()
    if lv is not None and isc(pos) and isc(n):
        return Str.lit(lv[pos:pos + n])
    # structural slicing along piece boundaries
    offs = [Lin(0)]
    for x in s.p:
        offs.append(offs[-1] + Lin.of(x.len))
    pl, pn = Lin.of(pos), Lin.of(pos) + Lin.of(n)
    i0 = next((i for i, o in enumerate(offs) if o.same(pl)), None)
    i1 = next((i for i, o in enumerate(offs) if o.same(pn)), None)
    if i0 is not None and i1 is not None and i1 >= i0:
        return Str(s.p[i0:i1])
    if i0 is not None:
        s = Str(s.p[i0:])
        pos = 0
        lv = s.lit_value()
        if lv is not None and isc(n):
            return Str.lit(lv[:n])
    elif s.p and s.p[0].kind == "lit" and isc(pos) and pos <= s.p[0].len:
        first = Str.lit(s.p[0].data[pos:]).cat(Str(s.p[1:]))
        return substr(eng, st, first, 0, n)
    if len(s.p) == 1 and s.p[0].kind == "sym" and s.p[0].key[:1] == ("sub",):
        pass
    pk, nk = Lin.of(pos).key(), Lin.of(n).key()
    ss, pp = s, Lin.of(pos)
    return Str([Piece("sym", None, n, lambda k: ss.at((pp + Lin.of(k)).val()), ("sub", s.key(), pk, nk), (ss, pp))])


def str_from_mem(eng, st, p, n):
    """value of the n characters at p"""
    if isc(n) and n == 0:
        return EMPTY
    if not isc(n):
        n = norm64(n)
        if not isc(n) and st.must(eqv(n, 0)):
            return EMPTY
    if isinstance(p, Ptr) and p.null:
        eng.oblige(st, "string source pointer is not null", eqv(n, 0))
        return EMPTY
    eng.ptr_ok(st, p, n, "string source")
    if p.obj.kind == "strdata":
        s = getstr(eng, st, Ptr(*p.obj.tag))
        return substr(eng, st, s, p.off.val(), n)
    t = p.obj.tag
    if isinstance(t, tuple) and t and t[0] in ("bytes", "cstr") and len(t) > 2 and t[2] is not None and st.ghost.get(("wr", p.obj.id)) is None:
        return substr(eng, st, t[2], p.off.val(), n)
    c = st.mem[p.obj.id]
    if isinstance(c, Arr) and c.es == 1 and not c.ov and p.obj.kind == "const" and isc(n) and p.off.const() is not None:
        return mkstr_chars(eng, st, [c.base(p.off.const() + i, 0, 1, ir.I8) for i in range(n)])
    if isc(n) and n <= 64:
        return mkstr_chars(eng, st, [load8(eng, st, p, i) for i in range(n)])
    at = snapshot(eng, st, p)
    o = p.obj
    return Str([Piece("sym", None, n, at, ("mem", o.id, id(st.mem[o.id]), p.off.key(), Lin.of(n).key()))])


def cstr_len(eng, st, p):
    return m_strlen(eng, st, [p], None)


S = r"std::__cxx11::basic_string<char, std::char_traits<char>, std::allocator<char> ?>"


def spat(sfx):
    return pat("^" + S + "::" + sfx)


@spat(r"basic_string\(\)$")
def s_ctor0(eng, st, a, ins):
    eng.ptr_ok(st, a[0], 32, "string constructor")
    setstr(eng, st, a[0], EMPTY)


@spat(r"basic_string\(" + S + r" const&\)$")
def s_copy(eng, st, a, ins):
    setstr(eng, st, a[0], getstr(eng, st, a[1]))


@spat(r"basic_string\(" + S + r"&&\)$")
def s_move(eng, st, a, ins):
    v = getstr(eng, st, a[1])
    setstr(eng, st, a[1], EMPTY)
    setstr(eng, st, a[0], v)


@spat(r"basic_string(<.*>)?\(char const\*, std::allocator<char> const&\)$")
def s_cstr(eng, st, a, ins):
    if isinstance(a[1], Ptr) and a[1].null:
        raise Throw("_ZTISt11logic_error")
    n = cstr_len(eng, st, a[1])
    setstr(eng, st, a[0], str_from_mem(eng, st, a[1], n))


@spat(r"basic_string\(char const\*, unsigned long, std::allocator<char> const&\)$")
def s_cstr_n(eng, st, a, ins):
    setstr(eng, st, a[0], str_from_mem(eng, st, a[1], a[2]))


@spat(r"basic_string<(char const\*|char\*|__gnu_cxx::__normal_iterator<.*>), void>\((char const\*|char\*|__gnu_cxx::__normal_iterator<.*>), .*, std::allocator<char> const&\)$")
def s_iter(eng, st, a, ins):
    b, e = a[1], a[2]
    if b.obj is not e.obj:
        raise Unsupported("string from unrelated iterators")
    if b.obj is None:
        setstr(eng, st, a[0], EMPTY)
        return
    n = (e.off - b.off).val()
    eng.oblige(st, "string range is not reversed", ule(n, (1 << 62)))
    setstr(eng, st, a[0], str_from_mem(eng, st, b, n))


def fill_str(eng, st, n, c):
    c = c & 255 if isc(c) else c
    if isc(n) and isc(c) and n < 4096:
        return Str.lit(bytes([c]) * n)
    return Str([Piece("sym", None, n, lambda k: c, ("fill", c if isc(c) else c.get_id(), n if isc(n) else Lin.of(n).key()))])


@spat(r"basic_string\(unsigned long, char, std::allocator<char> const&\)$")
def s_fill(eng, st, a, ins):
    n = a[1]
    if not isc(n) or n > (1 << 62):
        if st.decide(ugt(n, (1 << 63) - 1 - 32)):
            raise Throw("_ZTISt12length_error")
    setstr(eng, st, a[0], fill_str(eng, st, n, a[2]))


@spat(r"basic_string\(std::initializer_list<char>, ")
def s_il(eng, st, a, ins):
    setstr(eng, st, a[0], str_from_mem(eng, st, a[1], a[2]))


@spat(r"basic_string\(" + S + r" const&, unsigned long, unsigned long\)$")
def s_sub(eng, st, a, ins):
    setstr(eng, st, a[0], do_substr(eng, st, getstr(eng, st, a[1]), a[2], a[3]))


def do_substr(eng, st, s, pos, n):
    L = s.len
    if st.decide(ugt(pos, L)):
        raise Throw("_ZTISt12out_of_range")
    rest = (Lin.of(L) - Lin.of(pos)).val()
    if isc(n) and n == M64:
        n = rest
    elif st.decide(ugt(n, rest)):
        n = rest
    return substr(eng, st, s, pos, n)


@spat(r"~basic_string\(\)$")
def s_dtor(eng, st, a, ins):
    v = eng.raw_load(st, a[0], 32, STRTY)
    if not isinstance(v, Str):
        eng.oblige(st, "std::string destroyed exactly once", False)
        raise Infeasible()
    kill_data(eng, st, a[0])
    eng.put(st, a[0], 32, UNDEF)


@spat(r"(size|length)\(\) const$")
def s_size(eng, st, a, ins):
    return getstr(eng, st, a[0]).len


@spat(r"empty\(\) const$")
def s_empty(eng, st, a, ins):
    return eqv(getstr(eng, st, a[0]).len, 0)


@spat(r"(c_str|data)\(\)( const)?$|" + "^" + S + r"::c?(begin)\(\)( const)?$")
def s_data(eng, st, a, ins):
    return strdata(eng, st, a[0])


@spat(r"c?end\(\)( const)?$")
def s_end(eng, st, a, ins):
    return strdata(eng, st, a[0]).add(getstr(eng, st, a[0]).len)


@spat(r"(operator\[\]|at)\(unsigned long\)( const)?$")
def s_idx(eng, st, a, ins):
    s = getstr(eng, st, a[0])
    dem = eng.prog.dem(ins.a["fn"][1])
    if "::at(" in dem:
        if st.decide(uge(a[1], s.len)):
            raise Throw("_ZTISt12out_of_range")
    else:
        eng.oblige(st, "string index within size", ule(a[1], s.len))
    return strdata(eng, st, a[0]).add(a[1])


@spat(r"(front|back)\(\)( const)?$")
def s_front(eng, st, a, ins):
    s = getstr(eng, st, a[0])
    eng.oblige(st, "string is not empty", Not(eqv(s.len, 0)))
    dem = eng.prog.dem(ins.a["fn"][1])
    d = strdata(eng, st, a[0])
    return d if "::front" in dem else d.add((Lin.of(s.len) - 1).val())


@spat(r"clear\(\)$")
def s_clear(eng, st, a, ins):
    getstr(eng, st, a[0])
    setstr(eng, st, a[0], EMPTY)


def append(eng, st, p, t):
    s = getstr(eng, st, p)
    r = s.cat(t)
    if not isc(r.len):
        pass
    setstr(eng, st, p, r)
    return p


@spat(r"(append|operator\+=)\(" + S + r" const&\)$")
def s_app(eng, st, a, ins):
    return append(eng, st, a[0], getstr(eng, st, a[1]))


@spat(r"(append|operator\+=)\(char const\*\)$")
def s_appc(eng, st, a, ins):
    n = cstr_len(eng, st, a[1])
    return append(eng, st, a[0], str_from_mem(eng, st, a[1], n))


@spat(r"append\(char const\*, unsigned long\)$")
def s_appcn(eng, st, a, ins):
    return append(eng, st, a[0], str_from_mem(eng, st, a[1], a[2]))


@spat(r"append\(unsigned long, char\)$")
def s_appn(eng, st, a, ins):
    return append(eng, st, a[0], fill_str(eng, st, a[1], a[2]))


@spat(r"(operator\+=\(char\)|push_back\(char\))$")
def s_push(eng, st, a, ins):
    append(eng, st, a[0], mkstr_chars(eng, st, [a[1]]))
    return a[0]


@spat(r"(operator=|assign)\(" + S + r" const&\)$")
def s_assign(eng, st, a, ins):
    v = getstr(eng, st, a[1])
    getstr(eng, st, a[0])
    if a[0].obj is a[1].obj and a[0].off.same(a[1].off):
        return a[0]
    setstr(eng, st, a[0], v)
    return a[0]


@spat(r"(operator=|assign)\(" + S + r"&&\)$")
def s_massign(eng, st, a, ins):
    v = getstr(eng, st, a[1])
    getstr(eng, st, a[0])
    if a[0].obj is a[1].obj and a[0].off.same(a[1].off):
        return a[0]
    setstr(eng, st, a[1], EMPTY)
    setstr(eng, st, a[0], v)
    return a[0]


@spat(r"(operator=|assign)\(char const\*\)$")
def s_assignc(eng, st, a, ins):
    n = cstr_len(eng, st, a[1])
    v = str_from_mem(eng, st, a[1], n)
    setstr(eng, st, a[0], v)
    return a[0]


@spat(r"substr\(unsigned long, unsigned long\) const$")
def s_substr(eng, st, a, ins):
    # sret, this, pos, n
    setstr(eng, st, a[0], do_substr(eng, st, getstr(eng, st, a[1]), a[2], a[3]))


def str_eq(eng, st, x, y):
    """decide equality of two strings on this path"""
    if x.same(y):
        return True
    a, b = x.lit_value(), y.lit_value()
    if a is not None and b is not None:
        return a == b
    le = eqv(x.len, y.len)
    n = a if a is not None else b
    if n is not None:
        return simpb(And(le, *[eqv(x.at(i), y.at(i), 8) for i in range(len(n))]))
    if not st.decide(le):
        return False
    r = eng.fresh("streq", 1)
    L = x.len
    if st.decide(r):
        st.assume(Forall(lambda k: Implies(ult(k, L), eqv(x.at(k), y.at(k), 8)), None, "strings equal"))
        return True
    d = eng.fresh("strdiff", 64)
    st.assume(ult(d, L))
    st.assume(Not(eqv(x.at(d), y.at(d), 8)))
    return False


def str_eq_goal(x, y):
    """proof goal: equal strings"""
    if x.same(y):
        return True
    # strip common prefix / suffix pieces
    px, py = list(x.p), list(y.p)
    while px and py and Str([px[0]]).same(Str([py[0]])):
        px.pop(0), py.pop(0)
    while px and py and Str([px[-1]]).same(Str([py[-1]])):
        px.pop(), py.pop()
    x, y = Str(px), Str(py)
    if x.same(y):
        return True
    a, b = x.lit_value(), y.lit_value()
    if a is not None and b is not None:
        return a == b
    le = eqv(x.len, y.len)
    n = a if a is not None else b
    if n is not None and len(n) < 200:
        return And(le, *[eqv(x.at(i), y.at(i), 8) for i in range(len(n))])
    return [le, Forall(lambda k: Implies(ult(k, x.len), eqv(x.at(k), y.at(k), 8)), None, "strings equal")]


@pat(r"^bool std::operator==<char.*>\(" + S + r" const&, " + S + r" const&\)$",
     r"^std::operator==<char.*>\(" + S + r" const&, " + S + r" const&\)$")
def s_eq(eng, st, a, ins):
    return str_eq(eng, st, getstr(eng, st, a[0]), getstr(eng, st, a[1]))


@pat(r"bool std::operator!=<char.*>\(" + S + r" const&, " + S + r" const&\)$")
def s_ne(eng, st, a, ins):
    return Not(str_eq(eng, st, getstr(eng, st, a[0]), getstr(eng, st, a[1])))


@pat(r"bool std::operator==<char.*>\(" + S + r" const&, char const\*\)$")
def s_eqc(eng, st, a, ins):
    n = cstr_len(eng, st, a[1])
    return str_eq(eng, st, getstr(eng, st, a[0]), str_from_mem(eng, st, a[1], n))


@pat(r"bool std::operator!=<char.*>\(" + S + r" const&, char const\*\)$")
def s_nec(eng, st, a, ins):
    return Not(s_eqc(eng, st, a, ins))


@spat(r"compare\(unsigned long, unsigned long, " + S + r" const&\) const$")
def s_cmp3(eng, st, a, ins):
    s, t = getstr(eng, st, a[0]), getstr(eng, st, a[3])
    x = do_substr(eng, st, s, a[1], a[2])
    e = str_eq(eng, st, x, t)
    r = eng.fresh("strcmp", 32)
    st.assume(Iff(e, r == 0))
    return r


@spat(r"compare\(.*\) const$")
def s_cmp1(eng, st, a, ins):
    s = getstr(eng, st, a[0])
    dem = eng.prog.dem(ins.a["fn"][1])
    if "char const*" in dem:
        t = str_from_mem(eng, st, a[1], cstr_len(eng, st, a[1]))
    else:
        t = getstr(eng, st, a[1])
    e = str_eq(eng, st, s, t)
    r = eng.fresh("strcmp", 32)
    st.assume(Iff(e, r == 0))
    return r


def cat_ret(eng, st, dst, x, y):
    setstr(eng, st, dst, x.cat(y))


@pat(r"std::operator\+<char.*>\(" + S + r" const&, " + S + r" const&\)$")
def p_ss(eng, st, a, ins):
    cat_ret(eng, st, a[0], getstr(eng, st, a[1]), getstr(eng, st, a[2]))


@pat(r"std::operator\+<char.*>\(" + S + r"&&, " + S + r"&&\)$", r"std::operator\+<char.*>\(" + S + r"&&, " + S + r" const&\)$",
     r"std::operator\+<char.*>\(" + S + r" const&, " + S + r"&&\)$")
def p_mm(eng, st, a, ins):
    x, y = getstr(eng, st, a[1]), getstr(eng, st, a[2])
    dem = eng.prog.dem(ins.a["fn"][1])
    cat_ret(eng, st, a[0], x, y)


@pat(r"std::operator\+<char.*>\(" + S + r"( const&|&&), char const\*\)$")
def p_sc(eng, st, a, ins):
    x = getstr(eng, st, a[1])
    cat_ret(eng, st, a[0], x, str_from_mem(eng, st, a[2], cstr_len(eng, st, a[2])))


@pat(r"std::operator\+<char.*>\(char const\*, " + S + r"( const&|&&)\)$")
def p_cs(eng, st, a, ins):
    x = str_from_mem(eng, st, a[1], cstr_len(eng, st, a[1]))
    cat_ret(eng, st, a[0], x, getstr(eng, st, a[2]))


@pat(r"std::operator\+<char.*>\(" + S + r"( const&|&&), char\)$")
def p_sch(eng, st, a, ins):
    cat_ret(eng, st, a[0], getstr(eng, st, a[1]), mkstr_chars(eng, st, [a[2]]))


@pat(r"std::operator\+<char.*>\(char, " + S + r"( const&|&&)\)$")
def p_chs(eng, st, a, ins):
    cat_ret(eng, st, a[0], mkstr_chars(eng, st, [a[1]]), getstr(eng, st, a[2]))


@spat(r"(resize)\(unsigned long(, char)?\)$")
def s_resize(eng, st, a, ins):
    s = getstr(eng, st, a[0])
    c = a[2] if len(a) > 2 else 0
    n = a[1]
    if st.decide(ule(n, s.len)):
        setstr(eng, st, a[0], substr(eng, st, s, 0, n))
    else:
        setstr(eng, st, a[0], s.cat(fill_str(eng, st, (Lin.of(n) - Lin.of(s.len)).val(), c)))


@spat(r"reserve\(.*\)$|" + "^" + S + r"::shrink_to_fit\(\)$")
def s_reserve(eng, st, a, ins):
    kill_data(eng, st, a[0])


@spat(r"capacity\(\) const$")
def s_cap(eng, st, a, ins):
    c = eng.fresh("capacity", 64)
    st.assume(uge(c, getstr(eng, st, a[0]).len))
    return c


@spat(r"pop_back\(\)$")
def s_pop(eng, st, a, ins):
    s = getstr(eng, st, a[0])
    eng.oblige(st, "string is not empty", Not(eqv(s.len, 0)))
    setstr(eng, st, a[0], substr(eng, st, s, 0, (Lin.of(s.len) - 1).val()))


@spat(r"swap\(" + S + r"&\)$")
def s_swap(eng, st, a, ins):
    x, y = getstr(eng, st, a[0]), getstr(eng, st, a[1])
    setstr(eng, st, a[0], y)
    setstr(eng, st, a[1], x)


def charset(eng, st, t):
    v = t.lit_value()
    if v is not None:
        vs = sorted(set(v))
        return lambda c: Or(*[eqv(c, x, 8) for x in vs])
    return None


def find_gen(kind):
    """find_first_of / find_last_of / find_first_not_of / find_last_not_of with a character set"""
    last = "last" in kind
    neg = "not" in kind

    def f(eng, st, a, ins):
        dem = eng.prog.dem(ins.a["fn"][1])
        s = getstr(eng, st, a[0])
        arg = dem[dem.index(kind + "(") + len(kind) + 1:]
        if arg.startswith("char,"):
            t = mkstr_chars(eng, st, [a[1]])
            inset = lambda c: eqv(c, a[1], 8)
            pos = a[2]
        elif arg.startswith("char const*, unsigned long, unsigned long"):
            t = str_from_mem(eng, st, a[1], a[3])
            inset = charset(eng, st, t)
            pos = a[2]
        elif arg.startswith("char const*"):
            t = str_from_mem(eng, st, a[1], cstr_len(eng, st, a[1]))
            inset = charset(eng, st, t)
            pos = a[2]
        else:
            t = getstr(eng, st, a[1])
            inset = charset(eng, st, t)
            pos = a[2]
        if inset is None:
            inset = set_pred(eng, st, t)
        hit = (lambda c: Not(inset(c))) if neg else inset
        n = s.len
        lv = s.lit_value()
        r = eng.fresh(kind, 64)
        found = eng.fresh(kind + ".found", 1)
        lo = pos if not last else 0
        if st.decide(found):
            st.assume(ult(r, n))
            st.assume(hit(s.at(r)))
            if last:
                st.assume(ule(r, pos))
                st.assume(Forall(lambda k: Implies(And(ugt(k, r), ult(k, n), ule(k, pos)), Not(hit(s.at(k)))), None, kind))
            else:
                st.assume(uge(r, pos))
                st.assume(Forall(lambda k: Implies(And(ult(k, r), uge(k, pos)), Not(hit(s.at(k)))), None, kind))
            return r
        if last:
            st.assume(Forall(lambda k: Implies(And(ult(k, n), ule(k, pos)), Not(hit(s.at(k)))), None, kind))
        else:
            st.assume(Forall(lambda k: Implies(And(ult(k, n), uge(k, pos)), Not(hit(s.at(k)))), None, kind))
        return M64
    return f


def set_pred(eng, st, t):
    """membership predicate of a symbolic character set: uninterpreted, tied to the set by its key"""
    f = z3.Function("inset:%s" % (hash(t.key()) & 0xffffffff), z3.BitVecSort(8), z3.BoolSort())
    return lambda c: f(bv(c, 8))


for _k in ("find_first_of", "find_last_of", "find_first_not_of", "find_last_not_of"):
    spat(_k + r"\(")(find_gen(_k))


@spat(r"r?find\(char, unsigned long\) const$")
def s_findc(eng, st, a, ins):
    dem = eng.prog.dem(ins.a["fn"][1])
    s = getstr(eng, st, a[0])
    last = "::rfind(" in dem
    n, c, pos = s.len, a[1], a[2]
    r = eng.fresh("find", 64)
    hit = lambda x: eqv(x, c, 8)
    if st.decide(eng.fresh("find.found", 1)):
        st.assume(ult(r, n))
        st.assume(hit(s.at(r)))
        if last:
            st.assume(ule(r, pos))
            st.assume(Forall(lambda k: Implies(And(ugt(k, r), ult(k, n), ule(k, pos)), Not(hit(s.at(k)))), None, "rfind"))
        else:
            st.assume(uge(r, pos))
            st.assume(Forall(lambda k: Implies(And(ult(k, r), uge(k, pos)), Not(hit(s.at(k)))), None, "find"))
        return r
    if last:
        st.assume(Forall(lambda k: Implies(And(ult(k, n), ule(k, pos)), Not(hit(s.at(k)))), None, "rfind"))
    else:
        st.assume(Forall(lambda k: Implies(And(ult(k, n), uge(k, pos)), Not(hit(s.at(k)))), None, "find"))
    return M64


def match_at(s, t, k):
    """t occurs in s at k (t literal)"""
    v = t.lit_value()
    return And(*[eqv(s.at((Lin.of(k) + i).val()), v[i], 8) for i in range(len(v))])


@spat(r"r?find\((char const\*|" + S + r" const&), unsigned long\) const$")
def s_finds(eng, st, a, ins):
    dem = eng.prog.dem(ins.a["fn"][1])
    s = getstr(eng, st, a[0])
    last = "::rfind(" in dem
    if "find(char const*" in dem:
        t = str_from_mem(eng, st, a[1], cstr_len(eng, st, a[1]))
    else:
        t = getstr(eng, st, a[1])
    pos = a[2]
    v = t.lit_value()
    if v is None:
        raise Unsupported("find of a symbolic needle")
    m = len(v)
    n = s.len
    r = eng.fresh("find", 64)
    fits = lambda k: And(ule(m, n), ule(k, (Lin.of(n) - m).val()))
    if st.decide(eng.fresh("find.found", 1)):
        st.assume(fits(r))
        st.assume(match_at(s, t, r))
        if last:
            st.assume(ule(r, pos))
            st.assume(Forall(lambda k: Implies(And(ugt(k, r), ule(k, pos), fits(k)), Not(match_at(s, t, k))), None, "rfind"))
        else:
            st.assume(uge(r, pos))
            st.assume(Forall(lambda k: Implies(And(ult(k, r), uge(k, pos)), Not(match_at(s, t, k))), None, "find"))
        return r
    if last:
        st.assume(Forall(lambda k: Implies(And(fits(k), ule(k, pos)), Not(match_at(s, t, k))), None, "rfind"))
    else:
        st.assume(Forall(lambda k: Implies(And(fits(k), uge(k, pos)), Not(match_at(s, t, k))), None, "find"))
    return M64


@pat(r"^std::(__cxx11::)?to_string\((int|long|unsigned int|unsigned long|long long|unsigned long long)\)$")
def s_tostr(eng, st, a, ins):
    dem = eng.prog.dem(ins.a["fn"][1])
    ty = dem[dem.index("to_string(") + 10:-1]
    w = 32 if ty in ("int", "unsigned int") else 64
    setstr(eng, st, a[0], dec_str(eng, st, a[1], w, "unsigned" not in ty))


def dec_str(eng, st, v, w, signed):
    if isc(v):
        return Str.lit(str(sgn(v, w) if signed else v))
    e = z3.SignExt(64 - w, v) if signed and w < 64 else (z3.ZeroExt(64 - w, v) if w < 64 else v)
    e = simp(e)
    f = z3.Function("dec%s.len" % ("s" if signed else ""), z3.BitVecSort(64), z3.BitVecSort(64))
    g = z3.Function("dec%s.ch" % ("s" if signed else ""), z3.BitVecSort(64), z3.BitVecSort(64), z3.BitVecSort(8))
    n = f(bv(e, 64))
    st.assume(And(uge(n, 1), ule(n, 20)))
    return Str([Piece("sym", None, n, lambda k: g(bv(e, 64), bv(k, 64)),
                      ("dec", signed, e if isc(e) else e.get_id()))])


# anything else on std::string is outside the model: never inline libstdc++'s representation
@pat("^" + S + "::")
def s_other(eng, st, a, ins):
    raise Unsupported("std::string operation without a contract: " + eng.prog.dem(ins.a["fn"][1]))


# allocators and friends carry no state
pat(r"^std::(__new_)?allocator<.*>::~?(__new_)?allocator\(.*\)$", r"^std::__new_allocator<.*>::~?__new_allocator\(.*\)$",
    r"^std::_?_?allocator<.*>::(operator=)")(lambda eng, st, a, ins: None)


def first_arg(eng, st, a, ins):
    return a[0]


pat(r"std::(remove_reference<.*>::type&& std::)?move<.*>\(", r"std::forward<.*>\(", r"__gnu_cxx::__normal_iterator<.*>::base\(\) const$__never__"
    )(first_arg)


# ------------------------------------------------------------------ std::vector
V = r"^std::vector<.*>::"


def vec_elem(dem):
    """element type text of std::vector<T, A>::..."""
    i = dem.index("std::vector<") + 12
    d = 0
    for j in range(i, len(dem)):
        if dem[j] in "<(":
            d += 1
        elif dem[j] in ">)":
            if d == 0:
                break
            d -= 1
        elif dem[j] == "," and d == 0:
            break
    return dem[i:j]


SCALAR_SIZES = {"char": 1, "unsigned char": 1, "signed char": 1, "bool": 1, "short": 2, "unsigned short": 2, "int": 4,
                "unsigned int": 4, "long": 8, "unsigned long": 8, "double": 8, "char const*": 8, "char*": 8}


def elem_ty(eng, el):
    if el in SCALAR_SIZES:
        return ir.Ty("int", 8 * SCALAR_SIZES[el])
    if el.endswith("*"):
        return ir.PTR
    if el.startswith("std::__cxx11::basic_string<char"):
        return STRTY
    for pre in ("struct.", "class.", "union."):
        for m in eng.prog.modules:
            t = m.types.get(pre + el)
            if t is not None:
                return ir.Ty("named", name=pre + el, mod=m)
    if re.match(r"^std::pair<std::reference_wrapper<[^<>]*>, std::reference_wrapper<[^<>]*> ?>$", el):
        return ir.Ty("struct", el=[ir.PTR, ir.PTR])
    raise Unsupported("vector element type " + el)


def vmodel(rx):
    def d(f):
        def g(eng, st, a, ins):
            dem = eng.prog.dem(ins.a["fn"][1])
            et = elem_ty(eng, vec_elem(dem))
            return f(eng, st, a, et)
        M.pats.append((re.compile(V + rx), g))
        return f
    return d


VECTY = ir.Ty("named", name="class.std::vector", mod=type("m", (), {"types": {"class.std::vector": ir.Ty("arr", 24, ir.I8)}})())


def getvec(eng, st, p, et=None):
    eng.ptr_ok(st, p, 24, "vector")
    v = eng.raw_load(st, p, 24, VECTY)
    if isinstance(v, Vec):
        return v
    if isinstance(v, Zero):
        return Vec(None, 0, et.size() if et else 1)
    if isinstance(v, Undef):
        eng.oblige(st, "std::vector object is alive", False)
        raise Infeasible()
    raise Unsupported("not a vector: %r" % (v,))


def setvec(eng, st, p, v):
    eng.put(st, p, 24, v)


def elem_arr(eng, et, name="vec"):
    def base(i, fo, w, ty):
        if ty is not None and ty.resolve().k == "int" and not LEAF.match(getattr(ty, "name", None) or ""):
            return eng.fresh("uninit:" + name, 8 * w)
        return UNDEF
    return Arr(et.size(), base, (), flatten(et))


def vec_grow(eng, st, v, et, newlen):
    """reallocated storage holding the first v.len elements"""
    if v.obj is None:
        a = elem_arr(eng, et)
        o = st.new_obj("vecdata", Lin.of(newlen).scale(et.size()).val(), "heap", a)
        return o
    c = st.mem[v.obj.id]
    if c is None:
        raise Unsupported("vector storage dead")
    if isinstance(c, Cells):
        c = eng.to_arr(st, v.obj, c, Ptr(v.obj, Lin(0, {0: (None, et.size())})), 1)
        c = Arr(c.es, c.base, c.ov, flatten(et), c.n)
    o = st.new_obj("vecdata", Lin.of(newlen).scale(et.size()).val(), "heap", c)
    st.mem[v.obj.id] = None
    return o


def put_elem(eng, st, v, idx, et, src, move=False):
    """copy-construct element idx from *src (value copy of all leaves)"""
    dst = Ptr(v.obj, Lin.of(idx).scale(et.size()))
    vals = []
    for off, w, ty in flatten(et):
        x = eng.raw_load(st, src.add(off), w, ty)
        if isinstance(x, Undef) and LEAF.match(getattr(ty, "name", None) or ""):
            raise Unsupported("copy of a dead object")
        if isinstance(x, Vec) and x.obj is not None:
            if move:
                pass
            else:
                o2 = st.new_obj("vecdata", x.obj.size, "heap", st.mem[x.obj.id])
                x = Vec(o2, x.len, x.es)
        vals.append((off, w, x, ty))
    for off, w, x, ty in vals:
        eng.raw_store(st, dst.add(off), w, x)
    if move:
        for off, w, x, ty in vals:
            if isinstance(x, Str):
                setstr(eng, st, src.add(off), EMPTY)
            elif isinstance(x, Vec):
                setvec(eng, st, src.add(off), Vec(None, 0, x.es))
            elif ty.resolve().k == "ptr" and MOVE_NULLS.search(str(et)):
                eng.raw_store(st, src.add(off), w, NULL)


MOVE_NULLS = re.compile(r"unique_ptr|shared_ptr")


@vmodel(r"vector\(\)$")
def v_ctor(eng, st, a, et):
    eng.ptr_ok(st, a[0], 24, "vector constructor")
    setvec(eng, st, a[0], Vec(None, 0, et.size()))


@vmodel(r"~vector\(\)$")
def v_dtor(eng, st, a, et):
    v = getvec(eng, st, a[0], et)
    if v.obj is not None:
        st.mem[v.obj.id] = None
    eng.put(st, a[0], 24, UNDEF)


@vmodel(r"vector\(std::vector<.*> const&\)$")
def v_copy(eng, st, a, et):
    v = getvec(eng, st, a[1], et)
    o = None
    if v.obj is not None:
        o = st.new_obj("vecdata", v.obj.size, "heap", st.mem[v.obj.id])
    setvec(eng, st, a[0], Vec(o, v.len, v.es))


@vmodel(r"vector\(std::vector<.*>&&\)$")
def v_move(eng, st, a, et):
    v = getvec(eng, st, a[1], et)
    setvec(eng, st, a[1], Vec(None, 0, v.es))
    setvec(eng, st, a[0], v)


@vmodel(r"operator=\(std::vector<.*>&&\)$")
def v_massign(eng, st, a, et):
    v = getvec(eng, st, a[1], et)
    if same_place(a[0], a[1]):
        return a[0]
    old = getvec(eng, st, a[0], et)
    if old.obj is not None:
        st.mem[old.obj.id] = None
    setvec(eng, st, a[1], Vec(None, 0, v.es))
    setvec(eng, st, a[0], v)
    return a[0]


@vmodel(r"operator=\(std::vector<.*> const&\)$")
def v_cassign(eng, st, a, et):
    v = getvec(eng, st, a[1], et)
    if same_place(a[0], a[1]):
        return a[0]
    old = getvec(eng, st, a[0], et)
    o = None
    if v.obj is not None:
        o = st.new_obj("vecdata", v.obj.size, "heap", st.mem[v.obj.id])
    if old.obj is not None:
        st.mem[old.obj.id] = None
    setvec(eng, st, a[0], Vec(o, v.len, v.es))
    return a[0]


def same_place(p, q):
    return p.obj is q.obj and p.off.same(q.off)


@vmodel(r"vector\(unsigned long, std::allocator<.*> const&\)$")
def v_ctor_n(eng, st, a, et):
    n = a[1]
    mx = (1 << 63) // et.size() - 1
    if not isc(n) or n > mx:
        if st.decide(ugt(n, mx)):
            raise Throw("_ZTISt12length_error")
    arr = value_init_arr(eng, et)
    o = st.new_obj("vecdata", Lin.of(n).scale(et.size()).val(), "heap", arr)
    setvec(eng, st, a[0], Vec(o, n, et.size()))


def value_init_arr(eng, et):
    def base(i, fo, w, ty):
        nm = getattr(ty, "name", None) or ""
        if LEAF.match(nm):
            return EMPTY if "basic_string" in nm else Vec(None, 0, 1)
        if ty is not None and ty.resolve().k == "ptr":
            return NULL
        return 0
    if et.resolve().k in ("struct", "packed"):
        # default member initialisers would be needed
        def bad(i, fo, w, ty):
            raise Unsupported("value-initialised struct elements")
        return Arr(et.size(), bad, (), flatten(et))
    return Arr(et.size(), base, (), flatten(et))


@vmodel(r"vector\(unsigned long, .* const&, std::allocator<.*> const&\)$")
def v_ctor_fill(eng, st, a, et):
    n = a[1]
    mx = (1 << 63) // et.size() - 1
    if not isc(n) or n > mx:
        if st.decide(ugt(n, mx)):
            raise Throw("_ZTISt12length_error")
    if et.resolve().k in ("struct", "packed"):
        # every element is a copy of the value, member by member
        eng.ptr_ok(st, a[2], et.size(), "vector(n, value)")
        m = {fo: eng.raw_load(st, a[2].add(fo), fw, ft) for fo, fw, ft in flatten(et)}
        if any(isinstance(x, Vec) for x in m.values()):
            raise Unsupported("vector(n, value) of a class holding a vector")
        o = st.new_obj("vecdata", Lin.of(n).scale(et.size()).val(), "heap", Arr(et.size(), lambda i, fo, w, ty: m[fo], (), flatten(et)))
        setvec(eng, st, a[0], Vec(o, n, et.size()))
        return
    if et.resolve().k not in ("int", "ptr"):
        raise Unsupported("vector(n, value) of a class type")
    x = eng.load(st, a[2], et)
    o = st.new_obj("vecdata", Lin.of(n).scale(et.size()).val(), "heap", Arr(et.size(), lambda i, fo, w, ty: x, (), flatten(et)))
    setvec(eng, st, a[0], Vec(o, n, et.size()))


@vmodel(r"vector\(std::initializer_list<.*>, std::allocator<.*> const&\)$")
def v_ctor_il(eng, st, a, et):
    src, n = a[1], a[2]
    if not isc(n):
        raise Unsupported("initializer_list length")
    o = st.new_obj("vecdata", n * et.size(), "heap", elem_arr(eng, et))
    v = Vec(o, n, et.size())
    for i in range(n):
        put_elem(eng, st, v, i, et, src.add(i * et.size()))
    setvec(eng, st, a[0], v)


@vmodel(r"size\(\) const$")
def v_size(eng, st, a, et):
    return getvec(eng, st, a[0], et).len


@vmodel(r"empty\(\) const$")
def v_empty(eng, st, a, et):
    return eqv(getvec(eng, st, a[0], et).len, 0)


def vdata(eng, st, v):
    if v.obj is None:
        return NULL
    return Ptr(v.obj)


@vmodel(r"(data|c?begin)\(\)( const)?$")
def v_begin(eng, st, a, et):
    return vdata(eng, st, getvec(eng, st, a[0], et))


@vmodel(r"c?end\(\)( const)?$")
def v_end(eng, st, a, et):
    v = getvec(eng, st, a[0], et)
    return vdata(eng, st, v).add(Lin.of(v.len).scale(et.size())) if v.obj is not None else NULL


@vmodel(r"(operator\[\])\(unsigned long\)( const)?$")
def v_idx(eng, st, a, et):
    v = getvec(eng, st, a[0], et)
    eng.oblige(st, "vector index within size", ult(a[1], v.len))
    if v.obj is None:
        raise Infeasible()
    return Ptr(v.obj, Lin.of(a[1]).scale(et.size()))


@vmodel(r"(at)\(unsigned long\)( const)?$")
def v_at(eng, st, a, et):
    v = getvec(eng, st, a[0], et)
    if st.decide(uge(a[1], v.len)):
        raise Throw("_ZTISt12out_of_range")
    return Ptr(v.obj, Lin.of(a[1]).scale(et.size()))


@vmodel(r"front\(\)( const)?$")
def v_front(eng, st, a, et):
    v = getvec(eng, st, a[0], et)
    eng.oblige(st, "vector is not empty", Not(eqv(v.len, 0)))
    return Ptr(v.obj)


@vmodel(r"back\(\)( const)?$")
def v_back(eng, st, a, et):
    v = getvec(eng, st, a[0], et)
    eng.oblige(st, "vector is not empty", Not(eqv(v.len, 0)))
    return Ptr(v.obj, (Lin.of(v.len) - 1).scale(et.size()))


@vmodel(r"push_back\(.* const&\)$")
def v_push(eng, st, a, et):
    do_push(eng, st, a[0], a[1], et, False)


@vmodel(r"push_back\(.*&&\)$")
def v_pushm(eng, st, a, et):
    do_push(eng, st, a[0], a[1], et, True)


def do_push(eng, st, p, src, et, move):
    v = getvec(eng, st, p, et)
    n1 = (Lin.of(v.len) + 1).val()
    # read the element first: it may live in the old storage
    tmp = st.new_obj("elem", et.size(), "stack", Cells())
    tv = Vec(tmp, 1, et.size())
    put_elem(eng, st, tv, 0, et, src, move)
    o = vec_grow(eng, st, v, et, n1)
    nv = Vec(o, n1, et.size())
    put_elem(eng, st, nv, v.len, et, Ptr(tmp))
    st.mem[tmp.id] = None
    setvec(eng, st, p, nv)


@vmodel(r"emplace_back<(.*)>\(.*\)$")
def v_emplace(eng, st, a, et):
    if len(a) == 2 and STRTY is et:
        src = a[1]
        x = eng.raw_load(st, src, 32, STRTY) if src.obj.size is None or not isc(src.obj.size) or src.obj.size >= 32 else None
        if isinstance(x, Str):
            do_push(eng, st, a[0], src, et, True)
            v = getvec(eng, st, a[0], et)
            return Ptr(v.obj, (Lin.of(v.len) - 1).scale(et.size()))
    if len(a) == 2:
        do_push(eng, st, a[0], a[1], et, True)
        v = getvec(eng, st, a[0], et)
        return Ptr(v.obj, (Lin.of(v.len) - 1).scale(et.size()))
    raise Unsupported("emplace_back with several arguments")


@vmodel(r"pop_back\(\)$")
def v_pop(eng, st, a, et):
    v = getvec(eng, st, a[0], et)
    eng.oblige(st, "vector is not empty", Not(eqv(v.len, 0)))
    setvec(eng, st, a[0], Vec(v.obj, (Lin.of(v.len) - 1).val(), v.es))


@vmodel(r"clear\(\)$")
def v_clear(eng, st, a, et):
    v = getvec(eng, st, a[0], et)
    setvec(eng, st, a[0], Vec(v.obj, 0, v.es))


@vmodel(r"reserve\(unsigned long\)$")
def v_reserve(eng, st, a, et):
    v = getvec(eng, st, a[0], et)
    mx = (1 << 63) // et.size() - 1
    if st.decide(ugt(a[1], mx)):
        raise Throw("_ZTISt12length_error")
    if v.obj is not None:
        o = vec_grow(eng, st, v, et, v.len)
        setvec(eng, st, a[0], Vec(o, v.len, v.es))


@vmodel(r"(capacity)\(\) const$")
def v_capacity(eng, st, a, et):
    c = eng.fresh("capacity", 64)
    st.assume(uge(c, getvec(eng, st, a[0], et).len))
    return c


def iter_at(eng, st, p):
    """pointer held by an iterator argument (passed by value or in memory)"""
    return p


def scalar_leaves(et):
    for off, w, ty in flatten(et):
        if ty is None or LEAF.match(getattr(ty, "name", None) or "") or ty.resolve().k not in ("int", "ptr"):
            raise Unsupported("moving elements of " + str(et))


def as_arr(eng, st, obj, et):
    c = st.mem[obj.id]
    if c is None:
        raise Unsupported("vector storage dead")
    if isinstance(c, Cells):
        c = eng.to_arr(st, obj, c, Ptr(obj, Lin(0, {0: (None, et.size())})), 1)
        c = Arr(c.es, c.base, c.ov, flatten(et), c.n)
    return c


@vmodel(r"insert\(__gnu_cxx::__normal_iterator<.*>, .* const&\)$")
def v_insert(eng, st, a, et):
    """trusted contract: everything from the position on moves back by one"""
    scalar_leaves(et)
    es = et.size()
    v = getvec(eng, st, a[0], et)
    pos = 0
    if v.obj is not None:
        eng.oblige(st, "vector::insert: the position belongs to the vector", isinstance(a[1], Ptr) and not a[1].null and a[1].obj is v.obj)
        pos = a[1].off.div(es)[0].val()
    eng.oblige(st, "vector::insert: the position is within the vector", ule(pos, v.len))
    x = {off: eng.raw_load(st, a[2].add(off), w, ty) for off, w, ty in flatten(et)}
    x = {o: eng.ptrtoint(t) if isinstance(t, (Ptr, FnPtr)) else t for o, t in x.items()}
    n1 = (Lin.of(v.len) + 1).val()
    old = None if v.obj is None else as_arr(eng, st, v.obj, et)

    def base(i, fo, w, ty):
        n = bv(x[fo], 8 * w)
        if old is None:
            return n
        at = lambda j: bv(eng.arr_byte(old, Lin.of(j).scale(es) + fo, w), 8 * w)
        return simp(z3.If(ult(i, pos), at(i), z3.If(eqv(i, pos), n, at((Lin.of(i) - 1).val()))))
    o = st.new_obj("vecdata", Lin.of(n1).scale(es).val(), "heap", Arr(es, base, (), flatten(et)))
    if v.obj is not None:
        st.mem[v.obj.id] = None
    setvec(eng, st, a[0], Vec(o, n1, es))
    st.ghost["insert.pos"] = pos
    return Ptr(o, Lin.of(pos).scale(es))


@vmodel(r"erase\(__gnu_cxx::__normal_iterator<.*>, __gnu_cxx::__normal_iterator<.*>\)$")
def v_erase(eng, st, a, et):
    """trusted contract for a range up to the end: the elements from the position on are destroyed"""
    es = et.size()
    v = getvec(eng, st, a[0], et)
    if v.obj is None:
        return a[1]
    own = all(isinstance(p, Ptr) and not p.null and p.obj is v.obj for p in a[1:3])
    eng.oblige(st, "vector::erase: the range belongs to the vector", own)
    f, l = (p.off.div(es)[0].val() for p in a[1:3])
    eng.oblige(st, "vector::erase: the range is within the vector", And(ule(f, l), ule(l, v.len)))
    if not st.must(eqv(l, v.len)):
        raise Unsupported("erasing in the middle of a vector")
    setvec(eng, st, a[0], Vec(v.obj, f, v.es))
    return a[1]


@pat(r" std::remove_if<__gnu_cxx::__normal_iterator<")
def m_remove_if(eng, st, a, ins):
    """trusted contract: the elements the predicate rejects stay, in order, at the front; the rest is unspecified.
    A strictly increasing map `from` gives the old position of every element kept and `to` is its inverse."""
    f = eng.prog.fn(ins.a["fn"][1])
    opfn = None
    seen = set()
    work = [f]
    while work:
        g = work.pop()
        if g.name in seen:
            continue
        seen.add(g.name)
        for c1 in callees(g):
            h = eng.prog.fn(c1)
            if h is None:
                continue
            if "__gnu_cxx::__ops::_Iter_pred" in h.dem and "::operator()" in h.dem:
                opfn = h
            elif re.search(r"std::(__)?(remove_if|find_if)", h.dem):
                work.append(h)
    if opfn is None:
        raise Unsupported("predicate of remove_if")
    b, e = a[0], a[1]
    pr = st.new_obj("pred", 8, "stack", Cells())
    eng.put(st, Ptr(pr), 8, a[2])
    if isinstance(b, Ptr) and b.null:
        return b
    c = st.mem[b.obj.id]
    if not isinstance(c, Arr) or not isc(b.off.val()) or b.off.val() != 0:
        raise Unsupported("remove_if over %r" % (c,))
    es = c.es
    n = e.off.div(es)[0].val()
    s0 = st.copy()

    def kept(k):
        # only ever used for positions in range
        s = s0.copy()
        s.assume(ult(k, n))
        return Not(pure_bool(eng, s, opfn, [Ptr(pr), Ptr(b.obj, Lin.of(k).scale(es))]))
    n2 = eng.fresh("kept", 64)
    frm, to = eng.fresh_fn("from", 64), eng.fresh_fn("to", 64)
    st.assume(ule(n2, n))
    # unfolded by the map's own applications, and by every reading of the old elements
    st.assume(Forall(lambda k: Implies(ult(k, n2), And(ult(frm(k), n), kept(frm(k)), ule(k, frm(k)), eqv(to(frm(k)), k))), {frm.name()}, "kept elements come from old ones"))
    st.assume(Forall(lambda k: Implies(And(ult(k, n), kept(k)), And(ult(to(k), n2), eqv(frm(to(k)), k))), {to.name()}, "no kept element is lost"))
    st.assume(Forall(lambda k: Implies(And(ult(k + 1, n2), Not(eqv(k + 1, 0))), ult(frm(k), frm(k + 1))), {frm.name()}, "in order"))

    def base(i, fo, w, ty):
        x = eng.arr_byte(c, Lin.of(frm(bv(i, 64))).scale(es) + fo, w)
        return simp(z3.If(ult(i, n2), bv(x, 8 * w), eng.fresh("unspecified", 8 * w)))
    for _, _, ty in c.fields:
        if ty is None or LEAF.match(getattr(ty, "name", None) or "") or ty.resolve().k not in ("int", "ptr"):
            raise Unsupported("remove_if over class elements")
    st.mem[b.obj.id] = Arr(es, base, (), c.fields, c.n)
    st.ghost["remove_if"] = st.ghost.get("remove_if", ()) + ((b.obj.id, n2, frm, to),)
    return b.add(Lin.of(n2).scale(es))


@vmodel(r"resize\(unsigned long\)$")
def v_resize(eng, st, a, et):
    v = getvec(eng, st, a[0], et)
    n = a[1]
    mx = (1 << 63) // et.size() - 1
    if st.decide(ugt(n, mx)):
        raise Throw("_ZTISt12length_error")
    if st.decide(ule(n, v.len)):
        setvec(eng, st, a[0], Vec(v.obj, n, v.es))
        return
    o = vec_grow(eng, st, v, et, n)
    ini = value_init_arr(eng, et)
    c = st.mem[o.id]
    c = Arr(c.es, c.base, c.ov, c.fields, c.n).with_ov(
        ("bulk", Lin.of(v.len), (Lin.of(n) - Lin.of(v.len)).val(), lambda i, fo, w, ty: ini.base(i, fo, w, ty)))
    st.mem[o.id] = c
    setvec(eng, st, a[0], Vec(o, n, et.size()))


@vmodel(r".*")
def v_other(eng, st, a, et):
    raise Unsupported("std::vector operation without a contract")


@pat(r"(unsigned long|long|int|unsigned int) const& std::(min|max)<(unsigned long|long|int|unsigned int)>\(")
def m_min(eng, st, a, ins):
    dem = eng.prog.dem(ins.a["fn"][1])
    ty = re.search(r"std::(min|max)<([a-z ]+)>", dem)
    w = 8 if "long" in ty.group(2) else 4
    t = ir.Ty("int", 8 * w)
    x, y = eng.load(st, a[0], t), eng.load(st, a[1], t)
    sg = "unsigned" not in ty.group(2)
    if isc(x) and isc(y):
        xx, yy = (sgn(x, 8 * w), sgn(y, 8 * w)) if sg else (x, y)
        lt = yy < xx if ty.group(1) == "min" else xx < yy
    else:
        xe, ye = bv(x, 8 * w), bv(y, 8 * w)
        if ty.group(1) == "min":
            lt = ye < xe if sg else z3.ULT(ye, xe)
        else:
            lt = xe < ye if sg else z3.ULT(xe, ye)
    return a[1] if st.decide(lt) else a[0]


# ------------------------------------------------------------------ std::upper_bound / lower_bound on a range
def callees(fn):
    fn.parse()
    for b in fn.order:
        for i in fn.blocks[b].ins:
            if i.op in ("call", "invoke") and i.a["fn"][0] == "global":
                yield i.a["fn"][1]


def pure_bool(eng, st, fn, args):
    """truth value of a side-effect free boolean function, as one formula over the current state"""
    s = st.copy()
    n = len(s.pc)
    outs = eng.run_function(s, fn, args)
    r = False
    for k, s2, v in outs:
        if k != "ret":
            raise Unsupported("comparator throws")
        v = v if isinstance(v, bool) or (z3.is_expr(v) and z3.is_bool(v)) else Not(eqv(v, 0, 8))
        r = Or(r, And(*(s2.pc[n:] + [v])))
    return r


@pat(r"^void std::sort<__gnu_cxx::__normal_iterator<")
def m_sort(eng, st, a, ins):
    """trusted contract: the elements are permuted so that none is less than the one before it.
    Needs (checked): the comparison is a strict weak order."""
    f = eng.prog.fn(ins.a["fn"][1])
    opfn = None
    seen, work = set(), [f]
    while work:
        g = work.pop()
        if g.name in seen:
            continue
        seen.add(g.name)
        for c1 in callees(g):
            h = eng.prog.fn(c1)
            if h is None:
                continue
            if "__gnu_cxx::__ops::_Iter_comp_iter" in h.dem and "::operator()" in h.dem:
                opfn = h
            elif re.search(r"\bstd::__\w+<", h.dem):
                work.append(h)
    if opfn is None:
        raise Unsupported("comparator of sort")
    b, e = a[0], a[1]
    if isinstance(b, Ptr) and b.null:
        return None
    if b.obj is not e.obj:
        eng.oblige(st, "sort: both ends belong to one range", False)
        raise Infeasible()
    c = st.mem[b.obj.id]
    if not isinstance(c, Arr) or b.off.const() != 0:
        raise Unsupported("sort of %r" % (c,))
    es = c.es
    d = e.off.div(es)
    if d is None or d[1]:
        raise Unsupported("sort stride")
    n = d[0].val()
    comp = st.new_obj("comp", 8, "stack", Cells())
    if len(a) > 2:
        eng.put(st, Ptr(comp), 8, a[2])
    s0 = st.copy()

    def less(i, j, s=None):
        s = (s or s0).copy()
        s.assume(And(ult(i, n), ult(j, n)))
        return pure_bool(eng, s, opfn, [Ptr(comp), Ptr(b.obj, Lin.of(i).scale(es)), Ptr(b.obj, Lin.of(j).scale(es))])
    x, y, z = (eng.fresh("sort." + q, 64) for q in "xyz")
    inr = And(ult(x, n), ult(y, n), ult(z, n))
    eng.oblige(st, "sort: the comparison is irreflexive", Implies(ult(x, n), Not(less(x, x))))
    eng.oblige(st, "sort: the comparison is asymmetric", Implies(And(inr, less(x, y)), Not(less(y, x))))
    eng.oblige(st, "sort: the comparison is transitive", Implies(And(inr, less(x, y), less(y, z)), less(x, z)))
    eng.oblige(st, "sort: equivalence is transitive", Implies(And(inr, Not(less(x, y)), Not(less(y, x)), Not(less(y, z)), Not(less(z, y))), And(Not(less(x, z)), Not(less(z, x)))))
    perm, inv = eng.fresh_fn("sorted.from", 64), eng.fresh_fn("sorted.to", 64)
    st.assume(Forall(lambda k: Implies(ult(k, n), And(ult(perm(k), n), eqv(inv(perm(k)), k))), {perm.name()}, "sort permutes"))
    st.assume(Forall(lambda k: Implies(ult(k, n), And(ult(inv(k), n), eqv(perm(inv(k)), k))), {inv.name()}, "sort permutes"))
    st.assume(Forall(lambda k: Implies(And(ult(k, n), ult(k + 1, n)), Not(less(perm(k + 1), perm(k)))), {perm.name()}, "sort orders"))

    def base(i, fo, w, ty):
        r = eng.arr_byte(c, Lin.of(perm(bv(i, 64))).scale(es) + fo, w)
        return simp(z3.If(ult(i, n), bv(r, 8 * w), bv(eng.arr_byte(c, Lin.of(i).scale(es) + fo, w), 8 * w)))
    st.mem[b.obj.id] = Arr(es, base, (), c.fields, c.n)
    st.ghost["sort"] = (b.obj.id, n, perm, inv, c)
    return None


@pat(r"std::(upper|lower)_bound<")
def m_bound(eng, st, a, ins):
    """trusted contract: position of the partition point of a range partitioned by the probe"""
    name = ins.a["fn"][1]
    upper = "std::upper_bound<" in eng.prog.dem(name)
    f = eng.prog.fn(name)
    opfn = None
    for c1 in callees(f):
        g = eng.prog.fn(c1)
        if g is None or "__%s_bound" % ("upper" if upper else "lower") not in g.dem:
            continue
        for c2 in callees(g):
            h = eng.prog.fn(c2)
            if h is not None and "__gnu_cxx::__ops::" in h.dem and "::operator()" in h.dem:
                opfn = h
    if opfn is None:
        raise Unsupported("comparator of " + eng.prog.dem(name))
    b, e, val = a[0], a[1], a[2]
    if isinstance(b, Ptr) and b.null and isinstance(e, Ptr) and e.null:
        return b
    if b.obj is not e.obj:
        eng.oblige(st, "bound search: both ends belong to one range", False)
        raise Infeasible()
    c = st.mem.get(b.obj.id)
    if not isinstance(c, Arr):
        d = (e.off - b.off).const()
        if d == 0:
            return b
        raise Unsupported("bound search over non-array storage")
    es = c.es
    d = (e.off - b.off).div(es)
    if d is None or d[1]:
        raise Unsupported("bound search stride")
    n = d[0].val()
    k = eng.fresh("bound.pos", 64)
    st.assume(ule(k, n))
    comp = st.new_obj("comp", 8, "stack", Cells())

    def test(i):
        p = b.add(Lin.of(i).scale(es))
        args = [Ptr(comp), val, p] if upper else [Ptr(comp), p, val]
        return pure_bool(eng, st, opfn, args)
    if st.decide(eqv(n, 0)):
        st.assume(eqv(k, 0))
        return b
    # element at k (when there is one) is behind the partition point, element k-1 (when there is one) before it
    if st.decide(ult(k, n)):
        t = test(k)
        st.assume(t if upper else Not(t))
    if st.decide(Not(eqv(k, 0))):
        t = test((Lin.of(k) - 1).val())
        st.assume(Not(t) if upper else t)
    st.ghost["bound"] = k
    return b.add(Lin.of(k).scale(es))


# ------------------------------------------------------------------ std::find over characters
@pat(r"char( const)?\* std::find<char( const)?\*, char>\(")
def m_find_char(eng, st, a, ins):
    b, e = a[0], a[1]
    if b.null and e.null:
        return e
    if b.obj is not e.obj:
        eng.oblige(st, "std::find: both ends belong to one range", False)
        raise Infeasible()
    n = (e.off - b.off).val()
    c = eng.load(st, a[2], ir.I8)
    if isc(n) and n == 0:
        return e
    eng.ptr_ok(st, b, n, "std::find")
    at = snapshot(eng, st, b)
    if isc(n) and n <= 8:
        for i in range(n):
            if st.decide(eqv(at(i), c, 8)):
                return b.add(i)
        return e
    r = eng.fresh("std.find", 64)
    if st.decide(eng.fresh("std.find.hit", 1)):
        st.assume(ult(r, n))
        st.assume(eqv(at(r), c, 8))
        st.assume(Forall(lambda k: Implies(ult(k, r), Not(eqv(at(k), c, 8))), None, "std::find"))
        return b.add(r)
    st.assume(Forall(lambda k: Implies(ult(k, n), Not(eqv(at(k), c, 8))), None, "std::find"))
    return e
