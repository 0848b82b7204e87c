"""Symbolic values: machine integers (python int | z3 BitVec), booleans (python bool | z3 Bool),
pointers (object + linear offset), byte strings (ropes), vectors."""
import z3

M64 = (1 << 64) - 1


class Unsupported(Exception):
    """the verifier cannot handle this construct: outside reach, not a violation"""


def isc(v):
    return isinstance(v, (int, bool))


def bv(v, w):
    if isinstance(v, bool):
        v = int(v)
    if isinstance(v, int):
        return z3.BitVecVal(v, w)
    if z3.is_bool(v):
        return z3.If(v, z3.BitVecVal(1, w), z3.BitVecVal(0, w))
    return v


def mask(w):
    return (1 << w) - 1


def sgn(v, w):
    return v - (1 << w) if v >> (w - 1) else v


def simp(e):
    """constant fold when z3 can see it"""
    if isc(e):
        return e
    s = z3.simplify(e)
    if z3.is_bv_value(s):
        return s.as_long()
    if z3.is_true(s):
        return True
    if z3.is_false(s):
        return False
    return s


def _fold(e):
    # cheap literal detection without full simplification
    if z3.is_bv_value(e):
        return e.as_long()
    return e


# ------------------------------------------------------------------ Lin
class Lin:
    """64-bit linear term  const + sum coeff*term  (mod 2^64)"""
    __slots__ = ("c", "t")

    def __init__(self, c=0, t=None):
        self.c, self.t = c & M64, t or {}

    @staticmethod
    def of(v):
        if isinstance(v, Lin):
            return v
        if isinstance(v, int):
            return Lin(v)
        return _lin(v)

    def __add__(self, o):
        o = Lin.of(o)
        if not o.t:
            return Lin(self.c + o.c, self.t)
        t = dict(self.t)
        for k, (term, co) in o.t.items():
            if k in t:
                n = (t[k][1] + co) & M64
                if n:
                    t[k] = (term, n)
                else:
                    del t[k]
            else:
                t[k] = (term, co)
        return Lin(self.c + o.c, t)

    def __neg__(self):
        return self.scale(-1)

    def __sub__(self, o):
        return self + (-Lin.of(o))

    def scale(self, k):
        t = {}
        for i, (term, co) in self.t.items():
            n = (co * k) & M64
            if n:
                t[i] = (term, n)
        return Lin(self.c * k, t)

    def const(self):
        return self.c if not self.t else None

    def val(self):
        """as int | z3 BV64"""
        if not self.t:
            return self.c
        e = None
        for term, co in self.t.values():
            x = term if co == 1 else (-term if co == M64 else term * z3.BitVecVal(co, 64))
            e = x if e is None else e + x
        if self.c:
            e = e + z3.BitVecVal(self.c, 64)
        return e

    def same(self, o):
        return self.c == o.c and self.t.keys() == o.t.keys() and all(self.t[k][1] == o.t[k][1] for k in self.t)

    def div(self, s):
        """(index Lin, residue) with self = s*index + residue, or None"""
        t = {}
        for k, (term, co) in self.t.items():
            sc = sgn(co, 64)
            if sc % s:
                return None
            t[k] = (term, (sc // s) & M64)
        c = sgn(self.c, 64)
        return Lin(c // s, t), c % s

    def key(self):
        return (self.c, tuple(sorted((k, co) for k, (_, co) in self.t.items())))

    def __repr__(self):
        return "Lin(%r)" % (self.val(),)


def _lin(e):
    if z3.is_bv_value(e):
        return Lin(e.as_long())
    if z3.is_app(e):
        k = e.decl().kind()
        if k == z3.Z3_OP_BADD:
            r = Lin(0)
            for ch in e.children():
                r = r + _lin(ch)
            return r
        if k == z3.Z3_OP_BSUB:
            ch = e.children()
            r = _lin(ch[0])
            for x in ch[1:]:
                r = r - _lin(x)
            return r
        if k == z3.Z3_OP_BNEG:
            return -_lin(e.arg(0))
        if k == z3.Z3_OP_BMUL:
            ch = e.children()
            if len(ch) == 2:
                if z3.is_bv_value(ch[0]):
                    return _lin(ch[1]).scale(ch[0].as_long())
                if z3.is_bv_value(ch[1]):
                    return _lin(ch[0]).scale(ch[1].as_long())
        if k == z3.Z3_OP_BSHL and z3.is_bv_value(e.arg(1)):
            return _lin(e.arg(0)).scale(1 << e.arg(1).as_long())
    return Lin(0, {e.get_id(): (e, 1)})


def norm64(v):
    """canonical form of a 64-bit value"""
    if isc(v):
        return int(v) & M64
    return Lin.of(v).val()


# ------------------------------------------------------------------ objects and pointers
class Obj:
    _n = 0
    __slots__ = ("id", "name", "size", "kind", "addr", "tag")

    def __init__(self, name, size, kind, tag=None):
        Obj._n += 1
        self.id, self.name, self.size, self.kind, self.addr, self.tag = Obj._n, name, size, kind, None, tag

    def __repr__(self):
        return "%s#%d" % (self.name, self.id)


class Ptr:
    __slots__ = ("obj", "off")

    def __init__(self, obj, off=None):
        self.obj, self.off = obj, Lin(0) if off is None else Lin.of(off)

    def add(self, d):
        return Ptr(self.obj, self.off + d)

    @property
    def null(self):
        return self.obj is None

    def __repr__(self):
        return "Ptr(%s+%r)" % (self.obj, self.off.val())


NULL = Ptr(None)


class FnPtr:
    """address of a function"""
    __slots__ = ("name",)

    def __init__(self, name):
        self.name = name

    def __repr__(self):
        return "&" + self.name


class SymFn:
    """unknown (caller-supplied) function pointer; `null` is a z3 Bool or python bool"""

    def __init__(self, name, null=False):
        self.name, self.null = name, null


class Opaque:
    """a value whose content the engine does not interpret (floats, std::function bodies, ...)"""

    def __init__(self, name, data=None):
        self.name, self.data = name, data

    def __repr__(self):
        return "<%s>" % self.name


class Undef:
    def __repr__(self):
        return "undef"


UNDEF = Undef()


# ------------------------------------------------------------------ strings as ropes
class Piece:
    __slots__ = ("kind", "data", "len", "at", "key", "sub")

    def __init__(self, kind, data, ln, at, key, sub=None):
        self.kind, self.data, self.len, self.at, self.key, self.sub = kind, data, ln, at, key, sub

    def __repr__(self):
        return repr(self.data) if self.kind == "lit" else "<%s>" % (self.key,)


def lit_piece(b):
    def at(k):
        if isc(k):
            return b[k] if 0 <= k < len(b) else 0
        e = z3.BitVecVal(0, 8)
        for i in range(len(b) - 1, -1, -1):
            e = z3.If(k == i, z3.BitVecVal(b[i], 8), e)
        return e
    return Piece("lit", b, len(b), at, ("lit", b))


class Str:
    """immutable byte string value: a sequence of pieces"""
    __slots__ = ("p",)

    def __init__(self, pieces=()):
        out = []
        for x in pieces:
            if x.kind == "lit":
                if not x.data:
                    continue
                if out and out[-1].kind == "lit":
                    out[-1] = lit_piece(out[-1].data + x.data)
                    continue
            elif isc(x.len) and x.len == 0:
                continue
            out.append(x)
        self.p = tuple(out)

    @staticmethod
    def lit(b):
        if isinstance(b, str):
            b = b.encode()
        return Str([lit_piece(b)])

    @staticmethod
    def sym(key, ln, at):
        return Str([Piece("sym", None, ln, at, ("sym",) + tuple(key))])

    def cat(self, o):
        return Str(self.p + o.p)

    @property
    def len(self):
        n = Lin(0)
        for x in self.p:
            n = n + Lin.of(x.len)
        return n.val()

    def at(self, k):
        """character at k (0 outside), as int | z3 BV8"""
        off = Lin(0)
        kl = Lin.of(k)
        cases = []
        for x in self.p:
            rel = (kl - off)
            r = rel.val()
            if isc(r) and isc(x.len):
                if sgn(r, 64) < 0:
                    break
                if r < x.len:
                    cases.append((True, x.at(r)))
                    break
            else:
                cases.append((z3.ULT(bv(r, 64), bv(x.len, 64)), x.at(r)))
            off = off + Lin.of(x.len)
        e = 0
        for c, v in reversed(cases):
            e = v if c is True else z3.If(c, bv(v, 8), bv(e, 8))
        return e

    def key(self):
        return tuple((x.key, x.len if isc(x.len) else Lin.of(x.len).key()) for x in self.p)

    def same(self, o):
        return self.key() == o.key()

    def lit_value(self):
        if not self.p:
            return b""
        if len(self.p) == 1 and self.p[0].kind == "lit":
            return self.p[0].data
        return None

    def __repr__(self):
        return "Str" + repr(list(self.p))


EMPTY = Str()


class Vec:
    """std::vector value: data object (None when never allocated) and length"""
    __slots__ = ("obj", "len", "es")

    def __init__(self, obj, ln, es):
        self.obj, self.len, self.es = obj, ln, es

    def __repr__(self):
        return "Vec(%s,%r)" % (self.obj, self.len)


# ------------------------------------------------------------------ quantified facts
class Forall:
    """forall k : BV64.  body(k)      trig: names of uninterpreted functions whose arguments instantiate k"""
    __slots__ = ("body", "trig", "name")

    def __init__(self, body, trig=None, name=""):
        self.body, self.trig, self.name = body, trig, name


def And(*a):
    a = [x for x in a if x is not True]
    if any(x is False for x in a):
        return False
    if not a:
        return True
    return a[0] if len(a) == 1 else z3.And(*a)


def Or(*a):
    a = [x for x in a if x is not False]
    if any(x is True for x in a):
        return True
    if not a:
        return False
    return a[0] if len(a) == 1 else z3.Or(*a)


def Not(a):
    if isinstance(a, bool):
        return not a
    return z3.Not(a)


def Implies(a, b):
    if a is True:
        return b
    if a is False or b is True:
        return True
    if b is False:
        return Not(a)
    return z3.Implies(a, b)


def Iff(a, b):
    if isinstance(a, bool) and isinstance(b, bool):
        return a == b
    if a is True:
        return b
    if b is True:
        return a
    if a is False:
        return Not(b)
    if b is False:
        return Not(a)
    return a == b


def ult(a, b, w=64):
    if isc(a) and isc(b):
        return a < b
    return z3.ULT(bv(a, w), bv(b, w))


def ule(a, b, w=64):
    if isc(a) and isc(b):
        return a <= b
    return z3.ULE(bv(a, w), bv(b, w))


def eqv(a, b, w=64):
    if isc(a) and isc(b):
        return a == b
    return bv(a, w) == bv(b, w)


def Ite(c, a, b, w):
    if c is True:
        return a
    if c is False:
        return b
    if isc(a) and isc(b) and a == b:
        return a
    return z3.If(c, bv(a, w), bv(b, w))
