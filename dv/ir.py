"""Parser for the textual LLVM IR that clang emits for /repo's translation units.

Only what clang -O0 produces for this code base is handled; anything else raises
IRError, which the driver reports as "outside the verifier's reach" (never as a
violation).
"""
import re
import subprocess


class IRError(Exception):
    pass


# ---------------------------------------------------------------- types
class Ty:
    __slots__ = ("k", "n", "el", "name", "mod", "_sz")

    def __init__(self, k, n=0, el=None, name=None, mod=None):
        self.k, self.n, self.el, self.name, self.mod, self._sz = k, n, el, name, mod, None

    def __repr__(self):
        if self.k == "int":
            return "i%d" % self.n
        if self.k == "arr":
            return "[%d x %r]" % (self.n, self.el)
        if self.k == "named":
            return "%" + self.name
        if self.k == "struct":
            return "{%s}" % ", ".join(map(repr, self.el))
        return self.k

    def resolve(self):
        t = self
        while t.k == "named":
            u = t.mod.types.get(t.name)
            if u is None:
                raise IRError("unknown type " + t.name)
            t = u
        return t

    def align(self):
        t = self.resolve()
        if t.k == "int":
            return max(1, min(16, _p2((t.n + 7) // 8)))
        if t.k in ("ptr",):
            return 8
        if t.k == "double":
            return 8
        if t.k == "float":
            return 4
        if t.k == "x86_fp80":
            return 16
        if t.k == "arr":
            return t.el.align()
        if t.k == "struct":
            return max([e.align() for e in t.el] or [1])
        if t.k == "packed":
            return 1
        raise IRError("align of %r" % t)

    def size(self):
        if self._sz is not None:
            return self._sz
        t = self.resolve()
        if t.k == "int":
            s = _p2((t.n + 7) // 8)
        elif t.k == "ptr" or t.k == "double":
            s = 8
        elif t.k == "float":
            s = 4
        elif t.k == "x86_fp80":
            s = 16
        elif t.k == "arr":
            s = t.n * t.el.size()
        elif t.k == "struct":
            o = 0
            for e in t.el:
                a = e.align()
                o = (o + a - 1) // a * a + e.size()
            a = t.align()
            s = (o + a - 1) // a * a
        elif t.k == "packed":
            s = sum(e.size() for e in t.el)
        elif t.k == "void":
            s = 0
        else:
            raise IRError("size of %r" % t)
        self._sz = s
        return s

    def field(self, i):
        """(offset, type) of member i."""
        t = self.resolve()
        if t.k == "arr":
            return i * t.el.size(), t.el
        if t.k == "packed":
            return sum(e.size() for e in t.el[:i]), t.el[i]
        o = 0
        for j, e in enumerate(t.el):
            a = e.align()
            o = (o + a - 1) // a * a
            if j == i:
                return o, e
            o += e.size()
        raise IRError("no field %d in %r" % (i, t))


def _p2(n):
    p = 1
    while p < n:
        p *= 2
    return p


I1, I8, I32, I64 = Ty("int", 1), Ty("int", 8), Ty("int", 32), Ty("int", 64)
PTR, VOID = Ty("ptr"), Ty("void")

TOK = re.compile(
    r'c"(?:[^"])*"|[@%$]"[^"]*"|"[^"]*"|[@%$][-\w.$]+|![-\w.]+|#\d+|'
    r'-?\d+\.\d+(?:e[+-]?\d+)?|0x[KLMHR]?[0-9A-Fa-f]+|-?\d+|\.\.\.|[A-Za-z_][\w.]*|[()\[\]{}<>,=*!:|]')


def lex(s):
    return TOK.findall(s)


def _unq(t):
    # '%"foo"' -> 'foo'; '@bar' -> 'bar'
    t = t[1:]
    if t.startswith('"'):
        t = t[1:-1]
    return t


PARAM_ATTRS = {"noundef", "nonnull", "signext", "zeroext", "noalias", "nocapture", "readonly", "writeonly", "returned",
               "immarg", "inreg", "readnone", "dead_on_unwind", "writable", "nest", "noalias", "allocalign", "allocptr",
               "inalloca", "swiftself", "noreturn", "nofree"}
FN_KW = {"dso_local", "internal", "linkonce_odr", "weak_odr", "private", "hidden", "local_unnamed_addr", "unnamed_addr",
         "available_externally", "external", "weak", "linkonce", "extern_weak", "protected", "default", "fastcc",
         "coldcc", "ccc", "tail", "musttail", "notail", "thread_local", "preallocated"}


class P:
    """token cursor"""

    def __init__(self, toks, mod):
        self.t, self.i, self.mod = toks, 0, mod

    def peek(self, k=0):
        return self.t[self.i + k] if self.i + k < len(self.t) else None

    def next(self):
        x = self.t[self.i]
        self.i += 1
        return x

    def acc(self, x):
        if self.peek() == x:
            self.i += 1
            return True
        return False

    def exp(self, x):
        y = self.next()
        if y != x:
            raise IRError("expected %r got %r in %r" % (x, y, " ".join(self.t)[:300]))

    def type(self):
        x = self.next()
        if x == "ptr":
            t = PTR
            if self.peek() == "addrspace":
                raise IRError("addrspace")
        elif x == "void":
            t = VOID
        elif x in ("double", "float", "x86_fp80", "metadata", "label", "token"):
            t = Ty(x)
        elif x[0] == "i" and x[1:].isdigit():
            t = Ty("int", int(x[1:]))
        elif x[0] == "%":
            t = Ty("named", name=_unq(x), mod=self.mod)
        elif x == "[":
            n = int(self.next())
            self.exp("x")
            e = self.type()
            self.exp("]")
            t = Ty("arr", n, e)
        elif x == "{":
            t = self.struct("struct", "}")
        elif x == "<":
            if self.acc("{"):
                t = self.struct("packed", "}")
                self.exp(">")
            else:
                n = int(self.next())
                self.exp("x")
                e = self.type()
                self.exp(">")
                t = Ty("vec", n, e)
        elif x == "opaque":
            t = Ty("opaque")
        else:
            raise IRError("type? %r in %s" % (x, " ".join(self.t)[:200]))
        # function type:  ret (args)
        if self.peek() == "(":
            # only in call position: caller handles
            pass
        return t

    def struct(self, kind, close):
        els = []
        while not self.acc(close):
            els.append(self.type())
            self.acc(",")
        return Ty(kind, el=els)

    def param_attrs(self):
        a = {}
        while True:
            x = self.peek()
            if x in PARAM_ATTRS:
                a[x] = True
                self.next()
            elif x in ("align",):
                self.next()
                if self.acc("("):
                    self.next()
                    self.exp(")")
                else:
                    self.next()
            elif x in ("dereferenceable", "dereferenceable_or_null"):
                self.next()
                self.exp("(")
                a[x] = int(self.next())
                self.exp(")")
            elif x in ("sret", "byval", "elementtype", "byref"):
                self.next()
                self.exp("(")
                a[x] = self.type()
                self.exp(")")
            elif x in ("nofpclass", "memory", "range", "captures", "initializes"):
                self.next()
                self.exp("(")
                d = 1
                while d:
                    y = self.next()
                    d += (y == "(") - (y == ")")
            elif x is not None and (x.startswith('"') or x.startswith("#")):
                self.next()
            else:
                return a

    def value(self, ty):
        """operand of the given type -> ('reg',name)|('int',n)|('null',)|('global',name)|('undef',)|('zero',)|
        ('agg',[(ty,val)])|('cstr',bytes)|('gep',...)|('cast',...)"""
        x = self.next()
        if x[0] == "%":
            return ("reg", _unq(x))
        if x[0] == "@":
            return ("global", _unq(x))
        if x == "null":
            return ("null",)
        if x == "true":
            return ("int", 1)
        if x == "false":
            return ("int", 0)
        if x in ("undef", "poison"):
            return ("undef",)
        if x == "zeroinitializer":
            return ("zero",)
        if x[0] == "c" and x[1:2] == '"':
            return ("cstr", _cstr(x[2:-1]))
        if x in ("{", "["):
            close = "}" if x == "{" else "]"
            els = []
            while not self.acc(close):
                t = self.type()
                els.append((t, self.value(t)))
                self.acc(",")
            return ("agg", els)
        if x == "<":
            if self.acc("{"):
                els = []
                while not self.acc("}"):
                    t = self.type()
                    els.append((t, self.value(t)))
                    self.acc(",")
                self.exp(">")
                return ("agg", els)
            raise IRError("vector const")
        if x == "getelementptr":
            inb = self.acc("inbounds")
            while self.peek() in ("inrange", "nuw", "nusw"):
                self.next()
                if self.acc("("):
                    while self.next() != ")":
                        pass
            self.exp("(")
            bt = self.type()
            self.exp(",")
            pt = self.type()
            base = self.value(pt)
            idx = []
            while self.acc(","):
                while self.peek() in ("inrange",):
                    self.next()
                    if self.acc("("):
                        while self.next() != ")":
                            pass
                t = self.type()
                idx.append((t, self.value(t)))
            self.exp(")")
            return ("gep", bt, base, idx)
        if x in ("ptrtoint", "inttoptr", "bitcast", "trunc"):
            self.exp("(")
            t = self.type()
            v = self.value(t)
            self.exp("to")
            t2 = self.type()
            self.exp(")")
            return ("cast", x, t, v, t2)
        if x in ("sub", "add", "mul"):
            while self.peek() in ("nsw", "nuw"):
                self.next()
            self.exp("(")
            t = self.type()
            a = self.value(t)
            self.exp(",")
            t2 = self.type()
            b = self.value(t2)
            self.exp(")")
            return ("cbin", x, t, a, b)
        if re.match(r"-?\d+$", x):
            return ("int", int(x))
        if x.startswith("0x") or re.match(r"-?\d+\.", x):
            return ("fp", x)
        raise IRError("value? %r in %s" % (x, " ".join(self.t)[:300]))


def _cstr(s):
    out = bytearray()
    i = 0
    while i < len(s):
        if s[i] == "\\":
            if s[i + 1] == "\\":
                out.append(92)
                i += 2
                continue
            out.append(int(s[i + 1:i + 3], 16))
            i += 3
        else:
            out += s[i].encode("utf-8")
            i += 1
    return bytes(out)


class Instr:
    __slots__ = ("op", "res", "a", "line", "txt")

    def __init__(self, op, res, a, line, txt):
        self.op, self.res, self.a, self.line, self.txt = op, res, a, line, txt

    def __repr__(self):
        return "%s (line %s)" % (self.txt.strip()[:160], self.line)


class Block:
    def __init__(self, name):
        self.name, self.ins = name, []

    def succs(self):
        t = self.ins[-1]
        if t.op == "br":
            return [t.a[0]] if len(t.a) == 1 else [t.a[1], t.a[2]]
        if t.op == "switch":
            return list(dict.fromkeys([t.a[2]] + [b for _, b in t.a[3]]))
        if t.op == "invoke":
            return [t.a["normal"], t.a["unwind"]]
        return []


class Function:
    def __init__(self, mod, name, ret, params, vararg, attrs):
        self.mod, self.name, self.ret, self.params, self.vararg = mod, name, ret, params, vararg
        self.attrs = attrs
        self.body = None      # raw lines
        self.blocks = None
        self.personality = False
        self.dbg = None
        self._loops = None

    @property
    def dem(self):
        return self.mod.dem.get(self.name, self.name)

    def parse(self):
        if self.blocks is not None:
            return self
        blocks, cur, order = {}, None, []
        for ln in self._logical():
            s = ln.strip()
            if not s or s.startswith(";"):
                continue
            m = re.match(r'^("[^"]*"|[-\w.$]+):', ln)
            if m:
                nm = m.group(1).strip('"')
                cur = Block(nm)
                blocks[nm] = cur
                order.append(nm)
                continue
            if cur is None:
                # implicit entry label: numbered
                cur = Block("entry")
                blocks["entry"] = cur
                order.append("entry")
            cur.ins.append(self.mod.instr(s))
        self.blocks, self.order = blocks, order
        return self

    def _logical(self):
        """join multi-line instructions (switch, landingpad, invoke)"""
        L, i, n = self.body, 0, len(self.body)
        while i < n:
            ln = L[i]
            st = ln.strip()
            i += 1
            if st.startswith("switch ") and not re.search(r"\]\s*(,.*)?$", st):
                while not L[i].strip().startswith("]"):
                    ln += " " + L[i].strip()
                    i += 1
                ln += " " + L[i].strip()
                i += 1
            elif re.match(r"(%\S+ = )?invoke ", st) and " unwind label " not in st:
                ln += " " + L[i].strip()
                i += 1
            elif re.match(r'(%\S+|%"[^"]*") = landingpad', st):
                while re.match(r"\s+(catch|cleanup|filter)\b", L[i]):
                    ln += " " + L[i].strip()
                    i += 1
            yield ln

    # ---- natural loops
    def loops(self):
        """header -> set of body blocks"""
        if self._loops is not None:
            return self._loops
        self.parse()
        order = self.order
        succ = {b: self.blocks[b].succs() for b in order}
        pred = {b: [] for b in order}
        for b in order:
            for s in succ[b]:
                pred[s].append(b)
        # dominators (iterative, small functions)
        dom = {b: set(order) for b in order}
        dom[order[0]] = {order[0]}
        ch = True
        while ch:
            ch = False
            for b in order[1:]:
                ps = [dom[p] for p in pred[b]]
                new = set.intersection(*ps) if ps else set()
                new = new | {b}
                if new != dom[b]:
                    dom[b] = new
                    ch = True
        loops = {}
        for b in order:
            for s in succ[b]:
                if s in dom[b]:
                    body = {s, b}
                    work = [b] if b != s else []
                    while work:
                        x = work.pop()
                        for p in pred[x]:
                            if p not in body:
                                body.add(p)
                                work.append(p)
                    loops.setdefault(s, set()).update(body)
        self._loops = loops
        return loops


class Module:
    def __init__(self, text, label):
        self.label = label
        self.types, self.globals, self.fns, self.dem = {}, {}, {}, {}
        self.aliases = {}
        self.dbgloc = {}
        self._parse(text)

    def _parse(self, text):
        lines = text.split("\n")
        i, n = 0, len(lines)
        names = set()
        while i < n:
            ln = lines[i]
            if not ln or ln[0] == ";":
                i += 1
                continue
            if ln.startswith("%"):
                m = re.match(r'^(%"[^"]*"|%[-\w.$]+) = type (.*)$', ln)
                if m:
                    self.types[_unq(m.group(1))] = P(lex(m.group(2)), self).type()
            elif ln.startswith("@"):
                m = re.match(r'^(@"[^"]*"|@[-\w.$]+) = (.*)$', ln)
                self._global(_unq(m.group(1)), m.group(2))
            elif ln.startswith("define "):
                f = self._fnhdr(ln)
                j = i + 1
                while lines[j] != "}":
                    j += 1
                f.body = lines[i + 1:j]
                self.fns[f.name] = f
                i = j
            elif ln.startswith("declare "):
                f = self._fnhdr(ln)
                if f.name not in self.fns:
                    self.fns[f.name] = f
            elif ln.startswith("!"):
                m = re.match(r"^(!\d+) = (?:distinct )?!DILocation\(line: (\d+)", ln)
                if m:
                    self.dbgloc[m.group(1)] = int(m.group(2))
            i += 1
        ns = list(self.fns)
        out = subprocess.run(["c++filt"], input="\n".join(ns), capture_output=True, text=True).stdout.split("\n")
        self.dem = {a: b.replace("[abi:cxx11]", "") for a, b in zip(ns, out)}

    def _global(self, name, rest):
        toks = lex(rest)
        p = P(toks, self)
        if " alias " in " " + rest:
            m = re.search(r"(@[-\w.$]+)\s*$", rest)
            if m:
                self.aliases[name] = _unq(m.group(1))
            return
        ext = False
        while p.peek() not in ("global", "constant"):
            if p.peek() in ("external", "extern_weak"):
                ext = True
            if p.next() is None:
                return
        const = p.next() == "constant"
        ty = p.type()
        init = None
        if not ext:
            try:
                init = p.value(ty)
            except IRError as e:
                init = ("bad", str(e))
        self.globals[name] = (ty, init, const)

    def _fnhdr(self, ln):
        m = re.match(r'^(define|declare)\s', ln)
        toks = lex(ln)
        p = P(toks, self)
        p.next()
        while p.peek() in FN_KW:
            p.next()
        ra = p.param_attrs()
        ret = p.type()
        nm = _unq(p.next())
        p.exp("(")
        params, vararg = [], False
        while not p.acc(")"):
            if p.acc("..."):
                vararg = True
                continue
            t = p.type()
            a = p.param_attrs()
            r = None
            if p.peek() and p.peek()[0] == "%":
                r = _unq(p.next())
            params.append((t, r, a))
            p.acc(",")
        f = Function(self, nm, ret, params, vararg, set())
        # attributes groups are not resolved; noreturn comes from the call itself
        return f

    # ---- instructions
    def instr(self, s):
        line = None
        m = re.search(r"!dbg (!\d+)", s)
        if m:
            line = self.dbgloc.get(m.group(1))
        s2 = re.sub(r",?\s*![-\w.]+ !\d+", "", s)
        toks = lex(s2)
        p = P(toks, self)
        res = None
        if p.peek(1) == "=" and p.peek()[0] == "%":
            res = _unq(p.next())
            p.next()
        while p.peek() in ("tail", "musttail", "notail"):
            p.next()
        op = p.next()
        h = getattr(self, "_i_" + op, None)
        if h is None:
            if op in BINOPS:
                h = lambda p: self._bin(op, p)
            elif op in CASTS:
                h = lambda p: self._cast(op, p)
            else:
                raise IRError("instruction %s" % s)
        a = h(p)
        return Instr(op, res, a, line, s2)

    def _bin(self, op, p):
        fl = set()
        while p.peek() in ("nsw", "nuw", "exact", "disjoint", "fast", "nnan"):
            fl.add(p.next())
        t = p.type()
        x = p.value(t)
        p.exp(",")
        y = p.value(t)
        return (t, x, y, fl)

    def _cast(self, op, p):
        while p.peek() in ("nneg", "nsw", "nuw"):
            p.next()
        t = p.type()
        v = p.value(t)
        p.exp("to")
        return (t, v, p.type())

    def _i_alloca(self, p):
        t = p.type()
        n = None
        if p.acc(","):
            if p.peek() != "align":
                nt = p.type()
                n = (nt, p.value(nt))
        return (t, n)

    def _i_store(self, p):
        p.acc("volatile")
        at = p.acc("atomic")
        t = p.type()
        v = p.value(t)
        p.exp(",")
        p.type()
        return (t, v, p.value(PTR))

    def _i_load(self, p):
        p.acc("volatile")
        p.acc("atomic")
        p.acc("volatile")
        t = p.type()
        p.exp(",")
        p.type()
        return (t, p.value(PTR))

    def _i_getelementptr(self, p):
        inb = p.acc("inbounds")
        t = p.type()
        p.exp(",")
        p.type()
        b = p.value(PTR)
        idx = []
        while p.acc(","):
            it = p.type()
            idx.append((it, p.value(it)))
        return (t, b, idx, inb)

    def _i_icmp(self, p):
        c = p.next()
        t = p.type()
        a = p.value(t)
        p.exp(",")
        return (c, t, a, p.value(t))

    def _i_fcmp(self, p):
        c = p.next()
        t = p.type()
        a = p.value(t)
        p.exp(",")
        return (c, t, a, p.value(t))

    def _i_br(self, p):
        if p.acc("label"):
            return (_unq(p.next()),)
        t = p.type()
        v = p.value(t)
        p.exp(",")
        p.exp("label")
        a = _unq(p.next())
        p.exp(",")
        p.exp("label")
        return (v, a, _unq(p.next()))

    def _i_switch(self, p):
        t = p.type()
        v = p.value(t)
        p.exp(",")
        p.exp("label")
        d = _unq(p.next())
        p.exp("[")
        cs = []
        while not p.acc("]"):
            ct = p.type()
            c = p.value(ct)
            p.exp(",")
            p.exp("label")
            cs.append((c[1], _unq(p.next())))
        return (t, v, d, cs)

    def _i_ret(self, p):
        t = p.type()
        if t.k == "void":
            return (t, None)
        return (t, p.value(t))

    def _i_phi(self, p):
        t = p.type()
        inc = []
        while True:
            p.exp("[")
            v = p.value(t)
            p.exp(",")
            inc.append((v, _unq(p.next())))
            p.exp("]")
            if not p.acc(","):
                return (t, inc)

    def _i_select(self, p):
        t = p.type()
        c = p.value(t)
        p.exp(",")
        t1 = p.type()
        a = p.value(t1)
        p.exp(",")
        t2 = p.type()
        return (c, t1, a, p.value(t2))

    def _callee(self, p):
        while p.peek() in FN_KW:
            p.next()
        ra = p.param_attrs()
        ret = p.type()
        if p.acc("("):  # full function type
            d = 1
            while d:
                x = p.next()
                d += (x == "(") - (x == ")")
        x = p.peek()
        if x == "asm":
            raise IRError("inline asm")
        fn = p.value(PTR)
        p.exp("(")
        args = []
        while not p.acc(")"):
            t = p.type()
            if t.k == "metadata":
                # skip metadata operand
                while p.peek() not in (",", ")"):
                    p.next()
                p.acc(",")
                continue
            a = p.param_attrs()
            v = p.value(t)
            args.append((t, v, a))
            p.acc(",")
        return ret, fn, args

    def _i_call(self, p):
        while p.peek() in ("fast", "nnan", "ninf"):
            p.next()
        ret, fn, args = self._callee(p)
        return {"ret": ret, "fn": fn, "args": args}

    def _i_invoke(self, p):
        ret, fn, args = self._callee(p)
        while p.peek() != "to":
            p.next()
        p.exp("to")
        p.exp("label")
        a = _unq(p.next())
        p.exp("unwind")
        p.exp("label")
        return {"ret": ret, "fn": fn, "args": args, "normal": a, "unwind": _unq(p.next())}

    def _i_landingpad(self, p):
        t = p.type()
        cl = []
        while p.peek() is not None:
            x = p.next()
            if x == "cleanup":
                cl.append(("cleanup",))
            elif x == "catch":
                ct = p.type()
                cl.append(("catch", p.value(ct)))
            elif x == "filter":
                ct = p.type()
                cl.append(("filter", p.value(ct)))
            else:
                raise IRError("landingpad clause " + x)
        return (t, cl)

    def _i_resume(self, p):
        t = p.type()
        return (t, p.value(t))

    def _i_unreachable(self, p):
        return ()

    def _i_extractvalue(self, p):
        t = p.type()
        v = p.value(t)
        idx = []
        while p.acc(","):
            idx.append(int(p.next()))
        return (t, v, idx)

    def _i_insertvalue(self, p):
        t = p.type()
        v = p.value(t)
        p.exp(",")
        t2 = p.type()
        x = p.value(t2)
        idx = []
        while p.acc(","):
            idx.append(int(p.next()))
        return (t, v, t2, x, idx)

    def _i_freeze(self, p):
        t = p.type()
        return (t, p.value(t))

    def _i_fneg(self, p):
        t = p.type()
        return (t, p.value(t))

    def _i_fence(self, p):
        return ()

    def _i_atomicrmw(self, p):
        p.acc("volatile")
        op = p.next()
        p.type()
        ptr = p.value(PTR)
        p.exp(",")
        t = p.type()
        return (op, ptr, t, p.value(t))

    def _i_cmpxchg(self, p):
        p.acc("weak")
        p.acc("volatile")
        p.type()
        ptr = p.value(PTR)
        p.exp(",")
        t = p.type()
        c = p.value(t)
        p.exp(",")
        t2 = p.type()
        return (ptr, t, c, p.value(t2))


BINOPS = {"add", "sub", "mul", "udiv", "sdiv", "urem", "srem", "shl", "lshr", "ashr", "and", "or", "xor",
          "fadd", "fsub", "fmul", "fdiv", "frem"}
CASTS = {"trunc", "zext", "sext", "ptrtoint", "inttoptr", "bitcast", "fptrunc", "fpext", "fptosi", "fptoui",
         "sitofp", "uitofp", "addrspacecast"}
