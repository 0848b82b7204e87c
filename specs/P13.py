"""P13: lru_cache.

The abstract state is the recency list: base elements 0..n-1 with pairwise distinct keys key(i) and values val(i), in order of
recency, together with the map key(i) -> element i.  std::list and std::unordered_map are trusted contracts over that state.
Every operation is run from an arbitrary state (any n, any keys, any key asked for, any capacity with n <= capacity) and has to
reach exactly the state the property describes, which is again of that form; so every sequence of operations follows by induction."""
from dv.spec import *

T = [TU("probe:lru")]
L = r"^std::__cxx11::list<.*kvp, std::allocator<.*kvp> >::"
UM = r"^std::unordered_map<unsigned long, std::_List_iterator<.*>, .*>::"


class World:
    def __init__(self, c, st):
        self.c, self.st = c, st
        eng = self.eng = c.eng
        c.common()
        self.key = eng.fresh_fn("key", 64)
        self.val = eng.fresh_fn("val", 64)
        self.n = c.int("n")
        self.k = c.int("k")
        st.assume(ult(self.n, 1 << 40))
        self.lend = Ptr(st.new_obj("list.end", 16, "input"))
        self.mend = Ptr(st.new_obj("map.end", 16, "input"))
        g = st.ghost
        # list = front ++ base[0..nb) without `gone`;  map = base[0..mb) plus `extra`
        g.update(front=(), gone=(), nb=0, mb=0, extra=(), live=False)
        g["cache:nodes"] = g["cache:mnodes"] = ()
        self.models()

    def canonical(self, st):
        st.ghost.update(front=(), gone=(), nb=self.n, mb=self.n, extra=())
        st.ghost["cache:nodes"] = st.ghost["cache:mnodes"] = ()
        key, n = self.key, self.n

    def distinct(self, st, p):
        """keys of different elements differ (instantiated at p)"""
        key, n = self.key, self.n
        st.assume(Forall(lambda i: Implies(And(ult(i, n), Not(eqv(i, p))), Not(eqv(key(i), key(bv(p, 64))))), {key.name()}, "keys are distinct"))

    # nodes
    def node(self, st, idx):
        for i, o in st.ghost["cache:nodes"]:
            if i is None:
                continue
            if st.decide(eqv(i, idx)):
                return Ptr(st.objs[o])
        ob = st.new_obj("element", 16, "input")
        self.eng.put(st, Ptr(ob), 8, self.key(bv(idx, 64)))
        self.eng.put(st, Ptr(ob, 8), 8, self.val(bv(idx, 64)))
        st.ghost["cache:nodes"] += ((idx, ob.id),)
        return Ptr(ob)

    def mnode(self, st, idx):
        for i, o in st.ghost["cache:mnodes"]:
            if i is not None and st.decide(eqv(i, idx)):
                return Ptr(st.objs[o])
        nd = self.node(st, idx)
        ob = st.new_obj("map entry", 16, "input")
        self.eng.put(st, Ptr(ob), 8, self.key(bv(idx, 64)))
        self.eng.put(st, Ptr(ob, 8), 8, nd)
        st.ghost["cache:mnodes"] += ((idx, ob.id),)
        return Ptr(ob)

    def size(self, st):
        g = st.ghost
        return (Lin.of(g["nb"]) + (len(g["front"]) - len(g["gone"]))).val()

    def first(self, st):
        g = st.ghost
        if g["front"]:
            return Ptr(st.objs[g["front"][0]])
        if g["gone"]:
            raise Unsupported("list state")
        if st.decide(eqv(g["nb"], 0)):
            return self.lend
        return self.node(st, 0)

    def last(self, st):
        g = st.ghost
        if g["gone"]:
            raise Unsupported("list state")
        if st.decide(eqv(g["nb"], 0)):
            if not g["front"]:
                self.eng.oblige(st, "back() of a non-empty list", False)
                raise engine.Infeasible()
            return Ptr(st.objs[g["front"][-1]])
        return self.node(st, (Lin.of(g["nb"]) - 1).val())

    def find(self, st, k):
        """-> pointer to the map entry of k, or the end"""
        g = st.ghost
        for kk, o in g["extra"]:
            if st.decide(eqv(kk, k)):
                return Ptr(st.objs[o])
        key, mb = self.key, g["mb"]
        if st.decide(self.eng.fresh("present", 1)):
            p = self.eng.fresh("p", 64)
            st.assume(ult(p, mb))
            st.assume(eqv(key(p), k))
            self.distinct(st, p)
            return self.mnode(st, p)
        st.assume(Forall(lambda i: Implies(ult(i, mb), Not(eqv(key(i), k))), {key.name()}, "absent"))
        return self.mend

    def models(self):
        c, eng, w = self.c, self.eng, self

        def noop(eng, st, a, ins):
            return None

        def push_front(eng, st, a, ins):
            ob = st.new_obj("element", 16, "input")
            for o in (0, 8):
                eng.put(st, Ptr(ob, o), 8, eng.load(st, a[1].add(o), ir.I64))
            st.ghost["front"] = (ob.id,) + st.ghost["front"]
            st.ghost["cache:nodes"] += ((None, ob.id),)

        def pop_back(eng, st, a, ins):
            g = st.ghost
            if g["gone"]:
                raise Unsupported("list state")
            if st.decide(eqv(g["nb"], 0)):
                if not g["front"]:
                    eng.oblige(st, "pop_back of a non-empty list", False)
                    raise engine.Infeasible()
                g["front"] = g["front"][:-1]
            else:
                g["nb"] = (Lin.of(g["nb"]) - 1).val()

        def splice(eng, st, a, ins):
            pos, it = a[1], a[3]
            pos = eng.load(st, pos, ir.PTR) if pos.obj.size != 16 and False else pos
            f = w.first(st)
            eng.oblige(st, "splice stays within one list", a[0].obj is a[2].obj and a[0].off.const() == a[2].off.const())
            if pos.obj is not f.obj:
                eng.oblige(st, "the touched entry moves to the front", False)
                raise engine.Infeasible()
            if it.obj is pos.obj:
                # already the first one: nothing moves
                return None
            g = st.ghost
            if it.obj.id in g["front"]:
                raise Unsupported("list state")
            idx = [i for i, o in g["cache:nodes"] if o == it.obj.id]
            if not idx or idx[0] is None:
                eng.oblige(st, "splice moves an element of the list", False)
                raise engine.Infeasible()
            eng.oblige(st, "splice moves an element of the list", ult(idx[0], g["nb"]))
            g["front"] = (it.obj.id,) + g["front"]
            g["gone"] = g["gone"] + (idx[0],)

        def erase(eng, st, a, ins):
            g = st.ghost
            k = eng.load(st, a[1], ir.I64)
            # only ever used to evict: the erased entry has to be the least recently used one
            if st.decide(eqv(g["mb"], 0)):
                if not st.decide(eqv(g["nb"], 0)):
                    eng.oblige(st, "list and map hold the same keys", False)
                    raise engine.Infeasible()
                if len(g["extra"]) == 1:
                    eng.oblige(st, "the erased key is the one of the least recently used entry", eqv(k, g["extra"][0][0]))
                    g["extra"] = ()
                    return 1
                eng.oblige(st, "the erased key is in the map", False)
                raise engine.Infeasible()
            last = (Lin.of(g["mb"]) - 1).val()
            w.distinct(st, last)
            eng.oblige(st, "the erased key is the one of the least recently used entry", eqv(k, w.key(bv(last, 64))))
            g["mb"] = last
            return 1

        def insert(eng, st, a, ins):
            k = eng.load(st, a[1], ir.I64)
            r = w.find(st, k)
            if r.obj is not w.mend.obj:
                return [r, 0]
            ob = st.new_obj("map entry", 16, "input")
            eng.put(st, Ptr(ob), 8, k)
            eng.put(st, Ptr(ob, 8), 8, eng.load(st, a[1].add(8), ir.PTR))
            st.ghost["extra"] += ((k, ob.id),)
            return [Ptr(ob), 1]

        deref = lambda eng, st, a, ins: eng.load(st, a[0], ir.PTR)
        c.model(L + r"(list|~list)\(\)", noop)
        c.model(UM + r"(unordered_map|~unordered_map)\(\)", noop)
        c.model(L + r"size\(\) const", lambda eng, st, a, ins: w.size(st))
        c.model(L + r"empty\(\) const", lambda eng, st, a, ins: eqv(w.size(st), 0))
        c.model(L + r"(begin|front)\(\)", lambda eng, st, a, ins: w.first(st))
        c.model(L + r"end\(\)", lambda eng, st, a, ins: w.lend)
        c.model(L + r"back\(\)", lambda eng, st, a, ins: w.last(st))
        c.model(L + r"(push_front|emplace_front)\(", push_front)
        c.model(L + r"pop_back\(\)", pop_back)
        c.model(L + r"splice\(", splice)
        c.model(r"^std::_List_(const_)?iterator<.*kvp>::operator(->|\*)\(\) const", deref)
        c.model(r"^std::__detail::_Node_(const_)?iterator<std::pair<unsigned long const, std::_List_iterator.*::operator(->|\*)\(\) const", deref)
        c.model(UM + r"find\(", lambda eng, st, a, ins: w.find(st, eng.load(st, a[1], ir.I64)))
        c.model(UM + r"count\(", lambda eng, st, a, ins: 0 if w.find(st, eng.load(st, a[1], ir.I64)).obj is w.mend.obj else 1)
        c.model(UM + r"(end|cend)\(\)", lambda eng, st, a, ins: w.mend)
        c.model(UM + r"erase\(unsigned long const&\)", erase)
        c.model(UM + r"insert\(std::pair<.*&&\)", insert)

    # ---- postconditions
    def elements(self, o, changed=None):
        """every element that was looked at still carries its key, its value (but for `changed`) and its map entry"""
        st = o.st
        for i, ob in st.ghost["cache:nodes"]:
            if i is None:
                continue
            p = Ptr(st.objs[ob])
            self.c.ensure(o, eqv(self.c.get(p, 8, st=st), self.key(bv(i, 64))), "keys never change")
            if changed is None or ob != changed:
                self.c.ensure(o, eqv(self.c.get(p.add(8), 8, st=st), self.val(bv(i, 64))), "other values never change")
        for i, ob in st.ghost["cache:mnodes"]:
            p = Ptr(st.objs[ob])
            tgt = self.c.getp(p.add(8), st)
            self.c.ensure(o, any(x == tgt.obj.id and j is not None and j is i for j, x in st.ghost["cache:nodes"]), "the map keeps pointing at the same element")

    def unchanged(self, o, nb=None):
        g = o.st.ghost
        self.c.ensure(o, g["front"] == () and g["gone"] == () and g["extra"] == (), "no other entry is added or moved")
        self.c.ensure(o, And(eqv(g["nb"], self.n if nb is None else nb), eqv(g["mb"], self.n if nb is None else nb)), "list and map keep the same entries")

    def touched(self, o, p):
        """element p is at the front, everything else keeps its order"""
        g = o.st.ghost
        ok = (len(g["front"]) == 1 and len(g["gone"]) == 1) or (not g["front"] and not g["gone"])
        self.c.ensure(o, ok, "exactly one entry moves")
        if g["front"]:
            self.c.ensure(o, eqv(g["gone"][0], p), "the entry read moves to the front")
            self.c.ensure(o, any(x == g["front"][0] and j is not None and j is g["gone"][0] for j, x in g["cache:nodes"]), "and it is that entry")
        else:
            self.c.ensure(o, eqv(p, 0), "the entry read is at the front")
        self.c.ensure(o, And(eqv(g["nb"], self.n), eqv(g["mb"], self.n), len(g["extra"]) == 0), "nothing is added or removed")


def opt(c, st, name):
    """optional<size_t> argument: worlds [(state, pointer, None | term)]"""
    p = c.raw(name, 16, st)
    m = c.int(name + ".max")
    r = []
    for fn, args, v in (("om_none", [p], None), ("om_some", [p, m], m)):
        for o in c.normal(c.run(r"^probe::%s\(" % fn, args, st.copy())):
            r.append((o.st, p, v))
    return r


def worlds(c):
    """a cache in an arbitrary state: capacity none or m >= 1, any n <= m elements"""
    w = World(c, c.st)
    p = c.raw("cache", 256)
    r = []
    for st, a, m in opt(c, c.st, "capacity"):
        if m is not None:
            st.assume(Not(eqv(m, 0)))
        for o in c.normal(c.run(r"^probe::make\(", [p, a], st)):
            s = o.st
            w.canonical(s)
            if m is not None:
                s.assume(ule(w.n, m))
            r.append((s, m))
    return w, p, r


def found(o):
    """index of the element the key was found at (one lookup per operation), or None"""
    g = o.st.ghost
    return g["cache:mnodes"][0][0] if g["cache:mnodes"] else None


def trim_templates(c, w, mx):
    def t(eng, entry, mods, steps, ctx):
        if ("ghost", "nb") not in mods:
            return []
        nb0 = entry.ghost["nb"]
        return [("list and map agree", lambda st: eqv(st.ghost["nb"], st.ghost["mb"])),
                ("only shrinks", lambda st: ule(st.ghost["nb"], nb0)),
                ("stops at the capacity", lambda st: Or(eqv(st.ghost["nb"], nb0), And(ule(mx, w.size(st)) if mx is not None else False)))]
    c.eng.loop_templates.append(t)


@spec("P13", "a new cache is empty; a zero capacity is rejected", T)
def _(c):
    w = World(c, c.st)
    p = c.raw("cache", 256)
    for st, a, m in opt(c, c.st, "capacity"):
        for o in c.run(r"^probe::make\(", [p, a], st):
            if o.kind == "throw":
                c.ensure(o, m is not None and eqv(m, 0), "only a zero capacity is rejected")
                continue
            c.ensure(o, True if m is None else Not(eqv(m, 0)), "a zero capacity is rejected")
            c.ensure(o, eqv(w.size(o.st), 0), "empty")
            for q in c.normal(c.run(r"^probe::size\(", [p], o.st)):
                c.ensure(q, eqv(q.val, 0), "size() of a new cache")


@spec("P13", "maybe_touch moves the entry to the front", T)
def _(c):
    w, p, ws = worlds(c)
    for st, m in ws:
        kp = c.raw("key", 8, st)
        c.put(kp, 8, w.k, st)
        for o in c.normal(c.run(r"^probe::touch\(", [p, kp], st)):
            i = found(o)
            w.elements(o)
            if i is None:
                w.unchanged(o)
            else:
                c.ensure(o, eqv(w.key(bv(i, 64)), w.k), "the entry has the key asked for")
                w.touched(o, i)


for fn in ("get", "cget"):
    @spec("P13", "maybe_get%s returns the stored value and moves the entry to the front" % (" const" if fn == "cget" else ""), T)
    def _(c, fn=fn):
        w, p, ws = worlds(c)
        for st, m in ws:
            kp = c.raw("key", 8, st)
            c.put(kp, 8, w.k, st)
            for o in c.normal(c.run(r"^probe::%s\(" % fn, [p, kp], st)):
                i = found(o)
                w.elements(o)
                if i is None:
                    c.ensure(o, o.val.null, "an absent key gives nothing")
                    w.unchanged(o)
                else:
                    c.ensure(o, not o.val.null, "a present key gives a value")
                    c.ensure(o, eqv(w.key(bv(i, 64)), w.k), "the entry has the key asked for")
                    if not o.val.null:
                        c.ensure(o, eqv(c.get(o.val, 8, st=o.st), w.val(bv(i, 64))), "the value last stored for that key")
                    w.touched(o, i)


def inserted(c, w, o, v, m):
    g = o.st.ghost
    full = False if m is None else eqv(w.n, m)
    want = (Lin.of(w.n) - 1).val()
    c.ensure(o, len(g["front"]) == 1 and not g["gone"] and len(g["extra"]) == 1, "one entry is added")
    if len(g["front"]) != 1 or len(g["extra"]) != 1:
        return
    q = Ptr(o.st.objs[g["front"][0]])
    c.ensure(o, And(eqv(c.get(q, 8, st=o.st), w.k), eqv(c.get(q.add(8), 8, st=o.st), v)), "the new entry is at the front with its key and value")
    kk, ob = g["extra"][0]
    c.ensure(o, eqv(kk, w.k), "the map gets the new key")
    tgt = c.getp(Ptr(o.st.objs[ob], 8), o.st)
    c.ensure(o, tgt.obj is q.obj, "the map entry points at the new entry")
    for f in ("nb", "mb"):
        c.ensure(o, eqv(g[f], Ite(full, want, w.n, 64)), "the least recently used entry is evicted exactly when the cache was full (%s)" % f)
    w.elements(o)


@spec("P13", "insert adds a new key at the front and changes nothing for an existing key", T)
def _(c):
    w, p, ws = worlds(c)
    v = c.int("v")
    for st, m in ws:
        c.eng.loop_templates.clear()
        c.eng.loopmode.clear()
        trim_templates(c, w, m)
        kp = c.raw("key", 8, st)
        c.put(kp, 8, w.k, st)
        for o in c.normal(c.run(r"^probe::insert\(", [p, kp, v], st)):
            i = found(o)
            if i is not None and not o.st.ghost["extra"]:
                c.ensure(o, o.val.null, "inserting an existing key reports it")
                w.unchanged(o)
                w.elements(o)
            else:
                c.ensure(o, not o.val.null, "gives the stored value")
                inserted(c, w, o, v, m)
                if not o.val.null and len(o.st.ghost["front"]) == 1:
                    c.ensure(o, o.val.obj.id == o.st.ghost["front"][0] and o.val.off.const() == 8, "a reference to the value stored")


@spec("P13", "set stores the value and makes the entry the most recent", T)
def _(c):
    w, p, ws = worlds(c)
    v = c.int("v")
    for st, m in ws:
        c.eng.loop_templates.clear()
        c.eng.loopmode.clear()
        trim_templates(c, w, m)
        kp = c.raw("key", 8, st)
        c.put(kp, 8, w.k, st)
        for o in c.normal(c.run(r"^probe::set\(", [p, kp, v], st)):
            i = found(o)
            if i is not None and not o.st.ghost["extra"]:
                nd = [ob for j, ob in o.st.ghost["cache:nodes"] if j is i]
                c.ensure(o, eqv(w.key(bv(i, 64)), w.k), "the entry has the key given")
                w.elements(o, nd[0])
                c.ensure(o, eqv(c.get(Ptr(o.st.objs[nd[0]], 8), 8, st=o.st), v), "the value is replaced")
                w.touched(o, i)
            else:
                inserted(c, w, o, v, m)


@spec("P13", "set_max_size keeps the most recent entries up to the new capacity", T)
def _(c):
    w, p, ws = worlds(c)
    for st, m in ws:
        for st2, a, m2 in opt(c, st, "new"):
            c.eng.loop_templates.clear()
            c.eng.loopmode.clear()
            trim_templates(c, w, m2)
            for o in c.run(r"^probe::set_max\(", [p, a], st2):
                if o.kind == "throw":
                    c.ensure(o, m2 is not None and eqv(m2, 0), "only a zero capacity is rejected")
                    continue
                c.ensure(o, True if m2 is None else Not(eqv(m2, 0)), "a zero capacity is rejected")
                w.elements(o)
                want = w.n if m2 is None else Ite(ule(w.n, m2), w.n, m2, 64)
                w.unchanged(o, want)
                # the new capacity is in force: a further insertion evicts accordingly
                for q in c.normal(c.run(r"^probe::size\(", [p], o.st)):
                    c.ensure(q, eqv(q.val, want), "size() after the change")


@spec("P13", "size is the number of entries", T)
def _(c):
    w, p, ws = worlds(c)
    for st, m in ws:
        for o in c.normal(c.run(r"^probe::size\(", [p], st)):
            c.ensure(o, eqv(o.val, w.n), "size()")
            w.unchanged(o)
