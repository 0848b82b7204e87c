"""Shared contracts for the ELF reader: an image of arbitrary bytes behind base_file::read_bytes, and the members of class elf."""
from .spec import *

D = r"^cpptrace::v1::detail::"
ELF = D + r"elf::"
T_ELF = [TU("binary/elf.cpp"), TU("utils/io/memory_file_view.cpp")]

# offsets of the members of class elf (checked against the compiled layout by layout())
FILE, LE, IS64, H_TRIED, H, S_TRIED, S_DID, SECS, STRTABS, Y_TRIED, Y_DID, Y, D_TRIED, D_DID, DY = \
    0, 8, 9, 10, 16, 64, 65, 72, 96, 152, 153, 160, 200, 201, 208
SIZE = 248
# header_info members
HI = {"e_phoff": (0, 8), "e_phnum": (8, 4), "e_phentsize": (12, 4), "e_shoff": (16, 8), "e_shnum": (24, 4), "e_shentsize": (28, 4), "e_shstrndx": (32, 2)}
# section_info members
SI = {"sh_name": (0, 4), "sh_type": (4, 4), "sh_addr": (8, 8), "sh_offset": (16, 8), "sh_size": (24, 8), "sh_entsize": (32, 8), "sh_link": (40, 4)}
SI_SIZE = 48
# symtab_entry members
SE = {"st_name": (0, 4), "st_info": (4, 1), "st_other": (5, 1), "st_shndx": (6, 2), "st_value": (8, 8), "st_size": (16, 8)}
SE_SIZE = 24
# the format's own layouts: member -> (offset, width), from the ELF specification
EH = {64: {"e_phoff": (32, 8), "e_shoff": (40, 8), "e_ehsize": (52, 2), "e_phentsize": (54, 2), "e_phnum": (56, 2), "e_shentsize": (58, 2), "e_shnum": (60, 2), "e_shstrndx": (62, 2)},
      32: {"e_phoff": (28, 4), "e_shoff": (32, 4), "e_ehsize": (40, 2), "e_phentsize": (42, 2), "e_phnum": (44, 2), "e_shentsize": (46, 2), "e_shnum": (48, 2), "e_shstrndx": (50, 2)}}
EH_SIZE = {64: 64, 32: 52}
PH = {64: {"p_type": (0, 4), "p_offset": (8, 8), "p_vaddr": (16, 8)}, 32: {"p_type": (0, 4), "p_offset": (4, 4), "p_vaddr": (8, 4)}}
PH_SIZE = {64: 56, 32: 32}
SH = {64: {"sh_name": (0, 4), "sh_type": (4, 4), "sh_addr": (16, 8), "sh_offset": (24, 8), "sh_size": (32, 8), "sh_link": (40, 4), "sh_entsize": (56, 8)},
      32: {"sh_name": (0, 4), "sh_type": (4, 4), "sh_addr": (12, 4), "sh_offset": (16, 4), "sh_size": (20, 4), "sh_link": (24, 4), "sh_entsize": (36, 4)}}
SH_SIZE = {64: 64, 32: 40}
SYM = {64: {"st_name": (0, 4), "st_info": (4, 1), "st_other": (5, 1), "st_shndx": (6, 2), "st_value": (8, 8), "st_size": (16, 8)},
       32: {"st_name": (0, 4), "st_value": (4, 4), "st_size": (8, 4), "st_info": (12, 1), "st_other": (13, 1), "st_shndx": (14, 2)}}
SYM_SIZE = {64: 24, 32: 16}


def with_vtable(c, p, cls):
    """the virtual functions of a file object: destructors, path, read_bytes"""
    vt = c.raw("vtable", 64)
    c.put(vt.add(16), 8, engine.FnPtr(c.fn(D + cls + r"::path\(\) const$").name))
    c.put(vt.add(24), 8, engine.FnPtr(c.fn(D + cls + r"::read_bytes\(").name))
    c.put(p, 8, vt)


class Image:
    """bytes of the file, and its size"""

    def __init__(self, c):
        self.c = c
        self.fn = c.eng.fresh_fn("image", 8)
        self.size = c.int("image size")
        c.st.assume(ult(self.size, 1 << 40))

    def word(self, a, w, little=True):
        a = bv(a, 64)
        bs = [self.fn(simp(a + i)) for i in range(w)]
        bs = [bv(b, 8) for b in bs]
        if little:
            bs = bs[::-1]
        return bs[0] if w == 1 else simp(z3.Concat(*bs))

    def field(self, a, w, le):
        """the value of a w-byte field at offset a of a file in that byte order"""
        if w == 1:
            return self.word(a, 1)
        return simp(z3.If(truth(le), self.word(a, w), self.word(a, w, False)))

    def within(self, off, n):
        """the n bytes at (signed) offset off are in the image"""
        off, n = bv(off, 64), bv(n, 64)
        return And(ule(off, self.size), ule(n, bv(self.size, 64) - off))


class Table:
    """entries of a header table.  byte j of entry k and whether entry k lies in the image are named by functions of k, which stand
    for image(base + (uint32)(entsize * k) + j) and its bounds: a definition, applied where the code reads at exactly that offset"""

    def __init__(self, e, name, base, entsize, size, members):
        self.e, self.name, self.base, self.entsize, self.size, self.members = e, name, base, entsize, size, members
        self.b = [e.c.eng.fresh_fn("%s.byte%d" % (name, j), 8) for j in range(size)]
        self.ins = e.c.eng.fresh_fn(name + ".inside", 1)
        e.tables.append(self)

    def inside(self, k):
        return eqv(self.ins(bv(k, 64)), 1, 1)

    def matches(self, off, n, k):
        return isc(n) and n == self.size and simp(eqv(off, entry_at(self.base, self.entsize, k))) is True

    def byte(self, k, j):
        return self.b[j](bv(k, 64))

    def field(self, k, f):
        """value of a member of entry k in the file's byte order"""
        off, w = self.members[f]
        bs = [bv(self.byte(k, off + j), 8) for j in range(w)]
        le = bs[0] if w == 1 else z3.Concat(*bs[::-1])
        be = bs[0] if w == 1 else z3.Concat(*bs)
        l = self.e.le
        return simp(le if l is True else be if l is False else z3.If(truth(l), le, be))


def ok_err(c, p, ok, w=40):
    """fills a Result<monostate, internal_error> at p"""
    c.put(p.add(w), 4, 0 if ok else 1)


class Elf:
    """an elf object over an arbitrary image; reads inside the image succeed when `complete`, others never do"""

    def __init__(self, c, bits=None, complete=True, le=None):
        self.c, eng = c, c.eng
        self.tables = []
        self.eng = eng
        c.common()
        self.img = Image(c)
        self.complete = complete
        self.bits = bits
        self.le = c.bool("little endian") if le is None else le
        self.file = c.raw("file", 64)
        with_vtable(c, self.file, "memory_file_view")
        self.p = c.raw("elf", SIZE)
        c.put(self.p.add(FILE), 8, self.file)
        c.put(self.p.add(LE), 1, z3.If(truth(self.le), bv(1, 8), bv(0, 8)) if z3.is_expr(self.le) else int(self.le))
        if bits:
            c.put(self.p.add(IS64), 1, 1 if bits == 64 else 0)
        path = c.raw("path", 6)
        self.contract_read()
        c.model(D + r"memory_file_view::path\(\) const$", lambda eng, st, a, ins: [path, 6])

    def contract_read(self):
        img = self.img
        readable = self.c.eng.fresh_fn("readable", 1)
        self.c.st.ghost.update(reads=self.c.int("reads"), unread=False)

        def read(eng, st, a, ins):
            # sret, this, span (data, size), offset
            r, _, b, n, off = a
            tab, at = None, None
            for i in indices(st):
                for t in self.tables:
                    if tab is None and t.matches(off, n, i):
                        tab, at = t, i
            inr = tab.inside(at) if tab is not None else And(ult(off, 1 << 63), img.within(off, n))
            if self.complete:
                ok = inr
            else:
                ok = And(inr, eqv(readable(bv(st.ghost["reads"], 64)), 1, 1))
            good = st.decide(ok)
            st.ghost["reads"] = (Lin.of(st.ghost["reads"]) + 1).val()
            if not good:
                st.ghost["unread"] = True
                eng.put(st, r.add(40), 4, 1)
                models.setstr(eng, st, r.add(8), eng.fresh_str(st, "message"))
                return None
            eng.put(st, r.add(40), 4, 0)
            if isc(n) and n == 0:
                return None
            if tab is not None:
                for j in range(n):
                    eng.raw_store(st, b.add(j), 1, tab.byte(at, j))
                return None
            self.fill(eng, st, b, n, off)
            return None
        self.read = read
        self.c.contract(D + r"(base_file|memory_file_view|file)::read_bytes\(", read, "base_file::read_bytes", discharged="P10: memory_file_view::read_bytes, file::read_bytes")

    def fill(self, eng, st, b, n, off):
        img, o = self.img, b.obj
        eng.oblige(st, "read_bytes: the buffer holds the bytes asked for", ule((b.off + Lin.of(n)).val(), o.size))
        c = st.mem[o.id]
        if isc(n):
            for i in range(n):
                eng.raw_store(st, b.add(i), 1, img.word(bv(off, 64) + i, 1))
            return
        if not isinstance(c, engine.Arr) or b.off.const() != 0:
            raise Unsupported("read into %r" % (c,))
        es = c.es
        cnt = Lin.of(n).div(es)[0].val()

        def base(i, fo, w, ty, c=c):
            new = img.word(bv(off, 64) + bv(Lin.of(i).scale(es).val(), 64) + fo, w)
            if simp(eqv(cnt, Lin.of(o.size).div(es)[0].val())) is True:
                return new
            old = bv(eng.arr_byte(c, Lin.of(i).scale(es) + fo, w), 8 * w)
            return simp(z3.If(ult(i, cnt), new, old))
        st.mem[o.id] = engine.Arr(es, base, (), c.fields, getattr(c, "n", None))

    # ---- state
    def header(self, name="header"):
        """a loaded header of arbitrary values"""
        c = self.c
        self.h = {}
        for k, (o, w) in HI.items():
            v = c.int(k, 8 * w)
            self.h[k] = v
            c.put(self.p.add(H + o), w, v)
        c.put(self.p.add(H_TRIED), 1, 1)
        c.put(self.p.add(H + 40), 1, 1)

    def no_header(self, tried):
        c = self.c
        c.put(self.p.add(H_TRIED), 1, tried)
        c.put(self.p.add(H + 40), 1, 0)

    def sections(self, loaded=True, tried=1):
        """section table of arbitrary values"""
        c, eng = self.c, self.c.eng
        et = self.sect = c.type_like(r"^struct.cpptrace::v1::detail::elf::section_info$")
        if not loaded:
            c.put(self.p.add(SECS), 24, Vec(None, 0, SI_SIZE))
            c.put(self.p.add(S_TRIED), 1, tried)
            c.put(self.p.add(S_DID), 1, 0)
            return
        self.n = c.int("sections")
        c.st.assume(ult(self.n, 1 << 32))
        self.s = {k: eng.fresh_fn("section." + k, 8 * w) for k, (o, w) in SI.items()}
        by = {o: self.s[k] for k, (o, w) in SI.items()}
        o = c.st.new_obj("sections", Lin.of(self.n).scale(SI_SIZE).val(), "heap", engine.Arr(SI_SIZE, lambda i, fo, w, ty: by[fo](bv(i, 64)), (), models.flatten(et)))
        c.put(self.p.add(SECS), 24, Vec(o, self.n, SI_SIZE))
        c.put(self.p.add(S_TRIED), 1, 1)
        c.put(self.p.add(S_DID), 1, 1)

    def divide(self, E):
        """the size of every section as a number of entries of E bytes and a rest"""
        c, eng = self.c, self.c.eng
        q, r = self.q, self.r = eng.fresh_fn("entries in section", 64), eng.fresh_fn("rest of section", 64)
        size = self.s["sh_size"]
        c.st.assume(Forall(lambda k: And(ule(q(k), ((1 << 64) - 1) // E), ule(q(k), size(k)), ult(r(k), E), eqv(size(k), Lin.of(q(k)).scale(E).val() + r(k))), {q.name(), r.name()}, "division with rest"))

        def hook(st, op, x, y):
            if z3.is_app(x) and x.decl().eq(size) and st.must(eqv(y, E)):
                return (q if op == "udiv" else r)(x.arg(0))
            return None
        eng.div_hook = hook

    def strtabs(self, kind, index):
        """the cache of string tables, asked for one index: kind fresh, failed or loaded"""
        c, eng = self.c, self.c.eng
        node = self.node = c.raw("string table node", 40)
        c.put(node, 8, index)
        self.et = ir.Ty("int", 8)
        c.st.ghost["strtab.asked"] = 0
        if kind == "fresh":
            c.put(node.add(8), 1, 0)
            c.put(node.add(9), 1, 0)
            c.put(node.add(16), 24, Vec(None, 0, 1))
        else:
            c.put(node.add(8), 1, 1)
            c.put(node.add(9), 1, 1 if kind == "loaded" else 0)
            self.ch, self.len = eng.fresh_fn("string table", 8), c.int("string table size")
            c.st.assume(And(ult(self.len, 1 << 40), Not(eqv(self.len, 0))))
            o = c.st.new_obj("string table data", self.len, "heap", engine.Arr(1, lambda i, fo, w, ty: self.ch(bv(i, 64)), (), [(0, 1, self.et)]))
            c.put(node.add(16), 24, Vec(o, self.len, 1))

        def insert(eng, st, a, ins):
            key = c.get(a[1], 8, st=st)
            eng.oblige(st, "the table asked for is looked up", eqv(key, index))
            eng.oblige(st, "in the object's own cache", isinstance(a[0], Ptr) and a[0].obj is self.p.obj and a[0].off.const() == STRTABS)
            return [node, 1 if kind == "fresh" else 0]
        c.contract(r"^std::unordered_map<unsigned long, cpptrace::v1::detail::elf::strtab_entry.*>::insert\(", insert, "std::unordered_map::insert (one entry per key)")
        c.model(r"^std::__detail::_Node_iterator<std::pair<unsigned long const, cpptrace::v1::detail::elf::strtab_entry>, false, false>::operator->\(\) const$", lambda eng, st, a, ins: eng.raw_load(st, a[0], 8, ir.PTR))

    def strtab_data(self, st):
        v = models.getvec(self.c.eng, st, self.node.add(16), self.et)
        return v, (st.mem[v.obj.id] if v.obj is not None else None)

    def flag(self, st, off):
        return truth(self.c.get(self.p.add(off), 1, st=st))


QUERY = z3.Function("query", z3.BitVecSort(64), z3.BoolSort())


def indices(st):
    """the loop counters of the functions being executed, as 64-bit values"""
    r = []
    for fr in st.frames:
        for o in fr.allocas:
            c = st.mem.get(o.id)
            if isinstance(c, engine.Cells) and 0 in c.d and o.size in (4, 8) and len(c.d) == 1:
                w, v = c.d[0]
                if w == o.size and ((isinstance(v, int) and not isinstance(v, bool)) or z3.is_bv(v)):
                    r.append(bv(v, 64) if w == 8 else u32(v))
    return r


def is_err(c, o, w):
    """whether the Result returned holds an error, w the size of its union"""
    return eqv(c.get(o.val.add(w), 4, st=o.st), 1)


def local(st, name):
    """value of a local integer variable"""
    for o in reversed(st.top().allocas):
        if o.name.split("!")[0].split("#")[0].rstrip("0123456789.") == name:
            d = st.mem[o.id].d
            if 0 in d:
                return d[0][1]
    return None


def u32(v):
    return simp(z3.ZeroExt(32, bv(v, 32)))


def entry_at(base, entsize, k):
    """offset of table entry k: unsigned 64-bit base + 32-bit product"""
    k32 = simp(z3.Extract(31, 0, bv(k, 64)))
    return simp(bv(base, 64) + u32(bv(entsize, 32) * k32))


def string_table(c, ok=True):
    """contract of elf::get_strtab: an arbitrary terminated table, or an error"""
    eng = c.eng
    t = type("T", (), {})()
    t.ch, t.len = eng.fresh_fn("strings", 8), c.int("strings size")
    c.st.assume(And(ult(t.len, 1 << 40), Not(eqv(t.len, 0))))
    c.st.assume(eqv(t.ch(bv(t.len, 64) - 1), 0, 8))
    o = t.obj = c.st.new_obj("strings data", t.len, "heap", engine.Arr(1, lambda i, fo, w, ty: t.ch(bv(i, 64)), (), [(0, 1, ir.Ty("int", 8))]))
    o.tag = ("nulterm",)
    t.vec = c.raw("strings", 24)
    c.put(t.vec, 24, Vec(o, t.len, 1))
    c.st.ghost["strtab.index"] = None

    def get(eng, st, a, ins):
        st.ghost["strtab.index"] = a[2]
        if ok:
            eng.put(st, a[0], 8, t.vec)
            eng.put(st, a[0].add(40), 4, 0)
        else:
            eng.put(st, a[0].add(40), 4, 1)
            models.setstr(eng, st, a[0].add(8), eng.fresh_str(st, "message"))
    c.contract(STRTAB_RX, get, "elf::get_strtab", discharged="P11: string tables")
    return t


STRTAB_RX = ELF + r"get_strtab\(unsigned long\)$"
