"""P11: ELF decoding.  Images are arbitrary bytes of an arbitrary size in an arbitrary byte order; each function is run from an
arbitrary state of the caches it uses."""
from dv.spec import *
from dv.elfspec import *


def header(bits):
    @spec("P11", "the %d-bit file header is decoded" % bits, T_ELF)
    def _(c):
        e = Elf(c, bits)
        e.no_header(0)
        ehs = e.img.field(EH[bits]["e_ehsize"][0], 2, e.le)
        good = And(ule(EH_SIZE[bits], e.img.size), eqv(ehs, EH_SIZE[bits], 16))
        for o in c.normal(c.run(ELF + r"get_header_info\(\)$", [e.p])):
            err = is_err(c, o, 40)
            c.ensure(o, err == Not(good) if z3.is_expr(err) or z3.is_expr(good) else True, "read exactly when it is there and has the right size")
            for st, bad in cases(c, o, err):
                q = Out("ret", st, o.val)
                c.ensure(q, e.flag(st, H + 40) == (not bad), "the header is kept exactly when it was read")
                c.ensure(q, e.flag(st, H_TRIED), "a failure is remembered")
                if bad:
                    continue
                r = c.getp(o.val, st)
                c.ensure(q, r.obj is e.p.obj and r.off.const() == H, "the kept header is returned")
                for k, (off, w) in HI.items():
                    fo, fw = EH[bits][k]
                    v = e.img.field(fo, fw, e.le)
                    v = simp(z3.ZeroExt(8 * (w - fw), bv(v, 8 * fw))) if w > fw else v
                    c.ensure(q, eqv(c.get(e.p.add(H + off), w, st=st), v, 8 * w), k + " is the file's")


for b in (64, 32):
    header(b)


PT_PHDR = 6


def bound_template(c, what, var, fact):
    def tmpl(eng, entry, mods, steps, ctx):
        if what not in ctx.fn.dem or local(entry, var) is None:
            return []
        return [("%s" % var, lambda st: fact(st, local(st, var)))]
    c.eng.loop_templates.append(tmpl)


def image_base(bits, le):
    fn = ELF + r"get_module_image_base\(\)$"
    name = "%d-bit %s-endian" % (bits, "little" if le else "big")

    def setup(c):
        e = Elf(c, bits, le=le)
        e.header()
        e.n = u32(e.h["e_phnum"])
        e.t = Table(e, "program header", e.h["e_phoff"], e.h["e_phentsize"], PH_SIZE[bits], PH[bits])
        c.st.assume(Forall(lambda k: Implies(ult(k, e.n), e.t.inside(k)), {e.t.ins.name()}, "the program headers are in the file"))
        e.trig = {e.t.b[PH[bits]["p_type"][0]].name()}
        return e

    @spec("P11", "the %s image base is that of the program header entry" % name, T_ELF)
    def _(c):
        e = setup(c)
        j = c.int("the entry")
        c.st.assume(And(ult(j, e.n), eqv(e.t.field(j, "p_type"), PT_PHDR, 32)))
        c.st.assume(Forall(lambda k: Implies(ult(k, j), Not(eqv(e.t.field(k, "p_type"), PT_PHDR, 32))), e.trig, "the first of its kind"))
        c.eng.by_invariant.append("get_module_image_base_impl")
        bound_template(c, "get_module_image_base_impl", "i", lambda st, i: ule(u32(i), j))
        d = simp(bv(e.t.field(j, "p_vaddr"), bits) - bv(e.t.field(j, "p_offset"), bits))
        for o in c.normal(c.run(fn, [e.p])):
            c.ensure(o, Not(is_err(c, o, 40)), "the headers can be read")
            c.ensure(o, eqv(c.get(o.val, 8, st=o.st), d if bits == 64 else z3.ZeroExt(32, d)), "its address minus its offset")

    @spec("P11", "the %s image base is zero without a program header entry" % name, T_ELF)
    def _(c):
        e = setup(c)
        c.st.assume(Forall(lambda k: Implies(ult(k, e.n), Not(eqv(e.t.field(k, "p_type"), PT_PHDR, 32))), e.trig, "no such entry"))
        for o in c.normal(c.run(fn, [e.p])):
            c.ensure(o, Not(is_err(c, o, 40)), "the headers can be read")
            c.ensure(o, eqv(c.get(o.val, 8, st=o.st), 0), "zero")


for b in (64, 32):
    for le in (True, False):
        image_base(b, le)


def ext(v, fw, w):
    return simp(z3.ZeroExt(8 * (w - fw), bv(v, 8 * fw))) if w > fw else v


def section_table(bits, le):
    fn = ELF + r"get_sections\(\)$"
    name = "%d-bit %s-endian" % (bits, "little" if le else "big")

    def value(e, k, f):
        return ext(e.t.field(k, f), SH[bits][f][1], SI[f][1])

    def vec(c, e, st):
        v = models.getvec(c.eng, st, e.p.add(SECS), e.sect)
        return v, (st.mem[v.obj.id] if v.obj is not None else None)

    def same(c, e, a, k, f):
        return eqv(c.eng.arr_byte(a, Lin.of(k).scale(SI_SIZE) + SI[f][0], SI[f][1]), value(e, k, f), 8 * SI[f][1])

    def setup(c, complete):
        e = Elf(c, bits, complete, le=le)
        e.header()
        e.sections(False, 0)
        e.n = u32(e.h["e_shnum"])
        e.t = Table(e, "section header", e.h["e_shoff"], e.h["e_shentsize"], SH_SIZE[bits], SH[bits])
        c.eng.by_invariant.append("get_sections_impl")

        def tmpl(eng, entry, mods, steps, ctx):
            if "get_sections_impl" not in ctx.fn.dem:
                return []

            def decoded(f):
                def fact(st):
                    v, a = vec(c, e, st)
                    return True if a is None else Forall(lambda k: Implies(ult(k, v.len), same(c, e, a, k, f)), {"query", "$pt"}, "decoded")
                return fact
            r = [("as many sections as headers read", lambda st: eqv(vec(c, e, st)[0].len, u32(local(st, "i")))), ("below", lambda st: ule(u32(local(st, "i")), e.n))]
            return r + ([(f + " decoded", decoded(f)) for f in SI] if complete else [])
        c.eng.loop_templates.append(tmpl)
        return e

    @spec("P11", "the %s section headers are decoded" % name, T_ELF, secs=100)
    def _(c):
        e = setup(c, True)
        c.st.assume(Forall(lambda k: Implies(ult(k, e.n), e.t.inside(k)), {e.t.ins.name()}, "the section headers are in the file"))
        for o in c.normal(c.run(fn, [e.p])):
            c.ensure(o, Not(is_err(c, o, 40)), "the headers can be read")
            r = c.getp(o.val, o.st)
            c.ensure(o, r.obj is e.p.obj and r.off.const() == SECS, "the kept sections are returned")
            c.ensure(o, And(e.flag(o.st, S_DID), e.flag(o.st, S_TRIED)), "the sections are kept")
            v, a = vec(c, e, o.st)
            c.ensure(o, eqv(v.len, e.n), "one section for each header")
            if a is not None:
                k = bv(c.int("any section"), 64)
                st = o.st.copy()
                st.assume(ult(k, v.len))
                st.assume(QUERY(k))
                for f in SI:
                    c.ensure(Out("ret", st, None), same(c, e, a, k, f), f + " is the file's")

    @spec("P10", "%s section headers that cannot be read are a failure" % name, T_ELF, secs=100)
    def _(c):
        e = setup(c, False)
        for o in c.normal(c.run(fn, [e.p])):
            err = is_err(c, o, 40)
            c.ensure(o, e.flag(o.st, S_TRIED), "the attempt is remembered")
            for st, bad in cases(c, o, err):
                q = Out("ret", st, None)
                c.ensure(q, bad == st.ghost["unread"], "a failure exactly when a read failed")
                c.ensure(q, e.flag(st, S_DID) == (not bad), "the sections are kept exactly when all were read")


for b in (64, 32):
    for le in (True, False):
        section_table(b, le)


# ------------------------------------------------------------------ string tables
STRTAB = ELF + r"get_strtab\(unsigned long\)$"


@spec("P11", "a string table is loaded from its section", T_ELF)
def _(c):
    e = Elf(c)
    e.sections()
    i = c.int("index")
    e.strtabs("fresh", i)
    S = lambda f: e.s[f](bv(i, 64))
    good = And(ult(i, e.n), eqv(S("sh_type"), 3, 32), e.img.within(S("sh_offset"), S("sh_size")), ult(S("sh_offset"), 1 << 63))
    c.st.assume(good)
    for o in c.normal(c.run(STRTAB, [e.p, i])):
        c.ensure(o, Not(is_err(c, o, 40)), "it can be read")
        r = c.getp(o.val, o.st)
        c.ensure(o, r.obj is e.node.obj and r.off.const() == 16, "the kept table is returned")
        v, a = e.strtab_data(o.st)
        c.ensure(o, eqv(v.len, bv(S("sh_size"), 64) + 1), "its size and a terminator")
        k = bv(c.int("k"), 64)
        c.ensure(o, eqv(c.get(e.node.add(9), 1, st=o.st), 1), "it is kept")
        if a is None:
            continue
        c.ensure(o, Implies(ult(k, S("sh_size")), eqv(c.eng.arr_byte(a, Lin.of(k), 1), e.img.fn(simp(S("sh_offset") + k)), 8)), "its bytes are the section's")
        c.ensure(o, eqv(c.eng.arr_byte(a, Lin.of(S("sh_size")), 1), 0, 8), "it is terminated")


@spec("P11", "a loaded string table is returned as it is", T_ELF)
def _(c):
    e = Elf(c)
    e.sections()
    i = c.int("index")
    e.strtabs("loaded", i)
    for o in c.normal(c.run(STRTAB, [e.p, i])):
        c.ensure(o, Not(is_err(c, o, 40)), "no failure")
        r = c.getp(o.val, o.st)
        c.ensure(o, r.obj is e.node.obj and r.off.const() == 16, "the kept table is returned")
        c.ensure(o, eqv(o.st.ghost["reads"], c.st.ghost["reads"]), "nothing is read again")


@spec("P10", "a string table that cannot be loaded is a failure, now and later", T_ELF)
def _(c):
    e = Elf(c, complete=False)
    e.sections()
    i = c.int("index")
    e.strtabs("fresh", i)
    for o in c.normal(c.run(STRTAB, [e.p, i])):
        for st, bad in cases(c, o, is_err(c, o, 40)):
            q = Out("ret", st, None)
            c.ensure(q, eqv(c.get(e.node.add(8), 1, st=st), 1), "the attempt is remembered")
            c.ensure(q, eqv(c.get(e.node.add(9), 1, st=st), 0 if bad else 1), "it is kept exactly when it was read")
            if not bad:
                v, a = e.strtab_data(st)
                c.ensure(q, Not(eqv(v.len, 0)), "never empty")
                c.ensure(q, eqv(c.eng.arr_byte(a, Lin.of(v.len) - 1, 1), 0, 8), "it is terminated")
                c.ensure(q, And(ult(i, e.n), eqv(e.s["sh_type"](bv(i, 64)), 3, 32)), "only a string table section")


@spec("P10", "a failed string table stays a failure", T_ELF)
def _(c):
    e = Elf(c)
    e.sections()
    i = c.int("index")
    e.strtabs("failed", i)
    for o in c.normal(c.run(STRTAB, [e.p, i])):
        c.ensure(o, is_err(c, o, 40), "a failure")


# ------------------------------------------------------------------ caches
for what, fn, tried, did, first in (("header", "get_header_info", H_TRIED, H + 40, None), ("sections", "get_sections", S_TRIED, S_DID, None), ("symbol table", "get_symtab", Y_TRIED, Y_DID, Y), ("dynamic symbol table", "get_dynamic_symtab", D_TRIED, D_DID, DY)):
    @spec("P10", "a failed load of the %s stays a failure" % what, T_ELF)
    def _(c, fn=fn, tried=tried, did=did):
        e = Elf(c)
        c.put(e.p.add(tried), 1, 1)
        c.put(e.p.add(did), 1, 0)
        for o in c.normal(c.run(ELF + fn + r"\(\)$", [e.p])):
            c.ensure(o, is_err(c, o, 40), "a failure")
            c.ensure(o, And(e.flag(o.st, tried), Not(e.flag(o.st, did))), "and stays one")
            c.ensure(o, eqv(o.st.ghost["reads"], c.st.ghost["reads"]), "nothing is read again")

    @spec("P11", "a loaded %s is returned as it is" % what, T_ELF)
    def _(c, fn=fn, tried=tried, did=did, first=first, what=what):
        e = Elf(c)
        at = {"header": H, "sections": SECS, "symbol table": Y, "dynamic symbol table": DY}[what]
        c.put(e.p.add(tried), 1, 1)
        c.put(e.p.add(did), 1, 1)
        for o in c.normal(c.run(ELF + fn + r"\(\)$", [e.p])):
            c.ensure(o, Not(is_err(c, o, 40)), "no failure")
            r = c.getp(o.val, o.st)
            c.ensure(o, r.obj is e.p.obj and r.off.const() == at, "the kept one is returned")
            c.ensure(o, And(e.flag(o.st, tried), e.flag(o.st, did)), "it stays")
            c.ensure(o, eqv(o.st.ghost["reads"], c.st.ghost["reads"]), "nothing is read again")


# ------------------------------------------------------------------ opening
MAP = r"^std::unordered_map<unsigned long, cpptrace::v1::detail::elf::strtab_entry.*>::"


@spec("P11", "only a versioned ELF image is opened, with its width and byte order", T_ELF)
def _(c):
    e = Elf(c)
    c.model(MAP + r"(unordered_map\((std::unordered_map.*&&)?\)|~unordered_map\(\))$", lambda eng, st, a, ins: None)
    up = c.raw("file owner", 8)
    c.put(up, 8, e.file)
    c.model(r"^std::unique_ptr<cpptrace::v1::detail::base_file.*>::~unique_ptr\(\)$", lambda eng, st, a, ins: None)
    b = [e.img.fn(bv(i, 64)) for i in range(7)]
    good = And(ule(7, e.img.size), *[eqv(b[i], x, 8) for i, x in enumerate((0x7f, 0x45, 0x4c, 0x46))], eqv(b[6], 1, 8))
    for o in c.normal(c.run(ELF + r"open\(std::unique_ptr<cpptrace::v1::detail::base_file", [up])):
        err = is_err(c, o, SIZE)
        for st, bad in cases(c, o, err):
            q = Out("ret", st, o.val)
            c.ensure(q, Not(good) if bad else good, "an error exactly for anything else")
            if bad:
                continue
            g = lambda off, w: c.get(o.val.add(off), w, st=st)
            c.ensure(q, And(eqv(g(IS64, 1), z3.If(eqv(b[4], 2, 8), bv(1, 8), bv(0, 8)), 8), eqv(g(LE, 1), z3.If(eqv(b[5], 1, 8), bv(1, 8), bv(0, 8)), 8)), "width and byte order")
            c.ensure(q, c.getp(o.val, st).obj is e.file.obj, "of this file")
            c.ensure(q, And(*[eqv(g(x, 1), 0, 8) for x in (H_TRIED, H + 40, S_TRIED, S_DID, Y_TRIED, Y_DID, D_TRIED, D_DID)]), "nothing is loaded yet")


# ------------------------------------------------------------------ reading bytes
@spec("P10", "reading memory stays inside the view", [TU("utils/io/memory_file_view.cpp")])
def _(c):
    c.common()
    c.model(D + r"memory_file_view::path\(\) const$", lambda eng, st, a, ins: [NULL, 0])
    img = Image(c)
    d = c.st.new_obj("image", img.size, "input", engine.Arr(1, lambda i, fo, w, ty: img.fn(bv(i, 64)), (), [(0, 1, ir.Ty("int", 8))]))
    v = c.raw("view", 56)
    with_vtable(c, v, "memory_file_view")
    c.put(v.add(8), 8, Ptr(d))
    c.put(v.add(16), 8, img.size)
    n, off = c.int("bytes"), c.int("offset")
    c.st.assume(ult(n, 1 << 62))
    was = c.eng.fresh_fn("before", 8)
    buf = c.st.new_obj("buffer", n, "input", engine.Arr(1, lambda i, fo, w, ty: was(bv(i, 64)), (), [(0, 1, ir.Ty("int", 8))]))
    good = And(ult(off, 1 << 63), img.within(off, n))
    for o in c.normal(c.run(D + r"memory_file_view::read_bytes\(", [v, Ptr(buf), n, off])):
        k = bv(c.int("k"), 64)
        for st, bad in cases(c, o, is_err(c, o, 40)):
            q = Out("ret", st, o.val)
            c.ensure(q, Not(good) if bad else good, "an error exactly for bytes outside the view")
            a = st.mem[buf.id]
            c.ensure(q, Implies(ult(k, n), eqv(c.eng.arr_byte(a, Lin.of(k), 1), was(k) if bad else img.fn(simp(off + k)), 8)), "the buffer gets these bytes")


@spec("P10", "reading a file fills the buffer or fails", [TU("utils/io/file.cpp")])
def _(c):
    c.common()
    c.model(D + r"file::path\(\) const$", lambda eng, st, a, ins: [NULL, 0])
    img = Image(c)
    f = c.raw("file", 56)
    fp = c.raw("FILE", 8)
    with_vtable(c, f, "file")
    c.put(f.add(8), 8, fp)
    n, off = c.int("bytes"), c.int("offset")
    c.st.assume(ult(n, 1 << 62))
    was = c.eng.fresh_fn("before", 8)
    buf = c.st.new_obj("buffer", n, "input", engine.Arr(1, lambda i, fo, w, ty: was(bv(i, 64)), (), [(0, 1, ir.Ty("int", 8))]))
    seekable, readable = c.bool("seekable"), c.bool("readable")
    c.st.ghost.update(pos=c.int("position"), seeks=0)

    def fseek(eng, st, a, ins):
        eng.oblige(st, "fseek: this file, from its start", And(isinstance(a[0], Ptr) and a[0].obj is fp.obj, eqv(a[2], 0, 32)))
        st.ghost["seeks"] += 1
        if not st.decide(And(truth(seekable), ult(a[1], 1 << 63))):
            return mask32
        st.ghost["pos"] = a[1]
        return 0
    mask32 = (1 << 32) - 1

    def fread(eng, st, a, ins):
        p, size, cnt, fl = a
        eng.oblige(st, "fread: this file", isinstance(fl, Ptr) and fl.obj is fp.obj)
        eng.oblige(st, "fread: as much as the buffer holds", And(isinstance(p, Ptr) and p.obj is buf and p.off.const() == 0, eqv(cnt, 1), ule(size, n)))
        if st.decide(eqv(size, 0)):
            return 0
        pos = st.ghost["pos"]
        # all of the item, or part of it and no item
        if not st.decide(And(truth(readable), img.within(pos, size))):
            part = eng.fresh_fn("partial", 8)
            st.mem[buf.id] = engine.Arr(1, lambda i, fo, w, ty: part(bv(i, 64)), (), [(0, 1, ir.Ty("int", 8))])
            return 0
        st.mem[buf.id] = engine.Arr(1, lambda i, fo, w, ty: simp(z3.If(ult(i, size), img.fn(simp(bv(pos, 64) + bv(i, 64))), was(bv(i, 64)))), (), [(0, 1, ir.Ty("int", 8))])
        return 1
    c.contract(r"^fseek$", fseek, "fseek (fails for a negative offset)")
    c.contract(r"^fread$", fread, "fread (whole items inside the file, none for zero bytes)")
    inside = And(ult(off, 1 << 63), img.within(off, n))
    for o in c.normal(c.run(D + r"file::read_bytes\(", [f, Ptr(buf), n, off])):
        k = bv(c.int("k"), 64)
        for st, bad in cases(c, o, is_err(c, o, 40)):
            q = Out("ret", st, o.val)
            if bad:
                c.ensure(q, Not(And(inside, truth(seekable), truth(readable))), "no failure when the bytes are there and can be read")
                continue
            c.ensure(q, And(ult(off, 1 << 63), Or(eqv(n, 0), inside)), "no success for bytes outside the file")
            a = st.mem[buf.id]
            c.ensure(q, Implies(ult(k, n), eqv(c.eng.arr_byte(a, Lin.of(k), 1), img.fn(simp(off + k)), 8)), "the buffer gets these bytes")


@spec("P10", "a table is within the file only when its bytes are", T_ELF)
def _(c):
    e = Elf(c)
    off, n = c.int("offset"), c.int("bytes")
    for o in c.normal(c.run(D + r"is_within_file\(", [e.file, off, n])):
        c.ensure(o, truth(o.val) == Or(eqv(n, 0), And(e.img.within(off, n), ult(simp(off + n - 1), 1 << 63))), "exactly then")


@spec("P10", "a string is only taken from inside its table", T_ELF)
def _(c):
    c.common()
    n, off = c.int("table size"), c.int("offset")
    c.st.assume(ult(n, 1 << 40))
    ch = c.eng.fresh_fn("table", 8)
    o = c.st.new_obj("table data", n, "heap", engine.Arr(1, lambda i, fo, w, ty: ch(bv(i, 64)), (), [(0, 1, ir.Ty("int", 8))]))
    v = c.raw("table", 24)
    c.put(v, 24, Vec(o, n, 1))
    for r in c.normal(c.run(D + r"get_string\(", [v, off])):
        p = r.val
        if isinstance(p, Ptr) and p.null:
            c.ensure(r, Not(ult(off, n)), "none only outside the table")
        else:
            c.ensure(r, And(isinstance(p, Ptr) and p.obj is o, ult(off, n)), "inside the table")
            c.ensure(r, eqv(p.off.val(), off), "at the offset")


# ------------------------------------------------------------------ symbols
def symtab_object(c, name="symbol table"):
    """an optional<symtab_info> holding arbitrary entries, ordered as get_symtab_impl leaves them"""
    eng = c.eng
    t = type("S", (), {})()
    t.p = c.raw(name, 40)
    t.n, t.link = c.int("symbols"), c.int("link")
    c.st.assume(ult(t.n, 1 << 40))
    t.f = {k: eng.fresh_fn("symbol." + k, 8 * w) for k, (o, w) in SE.items()}
    by = {o: t.f[k] for k, (o, w) in SE.items()}
    et = c.type_like(r"^struct.cpptrace::v1::detail::elf::symtab_entry$")
    t.obj = c.st.new_obj("symbols", Lin.of(t.n).scale(SE_SIZE).val(), "heap", engine.Arr(SE_SIZE, lambda i, fo, w, ty: by[fo](bv(i, 64)), (), models.flatten(et)))
    c.put(t.p, 24, Vec(t.obj, t.n, SE_SIZE))
    c.put(t.p.add(24), 8, t.link)
    c.put(t.p.add(32), 1, 1)
    t.value, t.size, t.name = (lambda k: t.f["st_value"](bv(k, 64))), (lambda k: t.f["st_size"](bv(k, 64))), (lambda k: u32(t.f["st_name"](bv(k, 64))))
    c.st.assume(Forall(lambda k: Implies(ult(k, t.n), Not(eqv(t.size(k), 0))), {t.f["st_size"].name(), t.f["st_value"].name()}, "sized symbols"))
    t.holds = lambda k, pc: ult(bv(pc, 64) - t.value(k), t.size(k))
    return t


LOOKUP = ELF + r"lookup_symbol\(unsigned long, cpptrace::v1::detail::optional<"


def c_string_is(c, q, st, p, tab, off, what):
    """the std::string at p is the C string at an offset of the table"""
    s = models.getstr(c.eng, st, p)
    off = bv(off, 64)
    k = bv(c.int("k"), 64)
    st.assume(QUERY(k))
    st.assume(QUERY(simp(off + k)))
    c.ensure(q, Implies(ult(k, s.len), eqv(s.at(k), tab.ch(simp(off + k)), 8)), what + ": its characters are the table's")
    c.ensure(q, eqv(tab.ch(simp(off + bv(s.len, 64))), 0, 8), what + ": it ends where the table's does")
    c.ensure(q, Implies(ult(k, s.len), Not(eqv(s.at(k), 0, 8))), what + ": it does not go past a terminator")


@spec("P11", "looking up an address gives the name of a symbol that holds it, or nothing", T_ELF)
def _(c):
    e = Elf(c)
    t = symtab_object(c)
    tab = string_table(c)
    pc, j = c.int("pc"), c.int("any symbol")
    c.st.assume(ult(j, t.n))
    c.st.assume(Not(eqv(t.link, 0)))
    c.st.assume(Forall(lambda k: Implies(ult(k, t.n), ult(t.name(k), tab.len)), {t.f["st_name"].name(), t.f["st_value"].name()}, "names are in the table"))
    lt = lambda a, b: Or(ult(t.value(a), t.value(b)), And(eqv(t.value(a), t.value(b)), ule(t.size(a), t.size(b))))
    trig = {t.f["st_value"].name()}
    c.st.assume(Forall(lambda k: Implies(And(ult(k, t.n), ule(k, j)), lt(k, j)), trig, "ordered"))
    c.st.assume(Forall(lambda k: Implies(And(ult(k, t.n), ule(j, k)), lt(j, k)), trig, "ordered"))
    # symbols overlap only as aliases with the same start (nested ones are a known finding); none wraps around
    c.st.assume(Forall(lambda k: Implies(And(ult(k, t.n), Not(eqv(t.value(k), t.value(j)))), And(Not(t.holds(k, t.value(j))), Not(t.holds(j, t.value(k))))), trig, "no nesting"))
    c.st.assume(Forall(lambda k: Implies(ult(k, t.n), Or(eqv(t.value(k) + t.size(k), 0), ule(t.value(k), t.value(k) + t.size(k)))), trig, "no wrap"))
    holds = t.holds(j, pc)
    for o in c.normal(c.run(LOOKUP, [e.p, pc, t.p])):
        some = truth(c.get(o.val.add(32), 1, st=o.st))
        c.ensure(o, Implies(holds, some), "a held address is found")
        for st, found in cases(c, o, some):
            if not found:
                continue
            q = Out("ret", st, o.val)
            b = st.ghost.get("bound")
            k = bv((Lin.of(b) - 1).val(), 64)
            c.ensure(q, And(ult(k, t.n), t.holds(k, pc)), "the symbol found holds the address")
            c.ensure(q, eqv(st.ghost["strtab.index"], t.link), "its name is in the linked string table")
            c_string_is(c, q, st, o.val, tab, t.name(k), "the name of that symbol")


@spec("P11", "nothing is found without a table, strings, or a name inside them", T_ELF)
def _(c):
    for mode in ("no table", "no link", "no strings"):
        e = Elf(c)
        t = symtab_object(c)
        string_table(c, mode != "no strings")
        if mode == "no table":
            c.put(t.p.add(32), 1, 0)
        if mode == "no link":
            c.put(t.p.add(24), 8, 0)
        for o in c.normal(c.run(LOOKUP, [e.p, c.int("pc"), t.p])):
            c.ensure(o, Not(truth(c.get(o.val.add(32), 1, st=o.st))), "nothing (%s)" % mode)
        c.eng.contracts.pop()


@spec("P10", "looking up an address is safe for any symbol and string table", T_ELF)
def _(c):
    e = Elf(c)
    t = symtab_object(c)
    tab = string_table(c)
    pc = c.int("pc")
    for o in c.normal(c.run(LOOKUP, [e.p, pc, t.p])):
        for st, found in cases(c, o, truth(c.get(o.val.add(32), 1, st=o.st))):
            if found:
                k = bv((Lin.of(st.ghost["bound"]) - 1).val(), 64)
                c.ensure(Out("ret", st, o.val), ult(t.name(k), tab.len), "only a name inside the table")


# ------------------------------------------------------------------ code ranges
@spec("P11", "the code ranges are the text sections", T_ELF + [TU("utils/string_view.cpp")], secs=120)
def _(c):
    e = Elf(c)
    e.header()
    e.sections()
    tab = string_table(c)
    et = c.type_like(r"^struct.cpptrace::v1::detail::elf::pc_range$")
    c.eng.by_invariant.append("elf::get_pc_ranges")
    seen = []
    text = [ord(x) for x in ".text"]

    def vec(st):
        o = [x for x in st.top().allocas if x.name.split("!")[0].split("#")[0].rstrip("0123456789.") == "vec"]
        p = Ptr(o[0]) if o else st.ghost["vec.at"]
        return models.getvec(c.eng, st, p, et)

    def one(eng, h, b, ctx):
        if "elf::get_pc_ranges" not in ctx.fn.dem:
            return
        seen.append(1)
        it = [o for o in h.top().allocas if o.name.split("!")[0].split("#")[0].rstrip("0123456789.") == "__begin"][0]
        i, i2 = (st.mem[it.id].d[0][1].off.div(SI_SIZE)[0].val() for st in (h, b))
        q = Out("ret", b, None)
        c.ensure(q, eqv(i2, bv(i, 64) + 1), "one section after the other")
        hv, bv_ = vec_at(h), vec_at(b)
        at = u32(e.s["sh_name"](bv(i, 64)))
        is_text = And(ult(at, tab.len), *[eqv(tab.ch(simp(at + n)), x, 8) for n, x in enumerate(text + [0])])
        for st, yes in cases(c, q, is_text):
            q2 = Out("ret", st, None)
            for n in range(6):
                st.assume(QUERY(bv(n, 64)))
                st.assume(QUERY(simp(at + n)))
            v0, v1 = vec_at(h), vec_at(st)
            k = bv(c.int("k"), 64)
            F = lambda s, v, k, off: c.eng.arr_byte(s.mem[v.obj.id], Lin.of(k).scale(16) + off, 8)
            if v0.obj is not None and v1.obj is not None:
                c.ensure(q2, Implies(ult(k, v0.len), And(eqv(F(st, v1, k, 0), F(h, v0, k, 0)), eqv(F(st, v1, k, 8), F(h, v0, k, 8)))), "the ranges before stay")
            if not yes:
                c.ensure(q2, eqv(v1.len, v0.len), "another section adds nothing")
                continue
            c.ensure(q2, eqv(v1.len, bv(v0.len, 64) + 1), "a text section adds a range")
            lo = e.s["sh_addr"](bv(i, 64))
            c.ensure(q2, And(eqv(F(st, v1, v0.len, 0), lo), eqv(F(st, v1, v0.len, 8), lo + e.s["sh_size"](bv(i, 64)))), "from its address on, as long as it is")

    def vec_at(st):
        for x in st.top().allocas:
            if x.name.split("!")[0].split("#")[0].rstrip("0123456789.") == "vec":
                return models.getvec(c.eng, st, Ptr(x), et)
        return models.getvec(c.eng, st, result[0], et)
    result = [None]
    c.eng.loop_steps.append(one)
    for o in c.normal(c.run(ELF + r"get_pc_ranges\(\)$", [e.p])):
        c.ensure(o, Not(is_err(c, o, 40)), "it is answered")
        c.ensure(o, eqv(o.st.ghost["strtab.index"], z3.ZeroExt(48, bv(e.h["e_shstrndx"], 16))), "the names are in the section name table")
    if not seen:
        raise Unsupported("no step of the loop over the sections was seen")


# ------------------------------------------------------------------ symbol tables
def begins(st, size):
    """index of the iterator of a range-for loop over entries of that size"""
    r = []
    for o in st.top().allocas:
        if o.name.split("!")[0].split("#")[0].rstrip("0123456789.").startswith("__begin") and o.id in st.mem:
            d = st.mem[o.id].d
            v = d[0][1] if 0 in d else None
            if isinstance(v, Ptr) and v.obj is not None and isinstance(st.mem.get(v.obj.id), engine.Arr) and st.mem[v.obj.id].es == size:
                r.append(v.off.div(size)[0].val())
    return r


def alloca(st, name):
    return [Ptr(x) for x in st.top().allocas if x.name.split("!")[0].split("#")[0].rstrip("0123456789.") == name]


def symbols_of(bits, le):
    E = SYM_SIZE[bits]

    def setup(c, complete, dynamic):
        e = Elf(c, bits, complete, le=le)
        e.sections()
        e.divide(E)
        e.et = c.type_like(r"^struct.cpptrace::v1::detail::elf::symtab_entry$")
        e.seen = []
        c.eng.by_invariant.append("get_symtab_impl")
        e.type = 11 if dynamic else 2

        def one(eng, h, b, ctx):
            if "get_symtab_impl" not in ctx.fn.dem or ctx.fn.dem.startswith("void std::sort"):
                return
            i, i2 = begins(h, E), begins(b, E)
            q = Out("ret", b, None)
            if not i:
                # the loop over the sections: only sections of another type are passed over
                s, s2 = begins(h, SI_SIZE), begins(b, SI_SIZE)
                e.seen.append("section")
                c.ensure(q, eqv(s2[0], bv(s[0], 64) + 1), "one section after the other")
                c.ensure(q, Not(eqv(e.s["sh_type"](bv(s[0], 64)), e.type, 32)), "no symbol table is passed over")
                return
            e.seen.append("symbol")
            i, i2, s = i[0], i2[0], bv(begins(h, SI_SIZE)[0], 64)
            c.ensure(q, eqv(i2, bv(i, 64) + 1), "one symbol after the other")
            if not complete:
                return
            c.ensure(q, eqv(e.s["sh_type"](s), e.type, 32), "of a section of the type looked for")
            p = alloca(h, "symbol_table")
            p = p[0] if p else h.ghost["result"]
            v0, v1 = (models.getvec(c.eng, st, p, e.et) for st in (h, b))
            at = simp(e.s["sh_offset"](s) + bv(Lin.of(i).scale(E).val(), 64))
            raw = lambda f: e.img.field(simp(at + SYM[bits][f][0]), SYM[bits][f][1], e.le)
            F = lambda st, v, k, f: c.eng.arr_byte(st.mem[v.obj.id], Lin.of(k).scale(SE_SIZE) + SE[f][0], SE[f][1])
            for st, sized in cases(c, q, Not(eqv(raw("st_size"), 0, 8 * SYM[bits]["st_size"][1]))):
                q2 = Out("ret", st, None)
                v1 = models.getvec(c.eng, st, p, e.et)
                k = bv(c.int("any entry"), 64)
                if v0.obj is not None and v1.obj is not None:
                    for f in SE:
                        c.ensure(q2, Implies(ult(k, v0.len), eqv(F(st, v1, k, f), F(h, v0, k, f), 8 * SE[f][1])), "the symbols before stay")
                c.ensure(q2, eqv(v1.len, (Lin.of(v0.len) + (1 if sized else 0)).val()), "exactly a sized symbol is added")
                if sized:
                    for f in SE:
                        c.ensure(q2, eqv(F(st, v1, v0.len, f), ext(raw(f), SYM[bits][f][1], SE[f][1]), 8 * SE[f][1]), f + " is the file's")
        c.eng.loop_steps.append(one)
        return e

    for dynamic in (False, True):
        name = "%d-bit %s-endian %ssymbol table" % (bits, "little" if le else "big", "dynamic " if dynamic else "")
        fn = r"Result<.*> cpptrace::v1::detail::elf::get_symtab_impl<%dul>\(bool\)$" % bits

        @spec("P11", "the %s is decoded" % name, T_ELF, secs=100)
        def _(c, dynamic=dynamic, fn=fn):
            e = setup(c, True, dynamic)
            j = bv(c.int("first of the type"), 64)
            T = e.s["sh_type"]
            c.st.assume(And(ult(j, e.n), eqv(T(j), e.type, 32)))
            c.st.assume(Forall(lambda k: Implies(ult(k, j), Not(eqv(T(k), e.type, 32))), {T.name()}, "the first of the type"))

            def tmpl(eng, entry, mods, steps, ctx):
                if "get_symtab_impl" not in ctx.fn.dem or begins(entry, E):
                    return []
                return [("not past the first", lambda st: ule(begins(st, SI_SIZE)[0], j))]
            c.eng.loop_templates.append(tmpl)
            inside = And(e.img.within(e.s["sh_offset"](j), e.s["sh_size"](j)), ult(e.s["sh_offset"](j), 1 << 63))
            c.st.assume(Or(inside, Not(eqv(e.s["sh_size"](j), 0))))   # where an empty table lies does not matter
            good = And(eqv(e.s["sh_entsize"](j), E), eqv(e.r(j), 0), inside)
            for o in c.normal(c.run(fn, [e.p, bool(dynamic)])):
                err = is_err(c, o, 40)
                c.ensure(o, err == Not(good), "a failure exactly when it is malformed")
                for st, bad in cases(c, o, err):
                    if bad:
                        continue
                    q = Out("ret", st, None)
                    c.ensure(q, truth(c.get(o.val.add(32), 1, st=st)), "there is one")
                    c.ensure(q, eqv(c.get(o.val.add(24), 8, st=st), u32(e.s["sh_link"](j))), "its string table is the linked one")
                    v = models.getvec(c.eng, st, o.val, e.et)
                    if v.obj is None:
                        continue
                    k = bv(c.int("an entry"), 64)
                    st.assume(ult(bv(k, 64), v.len))
                    st.assume(ult(simp(k + 1), v.len))
                    st.assume(ult(k, simp(k + 1)))
                    st.assume(QUERY(k))
                    F = lambda k, f: c.eng.arr_byte(st.mem[v.obj.id], Lin.of(k).scale(SE_SIZE) + SE[f][0], SE[f][1])
                    V = lambda k: F(k, "st_value")
                    Z = lambda k: F(k, "st_size")
                    c.ensure(q, Or(ult(V(k), V(simp(k + 1))), And(eqv(V(k), V(simp(k + 1))), ule(Z(k), Z(simp(k + 1))))), "in the order of the addresses, then of the sizes")
            if set(e.seen) != {"section", "symbol"}:
                raise Unsupported("steps of the loops: %r" % (e.seen,))

        @spec("P11", "there may be no %s" % name, T_ELF)
        def _(c, dynamic=dynamic, fn=fn):
            e = setup(c, True, dynamic)
            T = e.s["sh_type"]
            c.st.assume(Forall(lambda k: Implies(ult(k, e.n), Not(eqv(T(k), e.type, 32))), {T.name()}, "none of the type"))
            for o in c.normal(c.run(fn, [e.p, bool(dynamic)])):
                c.ensure(o, And(Not(is_err(c, o, 40)), Not(truth(c.get(o.val.add(32), 1, st=o.st)))), "nothing")

        @spec("P10", "any %s is decoded safely" % name, T_ELF, secs=100)
        def _(c, dynamic=dynamic, fn=fn):
            e = setup(c, False, dynamic)
            for o in c.normal(c.run(fn, [e.p, bool(dynamic)])):
                for st, bad in cases(c, o, is_err(c, o, 40)):
                    if st.ghost["unread"]:
                        c.ensure(Out("ret", st, None), bad, "a failure when a read failed")


for b in (64, 32):
    for le in (True, False):
        symbols_of(b, le)


# ------------------------------------------------------------------ listing the symbols
for dynamic in (False, True):
    for mode in ("good", "no table", "bad table", "no strings"):
        @spec("P11", "the %ssymbols are listed with their names (%s)" % ("dynamic " if dynamic else "", mode), T_ELF, secs=100)
        def _(c, dynamic=dynamic, mode=mode):
            e = Elf(c)
            t = symtab_object(c)
            tab = string_table(c, mode != "no strings")
            c.eng.by_invariant.append("resolve_symtab_entries")
            if mode == "no table":
                c.put(t.p.add(32), 1, 0)
            if mode == "no strings":
                c.st.assume(Not(eqv(t.link, 0)))

            def get(eng, st, a, ins):
                st.ghost["asked"] = "dynamic" in eng.prog.dem(ins.a["fn"][1])
                if mode == "bad table":
                    eng.put(st, a[0].add(40), 4, 1)
                    models.setstr(eng, st, a[0].add(8), eng.fresh_str(st, "message"))
                else:
                    eng.put(st, a[0], 8, t.p)
                    eng.put(st, a[0].add(40), 4, 0)
            c.contract(ELF + r"get_(dynamic_)?symtab\(\)$", get, "elf::get_symtab", discharged="P11: the symbol tables are decoded")
            et = c.type_like(r"^struct.cpptrace::v1::detail::elf::symbol_entry$")
            seen = []

            def one(eng, h, b, ctx):
                if "resolve_symtab_entries" not in ctx.fn.dem:
                    return
                seen.append(1)
                i, i2 = begins(h, SE_SIZE), begins(b, SE_SIZE)
                q = Out("ret", b, None)
                i, i2 = bv(i[0], 64), i2[0]
                c.ensure(q, eqv(i2, i + 1), "one symbol after the other")
                p = alloca(h, "res")[0]
                inside = And(Not(eqv(t.link, 0)), ult(t.name(i), tab.len))
                for st, named in cases(c, q, inside):
                    q2 = Out("ret", st, None)
                    v0, v1 = (models.getvec(eng, s, p, et) for s in (h, st))
                    c.ensure(q2, eqv(v1.len, (Lin.of(v0.len) + 1).val()), "one entry each")
                    at = Ptr(v1.obj, Lin.of(v0.len).scale(et.size()))
                    for f, off, w in (("st_shndx", 32, 2), ("st_value", 40, 8), ("st_size", 48, 8)):
                        c.ensure(q2, eqv(c.get(at.add(off), w, st=st), t.f[f](i), 8 * w), f + " is the symbol's")
                    if named:
                        c_string_is(c, q2, st, at, tab, t.name(i), "the name")
                    else:
                        s = models.getstr(eng, st, at)
                        c.ensure(q2, eqv(s.len, len("<strtab error>")), "a note instead of a name")
            c.eng.loop_steps.append(one)


            def tmpl(eng, entry, mods, steps, ctx):
                if "resolve_symtab_entries" not in ctx.fn.dem:
                    return []
                return [("an entry each", lambda st: eqv(models.getvec(eng, st, alloca(st, "res")[0], et).len, begins(st, SE_SIZE)[0]))]
            c.eng.loop_templates.append(tmpl)
            for o in c.normal(c.run(ELF + r"get_%ssymtab_entries\(\)$" % ("dynamic_" if dynamic else ""), [e.p])):
                c.ensure(o, o.st.ghost["asked"] == dynamic, "of the table asked for")
                err = is_err(c, o, 40)
                c.ensure(o, err == (mode in ("bad table", "no strings")), "a failure exactly when a table cannot be had")
                if mode in ("good", "no table"):
                    c.ensure(o, truth(c.get(o.val.add(24), 1, st=o.st)) == (mode == "good"), "nothing without a table")
                if mode == "good":
                    c.ensure(o, Implies(Not(eqv(t.link, 0)), eqv(o.st.ghost["strtab.index"], t.link) if o.st.ghost["strtab.index"] is not None else False), "the names are in the linked string table")
                    v = models.getvec(c.eng, o.st, o.val, et)
                    c.ensure(o, eqv(v.len, t.n), "as many entries as symbols")
            if mode == "good" and not seen:
                raise Unsupported("no step of the loop over the symbols was seen")
