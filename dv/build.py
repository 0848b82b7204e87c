"""Builds what a check needs from /repo's current tree: LLVM IR of the translation units under
contract, and the instrumented harness.  Everything goes to a private directory outside /repo."""
import os
import subprocess
import concurrent.futures as cf

REPO = os.environ.get("VERIF_REPO", "/repo")
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

BASE_DEFS = ["CPPTRACE_STATIC_DEFINE", "CPPTRACE_GET_SYMBOLS_WITH_ADDR2LINE", "CPPTRACE_UNWIND_WITH_UNWIND",
             "CPPTRACE_DEMANGLE_WITH_CXXABI", "CPPTRACE_HAS_DL_FIND_OBJECT", "CPPTRACE_HAS_CXX_EXCEPTION_TYPE",
             "HAS_ATTRIBUTE_PACKED", "NOMINMAX", 'CPPTRACE_ADDR2LINE_PATH="/usr/bin/addr2line"']
CXX = "clang++-18"


class BuildError(Exception):
    pass


def inc():
    return ["-I" + REPO + "/include", "-I" + REPO + "/src", "-I" + VERIF + "/harness"]


def run(cmd, timeout=300, cwd=None):
    p = subprocess.run(cmd, capture_output=True, text=True, timeout=timeout, cwd=cwd)
    if p.returncode != 0:
        raise BuildError("%s\n%s" % (" ".join(cmd), (p.stderr or p.stdout)[-4000:]))
    return p


class TU:
    """one translation unit: path relative to /repo/src, or probe:NAME for /verif/probes/NAME.cpp"""

    def __init__(self, path, defs=(), drop=(), std="c++11", opts=()):
        self.path, self.defs, self.drop, self.std, self.opts = path, tuple(defs), tuple(drop), std, tuple(opts)

    def key(self):
        return (self.path, self.defs, self.drop, self.std, self.opts)

    def src(self):
        if self.path.startswith("probe:"):
            return os.path.join(VERIF, "probes", self.path[6:] + ".cpp")
        return os.path.join(REPO, "src", self.path)

    def flags(self):
        d = [x for x in BASE_DEFS if x not in self.drop] + list(self.defs)
        return ["-std=" + self.std] + list(self.opts) + ["-D" + x for x in d]


def compile_ir(tu, out):
    run([CXX] + tu.flags() + ["-O0", "-Xclang", "-disable-O0-optnone", "-gline-tables-only",
                              "-fno-discard-value-names", "-fclang-abi-compat=17", "-w"] + inc() + ["-S", "-emit-llvm", tu.src(), "-o", out])
    return out


# ------------------------------------------------------------------ harness
LIB = ["binary/elf.cpp", "binary/module_base.cpp", "binary/object.cpp", "binary/safe_dl.cpp", "cpptrace.cpp", "ctrace.cpp",
       "demangle/demangle_with_cxxabi.cpp", "exceptions.cpp", "formatting.cpp", "from_current.cpp", "jit/jit_objects.cpp",
       "logging.cpp", "options.cpp", "platform/memory_mapping.cpp", "prune_symbol.cpp", "snippets/snippet.cpp",
       "symbols/symbols_core.cpp", "symbols/symbols_with_addr2line.cpp", "unwind/unwind_with_unwind.cpp", "utils.cpp",
       "utils/error.cpp", "utils/microfmt.cpp", "utils/replace_all.cpp", "utils/string_view.cpp", "utils/utils.cpp",
       "utils/io/file.cpp", "utils/io/memory_file_view.cpp"]

SAN = ["-fsanitize=address,undefined", "-fno-sanitize=vptr,function,nonnull-attribute", "-fno-sanitize-recover=all", "-fno-omit-frame-pointer"]


def lib_sources():
    """every .cpp below src compiles to nothing when its feature macro is off, so take them all"""
    r = []
    for d, _, fs in os.walk(os.path.join(REPO, "src")):
        for f in fs:
            if f.endswith(".cpp"):
                r.append(os.path.relpath(os.path.join(d, f), os.path.join(REPO, "src")))
    return sorted(r)


def compile_obj(src, out, flags, san=SAN, opt="-O1"):
    run([CXX] + flags + [opt, "-g1", "-w"] + list(san) + inc() + ["-c", src, "-o", out])
    return out


def build_harness(name, src, outdir, defs=(), drop=(), exclude=(), std="c++11", san=SAN, extra_link=(), only=None, pool=None,
                  hflags=(), opt="-O1"):
    """compile the library (minus `exclude`) and the harness with sanitizers -> executable"""
    d = [x for x in BASE_DEFS if x not in drop] + list(defs)
    flags = ["-std=" + std] + ["-D" + x for x in d]
    jobs = [(src, os.path.join(outdir, name + ".h.o"), flags + list(hflags))]
    for s in (only if only is not None else lib_sources()):
        if s in exclude:
            continue
        o = os.path.join(outdir, name + "." + s.replace("/", "_") + ".o")
        jobs.append((os.path.join(REPO, "src", s), o, flags))
    own = None
    if pool is None:
        own = pool = cf.ThreadPoolExecutor(8)
    try:
        objs = [f.result() for f in [pool.submit(compile_obj, s, o, fl, san, opt) for s, o, fl in jobs]]
    finally:
        if own:
            own.shutdown()
    exe = os.path.join(outdir, name)
    run([CXX] + list(san) + objs + ["-o", exe, "-ldl", "-lpthread"] + list(extra_link))
    return exe
