"""lists external/std callees reachable from functions matching a regex, through cpptrace/probe code only; marks those with a model"""
import sys, re, os, tempfile
sys.path.insert(0,'/verif')
from dv import build, ir, engine, models
tus, rx = sys.argv[1].split(','), sys.argv[2]
mods=[]
d=tempfile.mkdtemp(dir='/tmp')
for i,t in enumerate(tus):
    p='%s/%d.ll'%(d,i); build.compile_ir(build.TU(t),p); mods.append(ir.Module(open(p).read(),t))
prog=engine.Program(mods)
seen=set(); ext={}; rev={}
work=prog.find(rx)
if not work: print("no match")
OWN=re.compile(r"^_ZZ?N[KVRO]*(8cpptrace|5probe|12_GLOBAL__N_1)")
def own(nm): return bool(OWN.match(nm))
while work:
    f=work.pop()
    if f.name in seen: continue
    seen.add(f.name)
    f.parse()
    for b in f.blocks.values():
        for i in b.ins:
            if i.op in('call','invoke'):
                m=re.search(r'@"?([-\w.$]+)"?\(',i.txt)
                nm=m.group(1) if m else 'INDIRECT '+i.txt.strip()[:90]
                fn=prog.fn(nm)
                dem=prog.dem(nm).replace("[abi:cxx11]","")
                if fn is not None and fn.body is not None and own(nm): work.append(fn)
                else:
                    rev[dem]=nm; ext.setdefault(dem,set()).add(f.dem[:60])
print("OWN",len(seen))
for n in sorted(seen): print("  ",prog.dem(n)[:160])
def short(s):
    s=s.replace("std::__cxx11::basic_string<char, std::char_traits<char>, std::allocator<char> >","STR").replace("cpptrace::v1::detail::","D::").replace("std::__cxx11::","std::")
    s=re.sub(r"std::allocator<[^<>]*(<[^<>]*>)?[^<>]*>","AL",s)
    return s
mode='-a' in sys.argv
names={}
for k in sorted(ext):
    mod=models.M.lookup(rev.get(k,k),k) if not mode else None
    if mod is None or mode: print("  ", short(k)[:230], "" if not mode else ext[k])
import shutil; shutil.rmtree(d)
