import sys, time, importlib, os, tempfile, re
sys.path.insert(0, '/verif')
from dv import ir, engine, spec, build
prop = sys.argv[1]; rx = sys.argv[2] if len(sys.argv) > 2 else '.'
verbose = '-v' in sys.argv
importlib.import_module('specs.' + prop)
d = tempfile.mkdtemp(dir='/tmp')
mods = {}
import signal
for sp in spec.SPECS:
    if not re.search(rx, sp.name) or sp.prop != prop: continue
    for t in sp.tus:
        if t.key() not in mods:
            o = os.path.join(d, 'm%d.ll' % len(mods)); build.compile_ir(t, o)
            mods[t.key()] = ir.Module(open(o).read(), t.path)
    prog = engine.Program([mods[t.key()] for t in sp.tus])
    r = spec.run_spec(sp, prog, sp.secs)
    from collections import Counter
    print('%-9s %-70s %s obl=%s paths=%s q=%s' % (r['status'], sp.name[:70], r['secs'], dict(Counter(o['status'] for o in r['obligations'])), r.get('paths'), r.get('queries')))
    if r['note']: print('    note:', r['note'])
    if r.get('refutation'): print('    refutation:', r['refutation'])
    for o in r['obligations']:
        if o['status'] != 'proved' or verbose: print('    ', o['status'], o['name'], o['fn'][-60:], o.get('loc'), (str(o.get('detail')) if o['status']!='proved' else '')[:1500], o.get('witness'))
    if verbose:
        print('   models', r['models']); print('   inlined', r['inlined']); print('   loops', r['loops']); print('  covers', r['covers'])
    sys.stdout.flush()
import shutil; shutil.rmtree(d)
