import sys
k, level, note, rest = sys.argv[1:5]
s=open('/verif/config.py').read()
i=s.index("}\n", s.index("CHECKS")) if False else None
j=s.index("\n}\n")
s=s[:j]+'\n    "%s": {"level": "%s", "note": %r, %s},'%(k,level,note,rest)+s[j:]
open('/verif/config.py','w').write(s)
