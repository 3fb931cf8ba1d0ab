"""classes of inheritance graphs for V06; usage: v06_gen.py PID TIER OUTDIR"""
import os, sys
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from graphs import *
pid, tier, out = sys.argv[1:4]
chosen = small(3)
if tier == 'thorough': chosen = small(4)
else:
    for t in ('0: 1:0 2:0 3:1,2', '0: 1:v0 2:v0 3:1,2', '0: 1:v0 2:v0 3:2,1', '0: 1:v0 2:0 3:1,2', '0: 1:0 2:1 3:2', '0: 1:v0 2:v1 3:v2', '0: 1: 2:0,1 3:v2', '0: 1: 2: 3:0,1,2', '0: 1: 2:v0,v1 3:1,v0'):
        g = parse(t); assert valid(g), t; chosen.append(g)
files = 48 if tier == 'thorough' else 24
parts = [[] for _ in range(files)]
n = 0
for info in (True, False):
    for g in chosen:
        if not info and len(g) > 3 and tier != 'thorough': continue
        names = ['K%d_%d' % (n, i) for i in range(len(g))]
        b = parts[n % files]
        for i, bs in enumerate(g):
            b.append('struct %s%s { %s using Bases = L<%s>; static constexpr auto name = "%s"; static constexpr bool hasClassInfo = %s; int number = ++serial; };'
                     % (names[i], ': ' + ', '.join(('virtual ' if v else '') + names[c] for c, v in bs) if bs else '',
                        'DECLARE_CLASSINFO public:' if info else '', ', '.join(names[c] for c, _ in bs), names[i], 'true' if info else 'false'))
        b.append('Registrar r%d{"%s%s", runGraph<%s>};' % (n, '' if info else 'no class info, ', text(g), ', '.join(names)))
        n += 1
for f, b in enumerate(parts):
    if b:
        with open(os.path.join(out, 'v06g%03d.cpp' % f), 'w') as o:
            o.write('#include "seq/v06.h"\nusing namespace v06;\nnamespace {\n' + '\n'.join(b) + '\n}\n')
