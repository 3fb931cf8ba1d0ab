"""classes of inheritance graphs for H01; usage: h01_gen.py PID TIER OUTDIR"""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
from graphs import *
pid, tier, out = sys.argv[1:4]
FILES = 24
chosen = small(4); seen = set(chosen)
# five classes, one of them derived from all the others, at most two direct bases of it
for g in [c for c in chosen if len(c) == 4]:
    for o in options(4):
        if len(o) > 2: continue
        h = g + (o,)
        if tier != 'thorough' and sum(v for bs in h for b, v in bs) > 1: continue
        if len(ancestors(h, 4)) < 4 or not valid(h): continue
        c = canonical(h)
        if c not in seen: seen.add(c); chosen.append(c)
# six classes: several subobjects within one base and one more in another one, before or after it
for vs in (range(8) if tier == 'thorough' else (0, 3, 4)):
    for o in ((3, 4), (4, 3)):
        v = [vs >> k & 1 for k in range(3)]
        h = ((), ((0, v[0]),), ((0, v[1]),), ((1, 0), (2, 0)), ((0, v[2]),), tuple((b, 0) for b in o))
        if h not in chosen: chosen.append(h)
# larger ones: long chains, many bases, diamonds on diamonds, chains with a further base at every step
chain = lambda n, v: tuple(((k - 1, v(k)),) if k else () for k in range(n))
large = [
    chain(12, lambda k: 0), chain(10, lambda k: k % 3 == 2), chain(9, lambda k: 1),
    ((),) * 9 + (tuple((k, 0) for k in range(9)),),
    ((),) + (((0, 1),),) * 8 + (tuple((k, 0) for k in range(1, 9)),),
    ((), ((0, 1),), ((0, 1),), ((1, 0), (2, 0)), ((3, 1),), ((3, 1),), ((4, 0), (5, 0)), ((6, 1),), ((6, 1),), ((7, 0), (8, 0))),
    ((), ((0, 0),), ((0, 0),), ((1, 0), (2, 0)), ((3, 0),), ((4, 0),), ((5, 0),), ((), )[0], ((6, 0), (7, 0))),
    ((), (), ((0, 0), (1, 0)), (), ((3, 0), (2, 0)), (), ((4, 0), (5, 1)), (), ((7, 1), (6, 0)), (), ((8, 0), (9, 0))),
]
assert all(valid(h) for h in large)
names = {}
def cname(g, i):
    key = g[:i + 1]
    if key not in names: names[key] = 'K%d' % len(names)
    return names[key]
def emit(g, i):
    n = cname(g, i)
    bases = ', '.join(('virtual ' if v else '') + cname(g, b) for b, v in g[i])
    return ('struct %s%s { DECLARE_CLASSINFO public: using Bases = L<%s>; static constexpr auto name = "%s"; int m%d = %d; virtual ~%s() = default; static %s *make() { return new %s; } protected: %s() = default; %s(%s const &) = delete; };'
            % (n, ': ' + bases if bases else '', ', '.join(cname(g, b) for b, _ in g[i]), n, i, i, n, n, n, n, n, n))
# graphs that share their first classes share a file
chosen.sort()
if tier == 'thorough': FILES = 120
per = (len(chosen) + FILES - 1) // FILES
for f in range(FILES + len(large)):
    part = chosen[f * per:(f + 1) * per] if f < FILES else [large[f - FILES]]
    if not part: continue
    names.clear(); done = set(); body = []
    for k, g in enumerate(part):
        for i in range(len(g)):
            n = cname(g, i)
            if n not in done: done.add(n); body.append(emit(g, i))
        body.append('Registrar r%d{"%s", runGraph<%s>, growGraph<%s>};' % (k, text(g), *2 * (', '.join(cname(g, i) for i in range(len(g))),)))
    with open(os.path.join(out, 'h01g%03d.cpp' % f), 'w') as o:
        o.write('#include "seq/h01.h"\nusing namespace h01;\nnamespace {\n' + '\n'.join(body) + '\n}\n')
print(len(chosen), 'graphs')
