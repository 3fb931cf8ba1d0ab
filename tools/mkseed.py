#!/usr/bin/env python3
"""mkseed.py SPEC.py: writes seeded/<id>/ from a description (id, property, edits, needs, breaks, demo).
Edits are made in a scratch clone of /repo; the lines they remove must stem from the original repository."""
import json, os, re, subprocess, sys, tempfile, shutil
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
DEMO = '''#!/bin/bash
# cwd: the repository, built
d=$(cd "$(dirname "$0")" && pwd); t=$(mktemp -d); trap 'rm -rf "$t"' EXIT
%s
timeout 120 "$t/demo"
'''
PLAIN = 'g++-10 -std=c++17 -w -DNDEBUG -O1 -Iinclude -I_build/include "$d/demo.cpp" -L_build/lib -lrtti -Wl,-rpath,"$PWD/_build/lib" -pthread -o "$t/demo" || exit 3'
SAN = '''mkdir -p "$t/i/rtti"; printf '#pragma once\\n#define RTTI_API\\n#define RTTI_PRIVATE\\n' > "$t/i/rtti/export.h"
for s in src/*.cpp; do g++-10 -std=c++17 -w -DNDEBUG -DRTTI_STATIC -O1 -g -fsanitize=%s -I"$t/i" -Iinclude -Isrc/private -c "$s" -o "$t/$(basename "$s").o" & done
g++-10 -std=c++17 -w -DNDEBUG -DRTTI_STATIC -O1 -g -fsanitize=%s -I"$t/i" -Iinclude -Isrc/private -c "$d/demo.cpp" -o "$t/demo.o" || exit 3
wait; g++-10 -fsanitize=%s "$t"/*.o -pthread -o "$t/demo" || exit 3'''
def seed(id, property, edits, needs, breaks, demo, san=None):
    w = tempfile.mkdtemp(prefix='mkseed'); r = os.path.join(w, 'r')
    subprocess.run(['git', 'clone', '-q', '/repo', r], check=True)
    for f, old, new in edits:
        p = os.path.join(r, f); s = open(p, encoding='utf-8', newline='').read()
        if '\r\n' in s: new = new.replace('\n', '\r\n')
        ind = lambda t: ''.join('    ' + l if l.strip() else l for l in t.splitlines(True))
        for o, n in ((old, new), (ind(old), ind(new))):
            m = re.search(re.escape(o).replace('\\\n', '\r?\n'), s)
            if m: old, new = m.group(0), n; break
        if s.count(old) != 1: sys.exit('%s: %d matches in %s for %r' % (id, s.count(old), f, old))
        line = s[:s.index(old)].count('\n') + 1; n = old.rstrip('\n').count('\n')
        b = subprocess.run(['git', '-C', r, 'blame', '-s', '-L%d,%d' % (line, line + n), '--', f], stdout=subprocess.PIPE, text=True).stdout
        if '^' not in b: sys.exit('%s: no original line in %s:\n%s' % (id, f, b))
        open(p, 'w', encoding='utf-8', newline='').write(s.replace(old, new))
    d = os.path.join(V, 'seeded', id); os.makedirs(d, exist_ok=True)
    diff = subprocess.run(['git', '-C', r, 'diff'], stdout=subprocess.PIPE).stdout
    open(os.path.join(d, 'patch.diff'), 'wb').write(diff)
    open(os.path.join(d, 'demo.cpp'), 'w').write(demo)
    open(os.path.join(d, 'demo.sh'), 'w').write(DEMO % (SAN % (san, san, san) if san else PLAIN))
    os.chmod(os.path.join(d, 'demo.sh'), 0o755)
    json.dump({'property': property, 'needs': needs, 'what_it_breaks': breaks}, open(os.path.join(d, 'meta.json'), 'w'), indent=1)
    shutil.rmtree(w); print(id, 'written')
if __name__ == '__main__':
    exec(open(sys.argv[1]).read())
