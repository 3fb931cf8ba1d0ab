#!/usr/bin/env python3
"""Runs the check of one property against the working tree of the repository.

  check.py ID [--tier quick|thorough] [--replay FILE]

Builds the library sources of /repo (whatever is in the working tree) together with the property's
harness, explores, writes evidence/<ID>.json. Exit 0: held; 1: VIOLATION; 2: no answer.
"""
import concurrent.futures as cf
import glob, hashlib, json, os, re, shutil, subprocess, sys, time

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('VERIF_REPO', '/repo')
BUILD = os.path.join(VERIF, 'build')
CXX = 'g++-10'
JOBS = os.cpu_count() or 8

sys.path.insert(0, VERIF)
from lib.checks import CHECKS  # noqa: E402

COMMON = ['-std=c++17', '-DRTTI_STATIC', '-DNDEBUG', '-w',
          '-I', os.path.join(VERIF, 'lib/include'), '-I', os.path.join(REPO, 'include'),
          '-I', os.path.join(REPO, 'src/private')]
WRAP = ('memcpy', 'memmove', 'memset', 'memcmp', 'strlen')
FLAVOUR = {
    # library and harness instrumented, own runtime in place of libtsan
    'rmc': dict(cflags=['-O1', '-g1', '-fsanitize=thread', '-D_GLIBCXX_EXTERN_TEMPLATE=0'],
                lflags=['-rdynamic', '-pthread', '-ldl'] +
                       ['-Wl,--wrap=' + f for f in WRAP]),
    'seq': dict(cflags=['-O1', '-g1', '-fsanitize=address,undefined', '-fno-sanitize=vptr',
                        '-fno-sanitize-recover=all', '-fno-omit-frame-pointer'],
                lflags=['-fsanitize=address,undefined', '-pthread']),
}


class Failure(Exception):
    pass


def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace', **kw)


def read(p):
    with open(p, 'rb') as f:
        return f.read()


def sources_hash():
    h = hashlib.sha256()
    for top in ('include', 'src'):
        for d, dirs, files in sorted(os.walk(os.path.join(REPO, top))):
            dirs.sort()
            for f in sorted(files):
                p = os.path.join(d, f)
                h.update(os.path.relpath(p, REPO).encode()); h.update(read(p))
    return h.hexdigest()


def compile_one(src, obj, flags):
    if os.path.exists(obj):
        return 0, ''
    os.makedirs(os.path.dirname(obj), exist_ok=True)
    tmp = obj + '.%d.tmp' % os.getpid()
    r = sh([CXX] + flags + ['-c', src, '-o', tmp])
    if r.returncode == 0 and src.endswith('rmc/rmc.cpp'):
        # the runtime's own memory functions are not observed
        r = sh(['objcopy'] + ['--redefine-sym=%s=__real_%s' % (f, f) for f in WRAP] + [tmp])
    if r.returncode == 0:
        os.replace(tmp, obj)
    return r.returncode, r.stdout


def prune(keep):
    """build/ caches a few trees only"""
    root = os.path.join(BUILD, 'obj')
    if not os.path.isdir(root):
        return
    trees = sorted((os.path.getmtime(os.path.join(root, t)), t) for t in os.listdir(root))
    for _, t in trees[:-6]:
        if t != keep:
            shutil.rmtree(os.path.join(root, t), ignore_errors=True)


def build(pid, spec, tier):
    """returns the path of the executable; raises Failure when the library itself does not build"""
    engine = spec['engine']
    fl = FLAVOUR[engine]
    tree = sources_hash()[:16]
    out = os.path.join(BUILD, 'obj', tree)
    os.makedirs(out, exist_ok=True)
    os.utime(out)
    prune(tree)
    def key(*parts):
        h = hashlib.sha256()
        for p in parts:
            h.update(p if isinstance(p, bytes) else p.encode()); h.update(b'\0')
        return h.hexdigest()[:16]
    own = b''.join(read(os.path.join(VERIF, d, f)) for d in ('lib/include/rtti', 'rmc', 'seq')
                   for f in sorted(os.listdir(os.path.join(VERIF, d)))
                   if f.endswith('.h') and os.path.isfile(os.path.join(VERIF, d, f)))
    flags = COMMON + fl['cflags'] + ['-I', VERIF]
    jobs = []
    libsrc = [os.path.join(REPO, 'src', f) for f in sorted(os.listdir(os.path.join(REPO, 'src'))) if f.endswith('.cpp')]
    libobj = []
    for s in libsrc:
        o = os.path.join(out, '%s-%s-%s.o' % (engine, os.path.basename(s)[:-4], key(' '.join(flags))))
        libobj.append(o); jobs.append(('lib', s, o, flags + ['-fno-rtti']))
    harness = []
    hs = [os.path.join(VERIF, s) for s in spec.get('sources', [])]
    if 'generator' in spec:
        gdir = os.path.join(out, 'gen-%s-%s' % (pid, tier))
        shutil.rmtree(gdir, ignore_errors=True); os.makedirs(gdir)
        r = sh([sys.executable, os.path.join(VERIF, spec['generator']), pid, tier, gdir])
        if r.returncode:
            print(r.stdout); sys.exit(2)
        hs += [os.path.join(gdir, f) for f in sorted(os.listdir(gdir)) if f.endswith('.cpp')]
    for s in hs:
        hf = flags + spec.get('flags', [])
        o = os.path.join(out, '%s-%s-%s.o' % (engine, os.path.basename(s)[:-4], key(read(s), own, ' '.join(hf))))
        harness.append(o); jobs.append(('harness', s, o, hf))
    if engine == 'rmc':
        s = os.path.join(VERIF, 'rmc/rmc.cpp')
        o = os.path.join(out, 'rmc-%s.o' % key(read(s), own, read(os.path.abspath(__file__))))
        harness.append(o); jobs.append(('own', s, o, ['-std=c++17', '-O2', '-g1', '-w', '-I', VERIF]))
    else:
        s = os.path.join(VERIF, 'seq/seq.cpp')
        o = os.path.join(out, 'seq-%s.o' % key(read(s), own, ' '.join(fl['cflags'])))
        harness.append(o); jobs.append(('own', s, o, ['-std=c++17', '-O2', '-g1', '-w', '-I', VERIF]))
    jobs.sort(key=lambda j: -os.path.getsize(j[1]))
    with cf.ThreadPoolExecutor(JOBS) as ex:
        res = list(ex.map(lambda j: (j, compile_one(j[1], j[2], j[3])), jobs))
    bad = [(j, r[1]) for j, r in res if r[0]]
    lib_bad = [b for b in bad if b[0][0] != 'harness']
    if lib_bad:
        print(lib_bad[0][1][-6000:])
        print('check: %s does not compile' % lib_bad[0][0][1])
        sys.exit(2)
    if bad:
        # the library compiles: is it the public interface that rejects well-formed use?
        raise Failure('well-formed use of the public interface does not compile: %s\n%s' % (
            os.path.basename(bad[0][0][1]), bad[0][1][:6000]))
    exe = os.path.join(out, '%s-%s-%s' % (pid, tier, key(*[os.path.basename(o) for o in libobj + harness])))
    if not os.path.exists(exe):
        r = sh([CXX] + libobj + harness + fl['lflags'] + ['-o', exe + '.tmp'])
        if r.returncode:
            if 'undefined reference' in r.stdout:
                raise Failure('use of the public interface does not link\n' + r.stdout[:4000])
            print(r.stdout[-4000:]); sys.exit(2)
        os.replace(exe + '.tmp', exe)
    return exe


def known_findings(pid):
    res = []
    p = os.path.join(VERIF, 'known_findings.txt')
    for line in open(p, encoding='utf-8') if os.path.exists(p) else []:
        m = re.match(r'KNOWN-FINDING: property=(\S+) key=(\S+) (.*)', line.strip())
        if m and m.group(1) == pid:
            res.append((m.group(2), m.group(3)))
    return res


def write_replay(pid, text, n):
    d = os.path.join(BUILD, 'replay'); os.makedirs(d, exist_ok=True)
    p = os.path.join(d, '%s-%d.txt' % (pid, n))
    with open(p, 'w') as f:
        f.write(text)
    return p


def main():
    args = sys.argv[1:]
    pid = args[0]
    tier = os.environ.get('VERIF_TIER', 'quick')
    if '--tier' in args:
        tier = args[args.index('--tier') + 1]
    tier = 'thorough' if tier == 'thorough' else 'quick'
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    spec = CHECKS[pid]
    t0 = time.time()
    os.makedirs(BUILD, exist_ok=True)
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    violations = []   # (message, replay text)
    if '--replay' not in args:
        for f in glob.glob(os.path.join(BUILD, 'replay', pid + '-*.txt')):
            os.unlink(f)
    known = known_findings(pid)
    known_hit = {}
    groups = []
    try:
        exe = build(pid, spec, tier)
    except Failure as e:
        violations.append((str(e).splitlines()[0], str(e)))
        exe = None
    tb = time.time() - t0
    if '--build-only' in args:
        print(exe or violations[0][1]); return 0
    if exe and '--replay' in args:
        rep = open(args[args.index('--replay') + 1]).read()
        m = re.search(r'^replay-args: (.*)$', rep, re.M)
        os.execv(exe, [exe] + json.loads(m.group(1)))
    if exe:
        outf = os.path.join(BUILD, '%s-%s.out' % (pid, tier))
        if os.path.exists(outf):
            os.unlink(outf)
        cmd = [exe, '--out', outf, '--workers', str(JOBS)] + (['--thorough'] if tier == 'thorough' else [])
        if known:
            kf = os.path.join(BUILD, '%s.known' % pid)
            with open(kf, 'w') as f:
                f.write(''.join(k + '\n' for k, _ in known))
            cmd += ['--known', kf]
        env = dict(os.environ, VERIF_SEED=str(seed), LC_ALL='C',
                   ASAN_OPTIONS='detect_leaks=0:abort_on_error=0:exitcode=99:allocator_may_return_null=1:detect_odr_violation=0:handle_abort=0',
                   UBSAN_OPTIONS='print_stacktrace=1:exitcode=99')
        limit = spec.get('limit', 840) if tier == 'quick' else spec.get('limit_thorough', 4 * 3600)
        try:
            r = sh(cmd, env=env, timeout=limit)
        except subprocess.TimeoutExpired:
            print('check: exploration did not finish within %d s' % limit); return 2
        if os.path.exists(outf):
            for line in open(outf, errors='replace'):
                if line.strip():
                    groups.append(json.loads(line))
        for g in groups:
            for k, n in g.get('known', {}).items():
                known_hit[k] = known_hit.get(k, 0) + n
            if 'violation' in g:
                name = g.get('scenario') or g.get('group')
                ra = ['--scenario', name, '--replay', g['schedule']] if spec['engine'] == 'rmc' else ['--group', name, '--replay', g.get('case', '')]
                violations.append(('%s: %s' % (name, g['violation'].splitlines()[0] if g['violation'] else '?'),
                                   'property: %s\n%s\nviolation: %s\nschedule/case: %s\nreplay-args: %s\n\n%s\n' % (
                                       pid, name, g['violation'], g.get('schedule') or g.get('case', ''), json.dumps(ra), g.get('log', ''))))
        if not violations and r.returncode not in (0,):
            print(r.stdout[-6000:]); print('check: harness ended with status %d' % r.returncode); return 2
        if not groups:
            print(r.stdout[-3000:]); print('check: nothing explored'); return 2
        if not violations and not all(g.get('complete', True) for g in groups):
            print('check: exploration was not completed: %s' % [g.get('scenario') or g.get('group') for g in groups if not g.get('complete', True)]); return 2
    wall = time.time() - t0

    tot = lambda k: sum(g.get(k, 0) for g in groups)
    samples = []
    for g in groups:
        n = g.get('scenario') or g.get('group')
        for s in (g.get('outcomes') or g.get('samples') or [])[:3]:
            samples.append('%s: %s' % (n, s))
    cov = {
        'states': tot('states'), 'transitions': tot('transitions'),
        'traces_validated_against_impl': tot('executions'),
        'samples': samples[:60] or ['none'],
        'executions': tot('executions'),
        'exhaustive': bool(groups) and all(g.get('complete', True) for g in groups),
        'build_s': round(tb, 1),
        'groups': [{k: v for k, v in g.items() if k in ('scenario', 'group', 'threads', 'bound', 'executions', 'transitions', 'states',
                                                       'distinct_traces', 'distinct_outcomes', 'plain_accesses', 'complete', 'wall_s', 'known')} for g in groups],
        'bounds': spec.get('bounds', {}).get(tier, ''),
    }
    if spec['engine'] == 'rmc':
        cov['distinct_traces'] = tot('distinct_traces')
    ev = {'property': pid, 'tier': tier, 'seed': seed, 'level': spec.get('level', 'model_checking'), 'coverage': cov,
          'assumptions': spec.get('assumptions', []), 'wall_s': round(wall, 2), 'violations': len(violations)}
    with open(os.path.join(VERIF, 'evidence', pid + '.json'), 'w') as f:
        json.dump(ev, f, indent=1)
    for k, what in known:
        if k in known_hit:
            print('KNOWN-FINDING: property=%s %s [%s, %d occurrences]' % (pid, what, k, known_hit[k]))
    print('%s %s: %d executions, %d states, %d transitions, %d groups, %.1f s (build %.1f s)' % (
        pid, tier, tot('executions'), tot('states'), tot('transitions'), len(groups), wall, tb))
    if violations:
        for n, (msg, text) in enumerate(violations[:5]):
            p = write_replay(pid, text, n)
            print(msg)
            print('VIOLATION property=%s replay=%s' % (pid, p))
        return 1
    return 0


if __name__ == '__main__':
    try:
        sys.exit(main())
    except Exception as e:  # no answer, which is not a violation
        import traceback
        traceback.print_exc()
        sys.exit(2)
