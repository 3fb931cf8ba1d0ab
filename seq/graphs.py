"""Inheritance graphs: every class names an ordered list of direct bases among the earlier ones, each virtual or not."""
import itertools

def options(i):
    """all lists of direct bases of class i"""
    for r in range(i + 1):
        for sub in itertools.permutations(range(i), r):
            for virt in itertools.product((False, True), repeat=r):
                yield tuple(zip(sub, virt))

def subobjects(g, d):
    """sub-objects of an object of class d: list of (class, id); virtual ones are shared"""
    virtuals, res = {}, []
    def walk(c):
        res.append(c)
        for b, v in g[c]:
            if v:
                if b not in virtuals:
                    virtuals[b] = True; walk(b)
            else:
                walk(b)
    walk(d)
    return res

def ancestors(g, d):
    s = set()
    for b, _ in g[d]:
        s.add(b); s |= ancestors(g, b)
    return s

def valid(g):
    # a direct base is reachable: it is the only sub-object of its class
    return all(subobjects(g, c).count(b) == 1 for c in range(len(g)) for b, _ in g[c])

def virtual_bases(g, d):
    s = set()
    for b, v in g[d]:
        if v: s.add(b)
        s |= virtual_bases(g, b)
    return s

def canonical(g):
    n = len(g); best = None
    for p in itertools.permutations(range(n)):
        # p[old] = new
        if any(p[b] > p[c] for c in range(n) for b, _ in g[c]): continue
        h = [None] * n
        for c in range(n): h[p[c]] = tuple((p[b], v) for b, v in g[c])
        h = tuple(h)
        if best is None or h < best: best = h
    return best

def graphs(n):
    for g in itertools.product(*[list(options(i)) for i in range(n)]):
        if valid(g): yield g

def text(g):
    return ' '.join('%d:%s' % (i, ','.join(('v' if v else '') + str(b) for b, v in bs)) for i, bs in enumerate(g))

def parse(t):
    return tuple(tuple((int(b.lstrip('v')), b[0] == 'v') for b in c.split(':')[1].split(',') if b) for c in t.split(' '))

def small(n):
    """all graphs of up to n classes, one of every set of isomorphic ones"""
    res, seen = [], set()
    for k in range(1, n + 1):
        for g in graphs(k):
            c = canonical(g)
            if c not in seen: seen.add(c); res.append(c)
    return res
