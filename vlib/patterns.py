"""Reference for patterns of element names: '*' any one element, '**' any number of them, tuples of alternatives"""
from .gen import E


def matches(pattern, path):
    """Does the whole pattern match the whole path of names"""
    # Row by row
    here = {0}
    def close(s):
        s = set(s)
        todo = list(s)
        while todo:
            i = todo.pop()
            if i < len(pattern) and pattern[i] == '**' and i + 1 not in s:
                s.add(i + 1); todo.append(i + 1)
        return s
    here = close(here)
    for name in path:
        nxt = set()
        for i in here:
            if i >= len(pattern): continue
            p = pattern[i]
            if p == '**': nxt.add(i)
            elif p == '*' or p == name or (isinstance(p, tuple) and name in p): nxt.add(i + 1)
        here = close(nxt)
        if not here: return False
    return len(pattern) in here


def outermost(e, pattern, path=()):
    """Elements whose path from the document element on matches, not within another such. Iterative; with the order of their end tags"""
    out = []
    stack = [(e, (e.name,))]
    while stack:
        x, path = stack.pop()
        if matches(pattern, path):
            out.append(x)
            continue
        for c in reversed(x.children):
            if isinstance(c, E): stack.append((c, path + (c.name,)))
    return out


def all_below(e, pattern):
    """Descendants of e whose path from its children on matches, in document order"""
    out = []
    stack = [(c, (c.name,)) for c in reversed(e.children) if isinstance(c, E)]
    while stack:
        x, path = stack.pop()
        if matches(pattern, path): out.append(x)
        for c in reversed(x.children):
            if isinstance(c, E): stack.append((c, path + (c.name,)))
    return out


def gen_pattern(rng, e, names, rooted=True):
    """A pattern, mostly one that matches something"""
    # Path of some element
    elems = [(e, [e.name])]
    for x, p in elems:
        if len(elems) < 300:
            elems.extend((c, p + [c.name]) for c in x.children if isinstance(c, E))
    x, path = rng.choice(elems)
    if not rooted:
        path = path[1:] or [rng.choice(names)]
    out = []
    i = 0
    while i < len(path):
        r = rng.random()
        n = path[i]
        if r < 0.45: out.append(n)
        elif r < 0.6: out.append('*')
        elif r < 0.75:
            alts = [n] + [rng.choice(names) for _ in range(rng.randint(0, 2))]
            if rng.random() < 0.15: alts += ['zz%d' % k for k in range(rng.choice([2, 5, 12, 40]))]
            rng.shuffle(alts)
            out.append(tuple(alts))
        elif r < 0.9 and i < len(path) - 1:
            out.append('**')
            i += rng.randint(0, 2) - 1
        else: out.append(rng.choice(names))
        i += 1
    if rng.random() < 0.15: out.insert(rng.randint(0, len(out)), '**')
    while out and out[-1] == '**':
        out.append(rng.choice(names + ['*']))
    if rng.random() < 0.05: out.append(rng.choice(names))
    return tuple(out)
