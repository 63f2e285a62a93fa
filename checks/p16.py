"""P16: tree utilities select exactly the specified nodes"""
import re
from vlib.common import BaseCheck, Violation
from vlib import gen, patterns, htmlgen
from vlib.gen import E, value
from vlib.amara import build, snapshot, model_of

ATTR_VALUES = ['', '1', '2', 'x', '1', '2', ' 1', '1 ', ' ', '01', '1.0', 'X', 'x\u0301', 'xx']
LONG = ['n' * 40 + s for s in ('', 'a', 'b', 'A', 'ab')] + ['m' * 70, 'm' * 70 + 'a', 'm' * 69 + 'b', 'm' * 300 + 'a', 'a' + 'm' * 300]
NAMES = ['a', 'b', 'ab', 'ba', 'c', 'x1', 'x-2', 'A', '\u00e9', 'aa']


# Not the same, for all they look it
LOOKALIKES = ['x', 'X', ' x', 'x ', 'x\n', '\xe9', 'e\u0301', '\u212b', '\xc5', 'x\u200b', '\uff58', '\xa0x', '1', '01', '1.0', 'None', '']
ALONG = ['lorem ipsum ' * 9, 'lorem ipsum ' * 9 + '.', 'lorem ipsum ' * 8, 'z' * 300, 'z' * 301]


class Check(BaseCheck):
    id = 'P16'
    technique = 'differential monitor on selected nodes by identity vs. reference selection; snapshot for purity'
    level_note = 'Each utility is compared, by identity & order, with a direct reference over a model of the tree, from every kind of source; trees are snapshot before & after. Sampled trees, patterns & conditions.'
    rule = ('Random trees over few names with look-alike texts (parsed, built, or from XML), each utility from random start elements & iterators of mixed nodes (children, descendants, results of other utilities), patterns mostly derived from a path in the tree with names, alternatives, * and ** '
            'in any place but the end, results consumed wholly or in part, iterators side by side; some large. Distinct by tree & arguments; non-trivial: something is selected.')
    quick = {'pattern': 20000, 'select': 15000, 'siblings': 8000, 'deep': 30}
    boost = 6
    thorough = {'pattern': 600000, 'select': 400000, 'siblings': 200000, 'deep': 300}
    required = {'large': 200, 'runs_of_texts': 500, 'selected': 30000, 'pattern_with_any_until': 4000, 'pattern_with_alternatives': 4000, 'ambiguous_patterns': 300, 'lookalike_siblings': 1000, 'sources_iterators': 3000, 'snapshots': 5000, 'functions': 8}
    assumptions = ['following_siblings of a node without parent is not judged']

    def worker_setup(self):
        from amara3.uxml import tree, treeutil, xml
        self.tree, self.tu, self.xml = tree, treeutil, xml

    def pair(self, e, top):
        """Model element or (parent, index) -> node, by a walk side by side"""
        nodes = []
        m = {}
        stack = [(e, top)]
        while stack:
            x, o = stack.pop()
            m[id(x)] = o
            nodes.append((x, o))
            kids = list(o.xml_children)
            if len(kids) != len(x.children): raise Violation('tree not as built', tree=top.xml_encode()[:1000])
            for c, k in reversed(list(zip(x.children, kids))):
                if isinstance(c, E): stack.append((c, k))
        return m, nodes

    def tree_for(self, rng, names, text):
        e = gen.gen_doc(rng, max_elems=rng.choice([1, 5, 12, 30]), max_depth=rng.choice([3, 6, 10]), names=names, attr_names=['i', 'k', 'j'], text=text, attr_p=0.4, text_p=rng.choice([0.1, 0.5]))
        if rng.random() < 0.012:
            e = gen.gen_large(rng, xml=True, wide=1500, deep=150, text=5000, names=names, attr_names=['i', 'k', 'j'], words=text)
            self.stats.count('large')
        for x in e.walk(): x.attrs = [(n, rng.choice(ATTR_VALUES)) for n, _ in x.attrs]
        r = rng.random()
        if r < 0.4 and rng.random() < 0.1:
            # Many texts on end, by themselves or before & after elements
            x = rng.choice(list(e.walk()))
            i = rng.randint(0, len(x.children))
            x.children[i:i] = [text() for _ in range(gen.log_int(rng, 3, 300))]
            self.stats.count('runs_of_texts')
        if r < 0.4: top = build(e, self.tree)
        elif r < 0.8: top = self.tree.parse(gen.render(rng, e, plain=True))
        else: top = self.xml.treebuilder().parse(gen.render_xml(rng, e, plain=True))
        e = model_of(top, self.tree)
        return e, top

    def compare(self, got, want, what, detail):
        for i, (g, w) in enumerate(zip(got, want)):
            if g is not w: raise Violation('%s: item %d is %r rather than %r' % (what, i, g, w), got=repr(got)[:500], expected=repr(want)[:500], **detail)
        if len(got) != len(want): raise Violation('%s: %d nodes rather than %d' % (what, len(got), len(want)), got=repr(got)[:500], expected=repr(want)[:500], **detail)
        self.stats.count('selected', len(want))

    def run_case(self, kind, index, rng):
        if kind == 'deep': return self.deep(rng)
        names = rng.choice([['a'], ['a', 'b'], ['a', 'b', 'ab'], NAMES]) if rng.random() < 0.92 else LONG
        texts = rng.choice([['x'], ['x', 'y', ' '], ['1', '2', '12', ''], LOOKALIKES, ALONG])
        e, top = self.tree_for(rng, names, lambda: rng.choice(texts))
        m, nodes = self.pair(e, top)
        start, obj = rng.choice(nodes) if rng.random() < 0.5 else nodes[0]
        detail = dict(tree=top.xml_encode()[:1500], start=obj.xml_encode()[:300])
        snap = snapshot(top, self.tree) if rng.random() < 0.4 else None
        if kind == 'pattern':
            pats = [patterns.gen_pattern(rng, start, names, rooted=False) for _ in range(rng.choice([1, 1, 2]))]
            its = []
            for p in pats:
                self.stats.count('pattern_with_any_until', '**' in p)
                self.stats.count('pattern_with_alternatives', any(isinstance(s, tuple) for s in p))
                self.stats.count('ambiguous_patterns', sum(s == '**' for s in p) > 1)
                its.append((iter(self.tu.select_pattern(obj, p)), [], [m[id(x)] for x in patterns.all_below(start, p)], p))
            live = list(its)
            while live:
                it = rng.choice(live)
                try: it[1].append(next(it[0]))
                except StopIteration: live = [z for z in live if z is not it]
                if rng.random() < 0.02: live = [z for z in live if z is not it] ; it[2][len(it[1]):] = []
            for _, got, want, p in its:
                self.compare(got, want, 'select_pattern %r' % (p,), detail)
                self.stats.case((detail['tree'], repr(p)), bool(want))
            self.stats.see('functions', 'select_pattern')
            if index < 3: self.stats.sample([detail['tree'][:100], repr(pats), len(its[0][2])])
        elif kind == 'siblings':
            # Every child of an element
            for x, o in nodes:
                kids = list(o.xml_children)
                some = set(range(len(kids))) if len(kids) < 60 else set(rng.sample(range(len(kids)), 30)) | {0, len(kids) - 1}
                for i, k in enumerate(kids):
                    if i not in some: continue
                    it = self.tu.following_siblings(k)
                    self.compare(list(it), kids[i + 1:], 'following_siblings of child %d, %r' % (i, k), detail)
                    if isinstance(k, str) and any(isinstance(z, str) and z == k and z is not k for z in kids): self.stats.count('lookalike_siblings')
            self.stats.see('functions', 'following_siblings')
            self.stats.case((detail['tree'], 'siblings'), len(nodes) > 1)
        else:
            desc = [(x, o) for x, o in self.pair(start, obj)[1][1:]]
            got = list(self.tu.descendants(obj))
            self.compare(got, [o for _, o in desc], 'descendants', detail)
            self.stats.see('functions', 'descendants')
            # Sources: an element, or an iterable of nodes with their models
            r = rng.random()
            pairs = list(zip(start.children, obj.xml_children))
            if r < 0.5: src, what = (lambda: obj), 'the element'
            else:
                if r < 0.65: pairs = desc; mk = lambda: self.tu.descendants(obj)
                elif r < 0.8:
                    pairs = [(c, k) for x, o in nodes for c, k in zip(x.children, o.xml_children)]
                    rng.shuffle(pairs)
                    mk = lambda: iter([k for _, k in pairs])
                elif r < 0.9:
                    n = rng.choice(names)
                    pairs = [(x, o) for x, o in desc if x.name == n]
                    mk = lambda: self.tu.select_name(self.tu.descendants(obj), n)
                else: mk = lambda: [k for _, k in pairs]
                src, what = mk, 'an iterator'
                self.stats.count('sources_iterators')
            name = rng.choice(names + ['nope'])
            pat = re.compile(rng.choice(['a', 'a$', '.', '.*b', '[ab]', 'ab?$', 'A', '(?i)A', 'x[-0-9]', 'b', '^b', '$', '\\w', '(x)?a', '(a|b)', '()a', '(?:b|(a))(z)?', '(?P<n>[ab])?', ''] if names is not LONG else ['.*a$', '.*b$', '.*n$', 'n{40}$', 'm+a$', '.{71}', 'n+a', '(.)\\1+$']))
            vals = [value(x) for x, _ in pairs if isinstance(x, E)]
            val = rng.choice(vals) if vals and rng.random() < 0.8 else rng.choice(texts + [''])
            an, av = rng.choice(['i', 'k', 'j', 'l']), rng.choice([None, None, '', '1', '2', 'x', rng.choice(ATTR_VALUES)])
            els = [(x, o) for x, o in pairs if isinstance(x, E)]
            for fname, args, want in [
                ('select_elements', (), [o for x, o in els]),
                ('select_name', (name,), [o for x, o in els if x.name == name]),
                ('select_name_pattern', (pat,), [o for x, o in els if pat.match(x.name)]),
                ('select_value', (val,), [o for x, o in els if value(x) == val]),
                ('select_attribute', (an, av), [o for x, o in els if an in dict(x.attrs) and (av is None or dict(x.attrs)[an] == av)]),
                ('select_attribute', (an,), [o for x, o in els if an in dict(x.attrs)]),
            ]:
                self.compare(list(getattr(self.tu, fname)(src(), *args)), want, '%s%r from %s' % (fname, args, what), detail)
                self.stats.see('functions', fname)
                self.stats.case((detail['tree'], fname, repr(args), what, len(pairs)), bool(want))
        if snap is not None:
            self.stats.count('snapshots')
            if snapshot(top, self.tree) != snap: raise Violation('the tree has been changed', **detail)

    def deep(self, rng):
        n = rng.choice([50, 120])
        names = [rng.choice('ab') for _ in range(n)]
        e = gen.chain(names)
        top = build(e, self.tree)
        m, nodes = self.pair(e, top)
        self.compare(list(self.tu.descendants(top)), [o for _, o in nodes[1:]], 'descendants', dict(depth=n))
        for p in [('**', 'a'), ('**', 'b', '**', 'a'), ('**', 'a', '*', ('a', 'b')), ('**', '**', 'b'), ('*', '**', 'a', 'b', '**', 'b')]:
            self.compare(list(self.tu.select_pattern(top, p)), [m[id(x)] for x in patterns.all_below(e, p)], 'select_pattern %r' % (p,), dict(depth=n))
        self.stats.case(('deep', tuple(names)))
