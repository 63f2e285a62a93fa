"""P11: MicroXPath paths select exactly the right nodes in the right order"""
from vlib.gen import E
from vlib.common import BaseCheck, Violation
from vlib import gen, xpathref as X
from vlib.amara import build


def xtree(rng, tree, size=None):
    """A tree worth querying: few names, look-alike, adjacent & empty texts"""
    names = rng.choice([['a'], ['a', 'b'], ['a', 'b', 'c'], ['a', 'b', 'text', 'or'], ['a', 'b', 'c', 'div', 'node', 'count'], ['a', 'a.b', 'a-b', 'ab', 'b'], ['a', 'A', 'a1', '\xe1', 'a\u0301'], ['item', 'items', 'Item', 'item-1', 'item.x']])
    attr_names = rng.choice([['i'], ['i', 'k'], ['i', 'k', 'and', 'name'], ['i', 'I', 'k', 'K'], ['z', 'i', 'y', 'b', 'x', 'a'], ['i', 'i.1', 'i-1', 'ii', '_i']])
    strings = rng.choice([['x', 'y'], ['1', '2', '10', 'x'], ['', 'x', ' '], ['1', ' 2 ', '-3', '1.5', 'NaN', '0', 'a', 'true'], ['x', 'X', 'x ', '\xe9', 'e\u0301', '\u212b', '\xc5', '\uff58', '\xa0x', 'x\u200b'], ['lorem ipsum ' * 9, 'lorem ipsum ' * 9 + '.', 'lorem ipsum ', 'dolor' * 60]])
    text = lambda: rng.choice(strings)
    e = gen.gen_doc(rng, max_elems=size or rng.choice([1, 4, 8, 15, 30]), max_depth=rng.choice([2, 4, 7]), names=names, attr_names=attr_names, text=text, attr_p=0.4, text_p=rng.choice([0.2, 0.6]))
    # Values of attributes from the same strings
    for x in e.walk(): x.attrs = [(n, rng.choice(strings)) for n, _ in x.attrs]
    if rng.random() < 0.3:
        # Empty & adjacent texts
        for x in e.walk():
            if rng.random() < 0.2: x.children.insert(rng.randint(0, len(x.children)), rng.choice(strings + ['']))
    top = tree.parse(gen.render(rng, e, plain=True)) if rng.random() < 0.6 else build(e, tree)
    return top, names, attr_names, strings


def large(rng, tree):
    """Wide, deep or crowded"""
    names, attr_names, strings = ['a', 'b', 'c'], ['i', 'k'], ['x', 'y']
    how = rng.choice(['wide', 'wide', 'deep', 'attributes', 'texts'])
    n = rng.choice([17, 40, 70, 110, 260, 600])
    name = lambda: rng.choice(names)
    small = lambda: E(name(), [('i', 'x')] if rng.random() < 0.2 else [], [rng.choice(strings + [E(name(), [], [E(name())] if rng.random() < 0.3 else [])]) for _ in range(rng.choice([0, 0, 1, 2, 3]))])
    if how == 'wide':
        e = E('a', [], [small() for _ in range(n)])
        if rng.random() < 0.5: e = E('c', [], ['x', e, small()])
    elif how == 'deep':
        e = E('a', [], ['x'])
        for _ in range(min(n, 150)): e = E(name(), [], ([small()] if rng.random() < 0.3 else []) + [e] + ([small()] if rng.random() < 0.3 else []))
    elif how == 'attributes':
        e = E('a', [], [E('b', [('n%d' % i, rng.choice(strings)) for i in rng.sample(range(n), rng.randint(1, n))] + [('i', 'y')]) for _ in range(3)])
    else: e = E('a', [], [rng.choice([rng.choice(strings), rng.choice(strings), small()]) for _ in range(n)])
    return build(e, tree), names, attr_names, strings, how


def huge(rng, tree):
    """Thousands of siblings, of attributes, of nodes all in all"""
    names, strings = ['a', 'b', 'c'], ['x', 'y']
    n = rng.choice([400, 1100, 2100, 3000, 4200])
    name = lambda: rng.choice(names)
    how = rng.choice(['siblings', 'siblings', 'attributes', 'texts', 'levels'])
    if how == 'siblings': e = E('a', [], [E(name(), [('i', 'x')] if rng.random() < 0.5 else [], ['x'] if rng.random() < 0.2 else []) for _ in range(n)])
    elif how == 'texts': e = E('a', [], [rng.choice([rng.choice(strings), E(name())]) for _ in range(n)])
    elif how == 'attributes': e = E('a', [], [E(name(), [('n%d' % (n - i) if n % 3 else 'n%d' % i, 'x') for i in range(rng.choice([3, 60, 300]))]) for _ in range(rng.choice([3, 6, 12]))])
    else:
        w = int(n ** 0.5)
        e = E('a', [], [E(name(), [], [E(name(), [], ['x'] if rng.random() < 0.1 else []) for _ in range(w)]) for _ in range(w)])
    if rng.random() < 0.5: e = E('c', [], ['x', e, E('b', [('i', 'y')])])
    return build(e, tree), how


class Check(BaseCheck):
    id = 'P11'
    technique = 'differential monitor on query results by node identity vs. a reference XPath evaluator'
    level_note = 'Each item yielded is compared, by identity & in order, with a reference evaluation over its own node model; every axis & node test from every node of small trees, random paths & unions over others. Trusts the reference evaluator.'
    rule = ('Random trees over few names (look-alike, empty & adjacent texts, names like operators, functions & axes), & expressions of axes, node tests, abbreviations, / and //, absolute paths & unions in random spelling, evaluated from every '
            'kind of context node via context(), qquery() & xml_xpath(); results compared item by item with the reference. kind large: wide & deep trees, many attributes. kind huge: thousands of nodes or attributes, under simple queries & unions with duplicates. kind axes: all axis x node test steps from each node of a small tree, all pairs of axes. '
            'Distinct by expression & number of results per kind; non-trivial: it yields something.')
    quick = {'huge': 240, 'large': 2500, 'paths': 40000, 'axes': 1200, 'union': 10000, 'forest': 2500}
    boost = 3.5
    thorough = {'huge': 4000, 'large': 80000, 'paths': 1500000, 'axes': 30000, 'union': 400000, 'forest': 80000}
    required = {'items': 50000, 'from_text': 1500, 'from_attr': 500, 'from_root': 1500, 'steps_seen': 44, 'axis_pairs': 120, 'absolute_from_inside': 2000, 'unions_with_duplicates': 300, 'large': 2000, 'huge': 200, 'max_huge_items': 3000, 'huge_unions': 40, 'forest_nodes': 8000, 'forest_several': 1200}

    def worker_setup(self):
        from amara3.uxml import tree, uxpath
        self.tree, self.uxpath = tree, uxpath
        # Root nodes of other trees, some tens of them, are at hand all the time
        self.held = [next(uxpath.qquery(tree.parse('<held></held>'), '/')) for _ in range(60)]

    def contexts(self, root, rng=None):
        nodes = X.axis_nodes(root, 'descendant-or-self')
        attrs = [a for n in nodes for a in n.attrs]
        return nodes, attrs

    def run(self, src, node, detail, via=0):
        """Result of the real thing for the given context node"""
        if node.kind == 'root':
            top = node.kids[0].obj
            if via == 0: return list(self.uxpath.parse(src).compute(self.uxpath.context(top)))
            if via == 1: return list(self.uxpath.qquery(top, src))
            return list(top.xml_xpath(src))
        if node.kind == 'attr':
            owner = node.parent.obj
            attr, = self.uxpath.parse('@node()').compute(self.uxpath.context(owner, force_root=False)) if len(node.parent.attrs) == 1 else \
                [x for x in self.uxpath.parse('@*').compute(self.uxpath.context(owner, force_root=False)) if x.xml_name == node.name]
            if via == 2: return list(attr.xml_xpath(src))
            return list(self.uxpath.parse(src).compute(self.uxpath.context(attr, force_root=False)))
        inside = node.parent.kind != 'root'
        if inside and via == 1: return list(self.uxpath.qquery(node.obj, src))
        if inside and via == 2: return list(node.obj.xml_xpath(src))
        return list(self.uxpath.parse(src).compute(self.uxpath.context(node.obj, force_root=False)))

    def judge(self, x, node, src, detail, via=0):
        try:
            want = X.ev(x, X.Ctx(node))
        except X.Avoid:
            self.stats.count('avoided')
            return None
        try:
            got = self.run(src, node, detail, via)
        except Exception as e:
            raise Violation('%s from %r: failed: %r' % (src, node, e), **detail)
        d = X.diff(got, want, self.tree)
        if d: raise Violation('%s from %r: %s' % (src, node, d), got=repr(got)[:600], expected=repr(want)[:600], **detail)
        self.stats.count('items', len(want))
        self.stats.count('from_' + node.kind)
        return want

    def run_case(self, kind, index, rng):
        if kind == 'axes':
            top, names, attr_names, strings = xtree(rng, self.tree, rng.choice([3, 6, 9]))
            root, ids = X.model(top, self.tree)
            detail = dict(tree=top.xml_encode()[:1500])
            nodes, attrs = self.contexts(root)
            a, b = X.AXES[index % 12], X.AXES[index // 12 % 12]
            for node in nodes[:25] + attrs[:6]:
                for axis, test in [(a, t) for t in [('node',), ('*',), ('text',), ('name', names[0]), ('name', attr_names[0])]]:
                    if axis == 'attribute' and test[0] == 'text': continue
                    x = ('step', axis, test)
                    if self.judge(x, node, X.text(x, rng), detail): self.stats.see('steps_seen', (axis, test[0]))
                x = ('path', ('step', a, ('node',)), rng.choice(['/', '/', '//']), ('step', b, rng.choice([('node',), ('*',)])))
                want = self.judge(x, node, X.text(x, rng), detail)
                if want: self.stats.see('axis_pairs', (a, b))
                self.stats.case(('axes', a, b, len(nodes), node.kind, want and len(want)), bool(want))
            return
        if kind == 'huge': return self.huge(rng)
        if kind == 'forest': return self.forest(rng)
        if kind == 'large':
            top, names, attr_names, strings, how = large(rng, self.tree)
            self.stats.see('large_kinds', how)
            self.stats.count('large')
        else: top, names, attr_names, strings = xtree(rng, self.tree)
        root, ids = X.model(top, self.tree)
        nodes, attrs = self.contexts(root)
        g = X.Gen(rng, names, attr_names, strings, weird=0.03)
        if kind == 'large':
            x = g.rel(rng.choice([1, 1, 2]))
            if rng.random() < 0.6: x = ('abs', rng.choice(['/', '//']), x)
            if rng.random() < 0.3: x = ('union', x, self.operand(g, rng))
        elif kind == 'paths':
            x = g.location() if rng.random() < 0.8 else g.rel(rng.randint(3, 6))
        else:
            x = ('union', self.operand(g, rng), self.operand(g, rng))
            for _ in range(rng.choice([0, 0, 1, 2])): x = ('union', x, self.operand(g, rng)) if rng.random() < 0.7 else ('union', self.operand(g, rng), x)
            if rng.random() < 0.3: x = ('path', ('seq', [x]), rng.choice(['/', '//']), g.step())
        src = X.text(x, rng)
        detail = dict(tree=top.xml_encode()[:1500], expression=src)
        r = rng.random()
        node = root if r < 0.25 else rng.choice(attrs) if attrs and r < 0.35 else rng.choice(nodes)
        if r > 0.8:
            texts = [n for n in nodes if n.kind == 'text']
            if texts: node = rng.choice(texts)
        want = self.judge(x, node, src, detail, rng.randrange(3))
        if want is None: return
        if x[0] == 'abs' and node.kind not in ('root',): self.stats.count('absolute_from_inside')
        if x[0] == 'union':
            n = len(X.ev(x[1], X.Ctx(node))) + len(X.ev(x[2], X.Ctx(node)))
            if n > len(want): self.stats.count('unions_with_duplicates')
        self.stats.see('shapes', X.shape(x))
        for f in X.features(x): self.stats.see('features', f)
        self.stats.case((X.shape(x), node.kind, len(want), len(nodes)), bool(want))
        if index < 3: self.stats.sample([src, repr(node), repr(want)[:100]])

    def huge(self, rng):
        top, how = huge(rng, self.tree)
        root, ids = X.model(top, self.tree)
        test = lambda: rng.choice([('node',), ('*',), ('name', rng.choice('abc')), ('text',)])
        every = lambda: ('abs', '//', ('step', 'child', test()))
        attrs = ('abs', '//', ('step', 'attribute', rng.choice([('*',), ('*',), ('node',), ('name', 'i'), ('name', 'n3')])))
        simple = lambda: rng.choice([every, every, lambda: attrs, lambda: ('step', 'descendant', test()), lambda: ('step', 'descendant-or-self', test()), lambda: ('path', ('step', 'child', ('*',)), '/', ('step', 'child', test())),
                                     lambda: ('path', ('step', 'child', ('*',)), rng.choice(['/', '//']), ('step', 'attribute', ('*',))), lambda: ('abs', '/', ('path', ('step', 'child', ('*',)), '/', ('step', 'descendant', test())))])()
        x = simple()
        if rng.random() < 0.4:
            x = ('union', x, simple() if rng.random() < 0.6 else x)
            self.stats.count('huge_unions')
        nodes = X.axis_nodes(root, 'descendant-or-self')
        light = [n for n in nodes if n.kind == 'elem' and n.parent is root] + [root]
        node = rng.choice(light)
        if x[0] == 'step' and rng.random() < 0.3:
            # From far along among the siblings
            most = max((n for n in nodes if n.kind in ('root', 'elem')), key=lambda n: len(n.kids))
            kid = rng.choice(most.kids or [most])
            x = ('step', rng.choice(['preceding-sibling', 'following-sibling', 'preceding', 'following', 'ancestor']), test())
            node = kid
        detail = dict(tree=top.xml_encode()[:600], nodes=len(nodes))
        want = self.judge(x, node, X.text(x, rng), detail, rng.randrange(3))
        if want is None: return
        self.stats.count('huge')
        self.stats.see('huge_kinds', how)
        self.stats.maximum('huge_items', len(want))
        self.stats.case(('huge', X.shape(x), how, len(want)), bool(want))

    def forest(self, rng):
        """Unions over several trees, by variables: in document order in each tree, every node once"""
        tops, roots, vars_, where = [], [], {}, {}
        names = attr_names = strings = None
        for k in range(rng.choice([2, 2, 2, 3, 3, 4, 6])):
            top, names, attr_names, strings = xtree(rng, self.tree)
            root, ids = X.model(top, self.tree)
            tops.append(top); roots.append(root)
        nodes = [n for r in roots for n in X.axis_nodes(r, 'descendant')]
        for name in 'vwuxyz':
            n = rng.choice(nodes if rng.random() < 0.4 else [r.kids[0] for r in roots])
            vars_[name] = n
        g = X.Gen(rng, names, attr_names, strings, weird=0.03)
        def operand():
            v = ('var', rng.choice('vwuxyz'))
            r = rng.random()
            if r < 0.2: return v
            if r < 0.3: return ('seq', [v, ('var', rng.choice('vwuxyz'))])
            if r < 0.45: return self.operand(g, rng)
            return ('path', v, rng.choice(['/', '//']), g.step())
        x = ('union', operand(), operand())
        for _ in range(rng.choice([0, 1, 1, 2, 4])): x = ('union', x, operand())
        src = X.text(x, rng)
        start = rng.choice(nodes)
        def members(x):
            if x[0] == 'union': return members(x[1]) + members(x[2])
            return X.ev(x, X.Ctx(start, vars_))
        try: want = members(x)
        except X.Avoid: return
        if not all(isinstance(n, X.N) for n in want): return
        detail = dict(trees=[t.xml_encode()[:700] for t in tops], expression=src, variables=repr({k: repr(v) for k, v in vars_.items()}))
        try: got = list(self.uxpath.parse(src).compute(self.uxpath.context(start.obj, variables={k: v.obj for k, v in vars_.items()}, force_root=False)))
        except Exception as e: raise Violation('%s: failed: %r' % (src, e), **detail)
        distinct = {id(n): n for n in want}
        by_tree = [sorted((n for n in distinct.values() if n.root is r), key=lambda n: n.order) for r in roots]
        left = [list(ns) for ns in by_tree]
        for item in got:
            # Which tree comes first is up to the implementation
            for ns in left:
                if ns and not X.diff([item], ns[:1], self.tree):
                    ns.pop(0)
                    break
            else: raise Violation('%s over several trees: %r is not to come here, again or at all' % (src, item), got=repr(got)[:600], expected=repr(by_tree)[:900], **detail)
        if any(left): raise Violation('%s over several trees: nodes left out: %r' % (src, [n for ns in left for n in ns][:5]), got=repr(got)[:600], expected=repr(by_tree)[:900], **detail)
        self.stats.count('forest_nodes', len(got))
        if sum(1 for ns in by_tree if ns) > 1: self.stats.count('forest_several')
        self.stats.case(('forest', X.shape(x), tuple(map(len, by_tree))), bool(got))

    def operand(self, g, rng):
        x = g.location()
        return ('seq', [x]) if rng.random() < 0.2 else x
