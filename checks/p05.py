"""P05: tree mutations keep children, order and parent links consistent"""
from vlib.common import BaseCheck, Violation
from vlib import gen, refuxml
from vlib.gen import E


class M:
    """Model of a node: an element (name not None) or a text"""
    __slots__ = ('name', 'attrs', 'text', 'kids', 'parent', 'real')
    def __init__(self, name=None, text=None, attrs=()):
        self.name, self.text, self.attrs = name, text, dict(attrs)
        self.kids, self.parent, self.real = [], None, None

    def value(self):
        return self.text if self.name is None else ''.join(k.value() for k in self.kids)

    def top(self):
        m = self
        while m.parent is not None: m = m.parent
        return m

    def within(self, other):
        m = self
        while m is not None:
            if m is other: return True
            m = m.parent
        return False

    def to_e(self):
        return E(self.name, self.attrs.items(), [k.to_e() if k.name is not None else k.text for k in self.kids])


def merged_events(e):
    out = []
    for ev in gen.events_of(e):
        if ev[0] == 'c' and out and out[-1][0] == 'c':
            out[-1] = ('c', out[-1][1] + ev[1])
        else:
            out.append(ev)
    return out


class Word(str):
    """A kind of string"""


class Check(BaseCheck):
    id = 'P05'
    technique = 'model-based runtime monitor over mutation histories'
    level_note = 'Each operation is mirrored in a reference model; the whole forest, by identity, is compared after each step; sampled histories.'
    rule = ('Histories of 10-60 appends, inserts at every index, negative & out of range ones too, removals (by the node at hand, look-alike text nodes among the children) & re-insertions elsewhere, also attempted removals of what is '
            'not a child, over a forest of built, parsed (MicroXML, XML) & streamed trees; after each, the children (by identity), parents, values & serialization of all nodes are compared with a model. '
            'Some with up to 1500 children, 150 levels, long texts. Distinct by history; non-trivial: at least 10 operations with a removal.')
    quick = {'history': 3200, 'large': 400}
    boost = 6
    thorough = {'history': 110000, 'large': 4000}
    required = {'max_children': 500, 'max_depth': 80, 'op_append': 3000, 'op_insert': 3000, 'op_remove': 3000, 'op_remove_absent': 1000, 'op_move': 1000, 'removed_lookalike': 200, 'negative_index': 500, 'reattached': 300, 'nodes_compared': 300000}
    assumptions = ['Only detached nodes are inserted, or ones which are then struck from the list of children they were in; indices as for lists, except that -1 appends']

    def worker_setup(self):
        from amara3.uxml import tree, xml, treeiter, html5
        self.html5 = html5
        self.tree, self.xml, self.treeiter = tree, xml, treeiter

    def adopt(self, real):
        m = M(real.xml_name, attrs=real.xml_attributes) if isinstance(real, self.tree.element) else M(text=str(real))
        m.real = real
        if m.name is not None:
            for k in list(real.xml_children):
                c = self.adopt(k)
                c.parent = m
                m.kids.append(c)
        return m

    def fail(self, what, **detail):
        raise Violation(what, log=self.log[-80:], **detail)

    def compare(self, nodes):
        t = self.tree
        for m in nodes:
            r = m.real
            self.stats.count('nodes_compared')
            p = r.xml_parent
            want = m.parent.real if m.parent is not None else None
            if p is not want:
                self.fail('xml_parent of %r is %r rather than %r' % (r, p, want))
            if m.name is None:
                if str(r) != m.text or r.xml_value != m.text:
                    self.fail('text changed from %r to %r' % (m.text, str(r)))
                continue
            if r.xml_name != m.name or dict(r.xml_attributes) != m.attrs:
                self.fail('name or attributes changed: %r %r rather than %r %r' % (r.xml_name, r.xml_attributes, m.name, m.attrs))
            kids = list(r.xml_children)
            if len(kids) != len(m.kids) or any(k is not c.real for k, c in zip(kids, m.kids)):
                self.fail('children of %r are %r rather than %r' % (r, kids, [c.real for c in m.kids]))

    def output(self, m):
        want = m.to_e()
        if m.real.xml_value != m.value():
            self.fail('xml_value %r rather than %r' % (m.real.xml_value, m.value()))
        text = m.real.xml_encode()
        verdict, events = refuxml.read(text)
        if verdict != 'accept' or events != merged_events(want):
            self.fail('xml_encode() gives %r' % text[:1500], expected=repr(want)[:1500])
        self.stats.count('serializations')

    def new_text_model(self, parent, at, value, arg, what):
        """A text node has been created for a string (or, given a text node, that one may have been used)"""
        kids = list(parent.real.xml_children)
        if not (0 <= at < len(kids)):
            self.fail('nothing at index %d after insertion' % at, children=repr(kids))
        r = kids[at]
        if not isinstance(r, self.tree.text) or str(r) != value:
            self.fail('%r at index %d rather than text %r' % (r, at, value))
        if r is arg and isinstance(arg, self.tree.text):
            if what.real is None:
                what.real = arg
                self.nodes.append(what)
            return what
        if any(r is n.real for n in self.nodes):
            self.fail('text node %r at index %d is not a new one' % (r, at))
        m = M(text=value)
        m.real, m.parent = r, parent
        self.nodes.append(m)
        return m

    def run_large(self, rng):
        """Many children, long texts, depth: the nodes at hand are compared after each operation, everything now & then"""
        t = self.tree
        self.log = []
        if rng.random() < 0.5:
            e = gen.gen_large(rng, xml=True, wide=1500, deep=150, text=20000, name=500)
            top = t.parse(gen.render(rng, e)) if rng.random() < 0.5 else self.xml.treebuilder().parse(gen.render_xml(rng, e))
        else:
            top = t.element('top')
        self.nodes = []
        def collect(m):
            self.nodes.append(m)
            for k in m.kids: collect(k)
        collect(self.adopt(top))
        elems = [m for m in self.nodes if m.name is not None]
        wide = max(elems, key=lambda m: len(m.kids))
        if top.xml_name == 'top':
            how = rng.choice(['append', 'insert', 'front', 'anywhere'])
            n = gen.log_int(rng, 30, 1200)
            for i in range(n):
                m = M(text=rng.choice(['x', 'y', 'z%d' % i])) if rng.random() < 0.4 else M('e%d' % (i % 7))
                arg = m.text if m.name is None else t.element(m.name)
                at = len(wide.kids) if how in ('append', 'insert') else 0 if how == 'front' else rng.randint(0, len(wide.kids))
                self.log.append((how, at, repr(arg)))
                if how == 'append': wide.real.xml_append(arg)
                else: wide.real.xml_insert(arg, at)
                wide.kids.insert(at, m)
                m.real, m.parent = wide.real.xml_children[at], wide
                if m.name is not None and m.real is not arg: self.fail('%r at index %d rather than %r' % (m.real, at, arg))
                self.nodes.append(m)
            self.compare(self.nodes)
        removals = 0
        deepest = [m for m in elems if not any(k.name is not None for k in m.kids)]
        for _ in range(rng.randint(10, 80)):
            e = wide if rng.random() < 0.7 or not deepest else rng.choice(deepest + elems[-20:])
            if rng.random() < 0.55 or not e.kids:
                detached = [m for m in self.nodes[-60:] if m.parent is None and not e.within(m)]
                if detached and rng.random() < 0.5: what = rng.choice(detached); arg = what.real
                elif rng.random() < 0.5: what = M(text=rng.choice(['x', 'y', gen.long_text(rng, 5000)])); arg = what.text
                else: what = M('n'); what.real = arg = t.element('n'); self.nodes.append(what)
                n = len(e.kids)
                ix = rng.randint(-n - 2, n + 2) if rng.random() < 0.4 else rng.randint(0, n)
                if ix == -1: ix = n
                at = min(ix, n) if ix >= 0 else max(n + ix, 0)
                self.log.append(('insert', e.name, n, repr(arg)[:60], ix))
                e.real.xml_insert(arg, ix)
                if what.name is None: what = self.new_text_model(e, at, what.text, arg, what)
                what.parent = e
                e.kids.insert(at, what)
                self.stats.count('op_insert')
            else:
                i = rng.randrange(len(e.kids)) if rng.random() < 0.7 else len(e.kids) - 1
                what = e.kids[i]
                self.log.append(('remove', e.name, i, repr(what.real)[:60]))
                e.real.xml_remove(what.real)
                e.kids.pop(i)
                what.parent = None
                self.nodes.remove(what); self.nodes.append(what)
                removals += 1
                self.stats.count('op_remove')
            self.compare([e, what] + e.kids)
            self.stats.maximum('children', len(wide.kids))
        self.compare(self.nodes)
        for m in self.nodes:
            d, x = 0, m
            while x.parent is not None and d < 1000: x = x.parent; d += 1
            self.stats.maximum('depth', d)
            if m.parent is None and m.name is not None: self.output(m)
        self.stats.case(repr(self.log), removals > 0)

    def run_case(self, kind, index, rng):
        if kind == 'large': return self.run_large(rng)
        t = self.tree
        self.log = []
        tops = []
        words = rng.choice([['x', 'x', 'y', '', ' ', '\n', '<&>"', 'xx']] * 4 + [['\xe9', 'e\u0301', '\xc5', '\u212b', 'lorem ' * 20, 'lorem ' * 20 + '.']])
        text = lambda: rng.choice(words) if rng.random() < 0.8 else gen.gen_text(rng, 0, 5)
        names = ['a', 'a', 'b', 'c']
        for _ in range(rng.randint(1, 3)):
            src = rng.choice(['new', 'parse', 'xml', 'stream', 'html'])
            if src == 'new':
                tops.append(t.element(rng.choice(names), {'i': '1'} if rng.random() < 0.3 else None))
            else:
                e = gen.gen_doc(rng, max_elems=6, max_depth=4, names=names, text=text, text_p=0.6, xml=True)
                s = gen.render_xml(rng, e)
                if src == 'parse': tops.append(t.parse(s))
                elif src == 'html':
                    tops.append(self.html5.parse('<p>x<b i=1>x</b>y<i>x</i> </p><p>' + rng.choice(['x', 'x<b>y', '<table>x<tr><td>y', '<svg><g/>x</svg>']) + '</p>'))
                elif src == 'xml': tops.append(self.xml.treebuilder().parse(s))
                else:
                    got = []
                    def sink():
                        while True:
                            got.append((yield))
                    self.treeiter.sender(('*', '*'), sink()).parse('<r>' + s + '</r>')
                    tops.extend(got[:1])
            self.log.append((src, tops[-1].xml_encode()[:200]))
        self.nodes = []
        def collect(m):
            self.nodes.append(m)
            for k in m.kids: collect(k)
        for r in tops:
            collect(self.adopt(r))
        removals = 0
        nops = rng.randint(10, 60)
        for _ in range(nops):
            elems = [m for m in self.nodes if m.name is not None]
            e = rng.choice(elems)
            r = rng.random()
            touched = None
            moving = [m for m in self.nodes if m.parent is not None and m.parent is not e and m.name is not None and not e.within(m)] if r < 0.06 else []
            if moving:
                # Straight from one to another, then struck from the list of the former: it belongs to whichever it was put in last
                what = rng.choice(moving)
                former = what.parent
                n = len(e.kids)
                ix = rng.randint(0, n)
                self.log.append(('move', former.name, e.name, n, ix, repr(what.real)[:60]))
                if ix == n and rng.random() < 0.5: e.real.xml_append(what.real)
                else: e.real.xml_insert(what.real, ix)
                if what.real.xml_parent is not e.real:
                    self.fail('xml_parent of %r is %r rather than %r, where it was put' % (what.real, what.real.xml_parent, e.real))
                i = former.kids.index(what)
                former.kids.pop(i)
                if former.real.xml_children[i] is not what.real: self.fail('children of %r altered' % former.real)
                del former.real.xml_children[i]
                what.parent = e
                e.kids.insert(ix, what)
                self.stats.count('op_move')
            elif r < 0.5:
                # Put something in
                detached = [m for m in self.nodes if m.parent is None and not e.within(m)]
                x = rng.random()
                if x < 0.35 and detached:
                    what = rng.choice(detached)
                    arg = what.real
                    if what.name is not None and removals: self.stats.count('reattached')
                elif x < 0.65 or len(elems) > 25:
                    what = M(text=text())
                    arg = rng.choice([str, str, Word, t.text])(what.text)
                else:
                    what = M(rng.choice(names), attrs={'k': text()} if rng.random() < 0.3 else {})
                    what.real = arg = t.element(what.name, dict(what.attrs))
                    self.nodes.append(what)
                n = len(e.kids)
                how = rng.choice(['append', 'insert', 'insert', 'insert-1'])
                at = n
                self.log.append((how, e.name, n, repr(arg)[:60]))
                if how == 'append':
                    e.real.xml_append(arg); self.stats.count('op_append')
                elif how == 'insert-1':
                    if rng.random() < 0.5: e.real.xml_insert(arg, -1)
                    else: e.real.xml_insert(arg)
                else:
                    # As with any Python list, negative ones count from the end
                    ix = rng.randint(0, n) if rng.random() < 0.8 else rng.choice([-2, -2, -3, -n, -n - 1, -n - 5, n + 1, n + 7])
                    if ix == -1: ix = 0
                    at = min(ix, n) if ix >= 0 else max(n + ix, 0)
                    self.log[-1] += (ix,)
                    if ix < 0: self.stats.count('negative_index')
                    if rng.random() < 0.5: e.real.xml_insert(arg, ix)
                    else: e.real.xml_insert(arg, index=ix)
                    self.stats.count('op_insert')
                if what.name is None:
                    what = self.new_text_model(e, at, what.text, arg, what)
                what.parent = e
                e.kids.insert(at, what)
            elif r < 0.85:
                withkids = [m for m in elems if m.kids]
                if not withkids: continue
                e = rng.choice(withkids)
                # Prefer text nodes with look-alikes ahead
                cands = [i for i, k in enumerate(e.kids) if k.name is None and any(o.name is None and o.text == k.text for o in e.kids[:i])]
                i = rng.choice(cands) if cands and rng.random() < 0.5 else rng.randrange(len(e.kids))
                if i in cands: self.stats.count('removed_lookalike')
                k = e.kids[i]
                self.log.append(('remove', e.name, i, repr(k.real)[:60]))
                e.real.xml_remove(k.real)
                e.kids.pop(i)
                k.parent = None
                removals += 1
                self.stats.count('op_remove')
            elif r < 0.9:
                # By a string, or a text node which is not a child but looks like one: any of those which do
                withtext = [m for m in elems if any(k.name is None for k in m.kids)]
                if not withtext: continue
                e = rng.choice(withtext)
                like = rng.choice([k.text for k in e.kids if k.name is None])
                arg = rng.choice([str, Word, t.text])(like)
                self.log.append(('remove like', e.name, repr(arg)[:60]))
                before = list(e.kids)
                try:
                    e.real.xml_remove(arg)
                except ValueError:
                    self.stats.count('op_remove_like_refused')
                else:
                    left = list(e.real.xml_children)
                    gone = [i for i, k in enumerate(before) if not any(k.real is x for x in left)]
                    if len(gone) != 1 or before[gone[0]].name is not None or before[gone[0]].text != like:
                        self.fail('xml_remove(%r) leaves %r of %r' % (arg, left, [k.real for k in before]))
                    e.kids.pop(gone[0]).parent = None
                    removals += 1
                    self.stats.count('op_remove_like')
            else:
                # Not a child
                cands = [m for m in self.nodes if m.parent is not e and not (m.name is None and any(c.name is None and c.text == m.text for c in e.kids))]
                arg = rng.choice(cands).real if cands and rng.random() < 0.8 else rng.choice([t.element(rng.choice(names)), t.text('never there'), 'never there'])
                self.log.append(('remove absent', e.name, repr(arg)[:60]))
                try:
                    e.real.xml_remove(arg)
                except ValueError:
                    pass
                else:
                    self.fail('xml_remove() of %r, no child of %r, raises no ValueError' % (arg, e.real))
                self.stats.count('op_remove_absent')
            self.compare(self.nodes)
            if rng.random() < 0.3:
                self.output(e)
                self.output(e.top())
        for m in self.nodes:
            if m.parent is None and m.name is not None: self.output(m)
        self.stats.count('operations', nops)
        self.stats.maximum('nodes', len(self.nodes))
        self.stats.case(repr(self.log), removals > 0)
        self.stats.sample(self.log[:4], 1)
