"""P17: make_pretty only rearranges whitespace"""
from vlib.common import BaseCheck, Violation
from vlib import gen
from vlib.gen import E
from vlib.amara import model_of, tree_diff


class Check(BaseCheck):
    id = 'P17'
    technique = 'before/after monitor on node identity, values & parent links, layout read from the serialized text'
    level_note = 'Every node is followed by identity through make_pretty, the layout is judged from the structure and, separately, by lines of the serialized text; repeated application too. Sampled trees, indents & depths.'
    rule = ('Random trees, parsed (MicroXML, XML & HTML5) or built, with texts in succession or put in xml_children directly; (mixed content, whitespace-only texts of all sorts, empty elements, any depth), indents of spaces, tabs, newlines & nothing, starting depths, applied to the whole or to a subtree, once, again, with another indent & after mutations. Distinct by tree & indent; '
            'non-trivial: there is an element child or whitespace.')
    quick = {'pretty': 30000, 'built': 15000, 'deep': 40, 'large': 250}
    boost = 4
    thorough = {'pretty': 600000, 'built': 300000, 'deep': 300, 'large': 6000}
    required = {'max_elements': 800, 'texts_kept': 5000, 'whitespace_replaced': 3000, 'whitespace_added': 20000, 'again': 15000, 'layout_lines': 10000, 'subtree': 1000, 'mixed_content': 3000, 'successive_texts': 5000, 'put_directly': 3000, 'html5_trees': 1000}
    assumptions = ['whitespace is that of XML: space, tab, line feed & carriage return']

    def worker_setup(self):
        from amara3.uxml import tree, treeutil, xml
        self.tree, self.tu, self.xml = tree, treeutil, xml

    def ws(self, s): return not s.strip(' \t\r\n')

    def expect(self, el, depth, indent, want):
        """For each element, by id, its children as they have to be: existing nodes, or strings for whitespace"""
        tree = self.tree
        stack = [(el, depth)]
        while stack:
            x, d = stack.pop()
            inner, outer = '\n' + indent * (d + 1), '\n' + indent * d
            out = []
            kids = list(x.xml_children)
            for k in kids:
                if isinstance(k, tree.element):
                    if not out or isinstance(out[-1], tree.element): out.append(inner)
                    out.append(k)
                    stack.append((k, d + 1))
                elif self.ws(str(k)): out.append(inner)
                else: out.append(k)
            if not out or isinstance(out[-1], tree.element): out.append(outer)
            elif type(out[-1]) is str: out[-1] = outer
            want.append((x, x.xml_name, list(x.xml_attributes.items()), x.xml_parent, out))
            self.stats.count('texts_kept', sum(isinstance(k, tree.text) for k in out))
            self.stats.count('whitespace_replaced', sum(isinstance(k, tree.text) and self.ws(str(k)) for k in kids))
            self.stats.count('whitespace_added', sum(type(k) is str for k in out))
            self.stats.count('mixed_content', any(isinstance(k, tree.text) for k in out) and any(isinstance(k, tree.element) for k in out))

    def verify(self, want, detail, what):
        tree = self.tree
        for x, name, attrs, parent, kids in want:
            if x.xml_name != name or list(x.xml_attributes.items()) != attrs or x.xml_parent is not parent: raise Violation('%s: element %s changed' % (what, name), **detail)
            got = list(x.xml_children)
            if len(got) != len(kids): raise Violation('%s: %s has children %r rather than %r' % (what, name, got, kids), **detail)
            for g, w in zip(got, kids):
                if type(w) is str:
                    if not isinstance(g, tree.text) or str(g) != w or g.xml_value != w: raise Violation('%s: in %s, %r rather than whitespace %r' % (what, name, str(g), w), **detail)
                elif g is not w: raise Violation('%s: in %s, %r rather than %r' % (what, name, g, w), **detail)
                if type(w) is not str and id(w) in self.astray: continue
                if g.xml_parent is not x: raise Violation('%s: in %s, parent of %r is %r' % (what, name, g, g.xml_parent), **detail)

    def layout(self, el, indent, depth, detail):
        """By the text alone, for trees without other text than whitespace: each start and end tag has a line of its own"""
        src = el.xml_encode()
        lines = src.split('\n')
        d = depth
        for i, line in enumerate(lines):
            close = line.strip(' \t').startswith('</')
            if close: d -= 1
            if i and line != indent * d + line.lstrip(' \t'): raise Violation('line %d is %r, at depth %d' % (i + 1, line, d), text=src[:1000], **detail)
            if line.count('<') != 1: raise Violation('line %d is %r' % (i + 1, line), text=src[:1000], **detail)
            if not close: d += 1
            self.stats.count('layout_lines')

    def run_case(self, kind, index, rng):
        tree = self.tree
        indent = rng.choice(['  ', '  ', ' ', '\t', '    ', '', ' \t', '\n', None])
        if kind == 'deep':
            e = gen.chain([rng.choice('ab') for _ in range(rng.choice([50, 120]))])
        else:
            if kind == 'large': kind = rng.choice(['pretty', 'built']); big = True
            else: big = False
            no_text = rng.random() < 0.3
            if no_text: text = lambda: rng.choice([' ', '\n', '\n  ', '\t\t'])
            else: text = lambda: rng.choice(['x', ' ', '\n', '\n\n  ', '\t', ' x ', '\nx', 'x\n', '&', '<', '\n  ', ' ', '.', '\u200b', '0', '\xa0', rng.choice(['\xa0', '\u3000', '\u2003\n', ' \u2028', '\n\xa0\xa0', '\ufeff'])])
            e = gen.gen_doc(rng, max_elems=rng.choice([1, 3, 8, 25]), max_depth=rng.choice([2, 4, 8]), text=text, text_p=rng.choice([0.1, 0.5, 0.8]), xml=True)
            if big:
                e = gen.gen_large(rng, xml=True, wide=2000, deep=120, text=0 if no_text else 8000, value=5000, words=text)
                self.stats.maximum('elements', sum(1 for _ in e.walk()))
                if rng.random() < 0.2: indent = rng.choice([' ', '\t']) * gen.log_int(rng, 5, 80)
        self.astray = {}
        if kind == 'built':
            top, src = self.assemble(rng, e)
        else: src = gen.render(rng, e, plain=True) if rng.random() < 0.7 else None
        if kind == 'built': pass
        elif src: top = tree.parse(src)
        else:
            src = gen.render_xml(rng, e, plain=True)
            top = self.xml.treebuilder().parse(src)
        detail = dict(document=src[:1200], indent=indent)
        el = top
        depth = None
        if rng.random() < 0.2:
            el = rng.choice([top] + list(self.tu.descendants(top)))
            self.stats.count('subtree')
        if rng.random() < 0.3: depth = rng.randint(0, 3) if rng.random() < 0.95 else gen.log_int(rng, 4, 100)
        kw = {}
        if indent is not None: kw['indent'] = indent
        if depth is not None: kw['depth'] = depth
        ind, dep = '  ' if indent is None else indent, depth or 0
        rest = [(x, x.xml_name, list(x.xml_attributes.items()), x.xml_parent, list(x.xml_children)) for x in [top] + list(self.tu.descendants(top))]
        below = {id(x) for x in [el] + list(self.tu.descendants(el))}
        rest = [r for r in rest if id(r[0]) not in below]
        want = []
        self.expect(el, dep, ind, want)
        got = self.tu.make_pretty(el, **kw)
        if got is not el: raise Violation('make_pretty returned %r' % (got,), **detail)
        self.verify(want, detail, 'make_pretty')
        self.verify(rest, detail, 'outside of the element')
        once = top.xml_encode()
        # Again
        want = []
        self.expect(el, dep, ind, want)
        self.tu.make_pretty(el, **kw)
        self.verify(want, detail, 'make_pretty, again')
        if top.xml_encode() != once: raise Violation('applying it again changes the text', first=once[:800], second=top.xml_encode()[:800], **detail)
        self.stats.count('again')
        if kind != 'built' and ind.strip(' \t') == '' and not any(not self.ws(c) for x in e.walk() for c in x.children if isinstance(c, str)) and not any('\n' in v or '<' in v for x in e.walk() for _, v in x.attrs):
            self.layout(el, ind, dep, detail)
        # What is read back is the same but for whitespace; that of parsing the pretty text is again stable
        back = tree.parse(once)
        # Expat may have made two of a text of more than 8 KB
        adjacent = any(isinstance(a, tree.text) and isinstance(b, tree.text) for x in [top] + list(self.tu.descendants(top)) for a, b in zip(x.xml_children, x.xml_children[1:]))
        d = tree_diff(back, model_of(top, tree), tree, exact_text=kind != 'built' and not adjacent)
        if d: raise Violation('does not read back: ' + d, **detail)
        r = rng.random()
        if r < 0.3:
            # Another indent, or a change
            if r < 0.15:
                for x in [el] + list(self.tu.descendants(el)):
                    if rng.random() < 0.3: x.xml_insert(tree.element('new'), rng.randint(0, len(x.xml_children)))
            ind2 = rng.choice([' ', '\t', '   '])
            want = []
            self.expect(el, dep, ind2, want)
            kw['indent'] = ind2
            self.tu.make_pretty(el, **kw)
            self.verify(want, detail, 'make_pretty with another indent')
        self.stats.case((src, indent, depth), len(e.children) > 0)
        if index < 3: self.stats.sample([src[:100], indent, once[:100]])

    def assemble(self, rng, e):
        """A tree built through the API, or by the HTML5 parser and changed: texts in succession, empty ones, texts put in xml_children directly"""
        tree = self.tree
        if rng.random() < 0.3:
            from amara3.uxml import html5
            src = gen.render(rng, e, plain=True)
            doc = html5.parse(''.join(rng.choice(['<!-- c -->', '<p>x<!-- c --> y<!-- --> <!-- --></p>', '<p></p>', '<br>', '<ul><li><li>x<li></ul>', '<div> <!-- c --> <b>z</b>', '<div></div>', '<title>t</title>']) for _ in range(rng.randint(0, 4))) + rng.choice([src, src, '']))
            top = rng.choice([doc, doc.xml_children[1]])
            self.stats.count('html5_trees')
        else:
            def build(m):
                el = tree.element(m.name, dict(m.attrs))
                for c in m.children:
                    if isinstance(c, str):
                        while c and rng.random() < 0.6:
                            k = rng.randint(1, len(c))
                            el.xml_append(c[:k])
                            c = c[k:]
                        if c or rng.random() < 0.3: el.xml_append(c)
                    else: el.xml_append(build(c))
                    if rng.random() < 0.15: el.xml_append(rng.choice(['', ' ', '\n', 'x', 'x ', '\t\n', '.']))
                return el
            top = build(e)
            src = repr(top.xml_encode())
        els = [top] + list(self.tu.descendants(top))
        for x in els:
            if rng.random() < 0.2:
                # Put there directly, with no parent, or one which is not it
                t = tree.text(rng.choice([' ', '\n\n', 'x', '']), rng.choice(els)) if rng.random() < 0.5 else tree.text(rng.choice([' ', '\n', 'y', '']))
                self.astray[id(t)] = t
                x.xml_children.insert(rng.randint(0, len(x.xml_children)), t)
                self.stats.count('put_directly')
        self.stats.count('successive_texts', sum(isinstance(a, tree.text) and isinstance(b, tree.text) for x in els for a, b in zip(x.xml_children, x.xml_children[1:])))
        return top, src
