"""P06: serialization round trip"""
import io
import xml.parsers.expat
from vlib.common import BaseCheck, Violation
from vlib import gen, refuxml
from vlib.gen import E
from vlib.amara import tree_diff, build
from checks.p03 import split_blocks

XMLWS = ' \t\n\r'
CHARS = split_blocks(gen.CHAR_RANGES, 4096)


def with_texts(rng, e, text):
    """The same with adjacent & empty texts here & there"""
    kids = []
    for c in e.children:
        if isinstance(c, E):
            kids.append(with_texts(rng, c, text))
        elif rng.random() < 0.3 and len(c) > 1:
            i = rng.randint(0, len(c))
            kids += [c[:i], c[i:]]
        else:
            kids.append(c)
        if rng.random() < 0.05: kids.append('')
    return E(e.name, e.attrs, kids)


def merge(e):
    """Adjacent texts merged & empty ones dropped"""
    kids = []
    for c in e.children:
        if isinstance(c, E): kids.append(merge(c))
        elif c:
            if kids and isinstance(kids[-1], str): kids[-1] += c
            else: kids.append(c)
    return E(e.name, e.attrs, kids)


def from_events(events):
    top, stack = None, []
    for ev in events:
        if ev[0] == 's':
            e = E(ev[1], ev[2])
            if stack: stack[-1].children.append(e)
            else: top = e
            stack.append(e)
        elif ev[0] == 'c':
            stack[-1].children.append(ev[1])
        else:
            stack.pop()
    return top


def expat_model(data):
    """By way of expat alone"""
    events = []
    p = xml.parsers.expat.ParserCreate()
    p.buffer_text = True
    p.ordered_attributes = True
    p.StartElementHandler = lambda n, a: events.append(('s', n, list(zip(a[::2], a[1::2]))))
    p.EndElementHandler = lambda n: events.append(('e', n))
    p.CharacterDataHandler = lambda s: events.append(('c', s))
    p.Parse(data, True)
    return merge(from_events(events))


def model_diff(got, want, ws=False, path=''):
    """None or how got differs from want (both merged); ws: whitespace may have been added around texts"""
    path += '/%s' % (want.name,)
    if got.name != want.name: return '%s: name %r rather than %r' % (path, got.name, want.name)
    if got.attrs != want.attrs: return '%s: attributes %r rather than %r' % (path, got.attrs, want.attrs)
    def slots(e):
        out = ['']
        for c in e.children:
            if isinstance(c, E): out += [c, '']
            else: out[-1] += c
        return out
    gs, ws_ = slots(got), slots(want)
    if len(gs) != len(ws_): return '%s: %d child elements rather than %d' % (path, len(gs) // 2, len(ws_) // 2)
    for g, w in zip(gs, ws_):
        if isinstance(w, E):
            d = model_diff(g, w, ws, path)
            if d: return d
        elif g != w:
            if not ws: return '%s: text %r rather than %r' % (path, g[:300], w[:300])
            i = g.find(w.strip(XMLWS))
            core = w.strip(XMLWS)
            if g.strip(XMLWS) != core or w not in g:
                return '%s: text %r rather than %r with whitespace around' % (path, g[:300], w[:300])
    return None


class Check(BaseCheck):
    id = 'P06'
    technique = 'round-trip monitor with two independent readers'
    level_note = 'xml_encode() output is read back by the MicroXML parser, an independent reader, & expat; sampled trees & all code points.'
    rule = ('Random trees built, parsed or changed through the API, each code point MicroXML allows in text & value, serialized with xml_encode() and xml_write(), plain & with an indent, of the top or of '
            'an inner element, some large in one or the other respect (children, depth, attributes, lengths); read back by an independent MicroXML reader, by expat, and by the MicroXML & XML parsers under test. Distinct by tree; non-trivial: it has attributes or text.')
    quick = {'doc': 9000, 'chars': len(CHARS), 'deep': 20, 'large': 250}
    boost = 3
    thorough = {'doc': 350000, 'chars': len(CHARS), 'deep': 500, 'large': 8000}
    required = {'max_output': 50000, 'serializations': 9000, 'read_by_xml': 4000, 'indented': 2000, 'characters_to_escape': 5000, 'assembled': 1000}
    assumptions = ['Trees with names which XML 1.0 (4th edition, expat) forbids are only read back as MicroXML; no carriage returns (not a MicroXML character)']

    def worker_setup(self):
        from amara3.uxml import tree, xml
        self.tree, self.xml = tree, xml

    def judge(self, top, e, rng, xml, what):
        t = self.tree
        want = merge(e)
        indent = None
        r = rng.random()
        detail = dict(case=what, tree=repr(want)[:2000])
        if r < 0.45:
            text = top.xml_encode()
        elif r < 0.65:
            fp = io.StringIO()
            top.xml_write(fp)
            text = fp.getvalue()
            if rng.random() < 0.3:
                fp2 = io.StringIO()
                top.xml_write(fp=fp2)
                if fp2.getvalue() != text: raise Violation('xml_write() differs the second time', **detail)
        else:
            indent = rng.choice([' ', '  ', '\t', '    '])
            text = top.xml_encode(indent=indent)
            self.stats.count('indented')
        detail.update(output=text[:3000], indent=indent)
        self.stats.count('serializations')
        self.stats.count('characters_to_escape', sum(c in '<>&"\'' for x in e.walk() for s in [v for _, v in x.attrs] + [c for c in x.children if isinstance(c, str)] for c in s))
        verdict, events = refuxml.read(text)
        if verdict != 'accept':
            raise Violation('serialization is not well formed MicroXML', **detail)
        d = model_diff(merge(from_events(events)), want, indent)
        if d: raise Violation('serialization says otherwise: ' + d, **detail)
        back = t.parse(text)
        d = model_diff(self.model(back), want, indent)
        if d: raise Violation('read back as MicroXML: ' + d, **detail)
        if indent is None and [c for x in e.walk() for c in x.children if isinstance(c, str) and not c] == [] and what == 'parsed':
            d = tree_diff(back, e, t)
            if d: raise Violation('read back as MicroXML: ' + d, **detail)
        if xml:
            self.stats.count('read_by_xml')
            try:
                m = expat_model(text)
            except Exception as ex:
                raise Violation('serialization is not well formed XML: %r' % ex, **detail)
            d = model_diff(m, want, indent)
            if d: raise Violation('read back by expat: ' + d, **detail)
            d = model_diff(self.model(self.xml.treebuilder().parse(text)), want, indent)
            if d: raise Violation('read back as XML: ' + d, **detail)

    def model(self, top):
        from vlib.amara import model_of
        return merge(model_of(top, self.tree))

    def run_case(self, kind, index, rng):
        t = self.tree
        if kind == 'doc':
            xml = rng.random() < 0.7
            e = gen.gen_doc(rng, max_elems=rng.choice([1, 5, 20]), exotic=rng.choice([0.1, 0.6]), xml=xml, attr_p=0.6)
            self.stats.case(repr(e), any(x.attrs or x.children for x in e.walk()))
            how = rng.choice(['built', 'parsed', 'changed', 'built', 'assembled'])
            if how == 'assembled':
                # The Pythonic way: straight into xml_children, so text nodes have no parent, or had another one
                e = with_texts(rng, e, gen.gen_text)
                def assemble(m, parent):
                    el = t.element(m.name, dict(m.attrs), parent=parent)
                    for c in m.children:
                        if isinstance(c, E): el.xml_children.append(assemble(c, rng.choice([None, el])))
                        else: el.xml_children.append(t.text(c, rng.choice([None, el, other])))
                    return el
                other = t.element('other')
                top = assemble(e, None)
                self.stats.count('assembled')
            elif how == 'built':
                e = with_texts(rng, e, gen.gen_text)
                top = build(e, t)
            elif how == 'parsed':
                top = t.parse(gen.render(rng, e))
            else:
                top = t.parse(gen.render(rng, e))
                for _ in range(3):
                    el, m = top, e
                    while rng.random() < 0.6:
                        pairs = [(k, c) for k, c in zip(el.xml_children, m.children) if isinstance(c, E)]
                        if not pairs: break
                        el, m = rng.choice(pairs)
                    s = gen.gen_text(rng)
                    x = rng.random()
                    if x < 0.4:
                        i = rng.randint(0, len(m.children))
                        el.xml_insert(s, i); m.children.insert(i, s)
                    elif x < 0.7:
                        el.xml_attributes['new'] = s
                        d = dict(m.attrs); d['new'] = s; m.attrs = list(d.items())
                    elif m.children:
                        i = rng.randrange(len(m.children))
                        el.xml_remove(el.xml_children[i]); m.children.pop(i)
            # Now & then an inner element, in its own right
            m = e
            if rng.random() < 0.2:
                pairs = [(k, c) for k, c in zip(top.xml_children, e.children) if isinstance(c, E)]
                if pairs:
                    inner, m = rng.choice(pairs)
                    self.judge(inner, m, rng, xml, 'inner')
                    return
            self.judge(top, e, rng, xml, how)
            self.stats.sample(repr(e)[:200], 2)
        elif kind == 'chars':
            lo, hi = CHARS[index]
            s = ''.join(map(chr, range(lo, hi + 1)))
            self.stats.count('code_points', hi - lo + 1)
            e = E('a', [('b', s), ('c', s[::-1])], [s, E('d', [], [s])])
            self.judge(build(e, t), e, rng, True, 'chars')
            self.stats.case(s)
        elif kind == 'large':
            e = gen.gen_large(rng, xml=True, text=60000)
            top = build(e, t) if rng.random() < 0.5 else t.parse(gen.render(rng, e))
            self.stats.case(repr(e)[:100000], True)
            self.judge(top, e, rng, True, 'large')
            self.stats.maximum('output', len(top.xml_encode()))
        else:
            n = rng.randint(50, 200)
            e = gen.chain([rng.choice('abc') for _ in range(n)], '<&')
            self.judge(build(e, t), e, rng, True, 'deep')
            self.stats.case(repr(e)[:1000])
