"""P08: XML 1.0 is reduced to MicroXML without losing content"""
import xml.parsers.expat
from vlib.common import BaseCheck, Violation
from vlib import gen, xmlgen
from vlib.gen import E
from vlib.amara import tree_diff, conv_event, model_of
from checks.p06 import merge, from_events, model_diff


class Skip(Exception):
    pass


def reference(source):
    """By way of expat alone: model by local name, or None if not well formed"""
    events = []
    p = xml.parsers.expat.ParserCreate(namespace_separator='\x01')
    p.ordered_attributes = True
    def local(n):
        if '\x01' in n:
            ns, n = n.split('\x01')[:2]
        return n
    def start(n, a):
        attrs = [(local(k), v) for k, v in zip(a[::2], a[1::2])]
        if len(dict(attrs)) != len(attrs): raise Skip     # By local name these are one
        events.append(('s', local(n), attrs))
    p.StartElementHandler = start
    p.EndElementHandler = lambda n: events.append(('e', local(n)))
    p.CharacterDataHandler = lambda s: events.append(('c', s))
    try:
        p.Parse(source, True)
    except xml.parsers.expat.ExpatError:
        return None
    return merge(from_events(events))


class Check(BaseCheck):
    id = 'P08'
    technique = 'monitor on trees from generated XML 1.0 with known content'
    level_note = "Generator with ground truth for entities, CDATA, encodings, namespaces; expat's verdict on corruptions; sampled."
    rule = ('Generated XML 1.0 documents (namespaces, declared & redeclared prefixes, PIs, comments, doctype with entities, defaults & tokenized attributes, CDATA, references, line ends; as str or bytes in 10 '
            'encodings), whose MicroXML reduction is known by construction, through xml.treebuilder, reused, and xml.parse; and edits, truncations & byte corruptions of them, where expat used directly tells the '
            'verdict & the content; some large in one or the other respect. Distinct by source; non-trivial: some feature XML has and MicroXML lacks, or a corruption.')
    quick = {'doc': 9000, 'runs': 600, 'broken': 9000, 'large': 250}
    boost = 6
    thorough = {'doc': 300000, 'runs': 15000, 'broken': 350000, 'large': 8000}
    required = {'max_source': 100000, 'documents': 5000, 'broken_rejected': 3000, 'broken_accepted': 300, 'feature_cdata': 300, 'feature_entity': 300, 'feature_prefixed element': 500, 'feature_prefixed attribute': 300,
                'feature_attribute default': 200, 'feature_comment': 300, 'feature_pi': 300, 'runs_beyond': 100}
    assumptions = ['expat itself is right (its own errors are not this code\'s)', 'Attributes of an element with the same local name in different namespaces are left out',
                   'xml.parse() is only given whole documents']

    def worker_setup(self):
        from amara3.uxml import tree, xml
        self.tree, self.xml = tree, xml
        self.builder = xml.treebuilder()
        self.last = None

    def judge(self, source, model, exact, rng, attr_order, detail):
        if rng.random() < 0.7:
            reuse = rng.random() < 0.6
            b = self.builder if reuse else self.xml.treebuilder()
            top = b.parse(source)
            if top is None: raise Violation('no tree', **detail)
            d = tree_diff(top, model, self.tree, exact_text=exact, attr_order=attr_order)
            if d: raise Violation(d, **detail)
            if reuse:
                # The one before, from the same builder, is still what it was
                if self.last is not None:
                    d = tree_diff(self.last[0], self.last[1], self.tree, exact_text=False, attr_order=False)
                    if d: raise Violation('tree altered by a later parse with the same builder: ' + d, **detail)
                self.last = (top, model)
            self.stats.count('by_treebuilder')
        else:
            got = []
            def sink():
                while True:
                    got.append(conv_event((yield)))
            self.xml.parse(source, sink())
            want = gen.events_of(model)
            if not exact:
                m = []
                for ev in got:
                    if ev[0] == 'c' and m and m[-1][0] == 'c': m[-1] = ('c', m[-1][1] + ev[1])
                    else: m.append(ev)
                got = m
            if not attr_order:
                srt = lambda evs: [(ev[0], ev[1], sorted(ev[2]), ev[3]) if ev[0] == 's' else ev for ev in evs]
                got, want = srt(got), srt(want)
            if got != want:
                i = next((i for i, (g, w) in enumerate(zip(got, want)) if g != w), min(len(got), len(want)))
                raise Violation('xml.parse() events differ', got=got[i:i+3], expected=want[i:i+3], **detail)
            self.stats.count('by_parse')

    def run_case(self, kind, index, rng):
        if kind == 'doc':
            doc = xmlgen.make(rng, rng.choice([2, 8, 25]))
            detail = dict(source=doc.source[:3000], encoding=doc.encoding)
            self.stats.case(doc.source, bool(doc.features))
            self.stats.count('documents')
            for f in doc.features: self.stats.count('feature_' + f)
            self.stats.count('encoding_' + doc.encoding)
            ref = reference(doc.source)
            if ref is None or model_diff(attr_sorted(ref), attr_sorted(merge(doc.model))):
                # What was generated is not what it was meant to be: nothing the code under test is to blame for
                self.stats.count('generator_doubts')
                self.stats.sample(['doubt', repr(doc.source)[:300]])
                return
            self.judge(doc.source, doc.model, not doc.misc_inside, rng, 'attribute default' not in doc.features, detail)
            self.stats.sample(doc.source[:250], 2)
        elif kind == 'large':
            if rng.random() < 0.4:
                doc = xmlgen.make(rng, gen.log_int(rng, 100, 2000))
                src, e, exact = doc.source, doc.model, not doc.misc_inside
                order = 'attribute default' not in doc.features
                # Runs past the buffer of expat's come in pieces
                exact = exact and all(len(c.encode('utf-8')) < 8000 for x in e.walk() for c in x.children if isinstance(c, str))
            else:
                exact = rng.random() < 0.6
                e = gen.gen_large(rng, xml=True, text=2600 if exact else 60000, value=60000)
                e = merge(e)
                exact = exact and all(len(c.encode('utf-8')) < 8000 for x in e.walk() for c in x.children if isinstance(c, str))
                order = True
                src = gen.render_xml(rng, e)
                if rng.random() < 0.4:
                    at = src.index('<' + e.name) + 1 + len(e.name)
                    src = src[:at] + ' xmlns="%s"' % rng.choice(['urn:x', 'http://example.com/a/b#', 'x']) + src[at:]
                    self.stats.count('large_in_namespace')
                if rng.random() < 0.5: src = src.encode('utf-8')
            self.stats.case(src)
            self.stats.maximum('source', len(src))
            self.judge(src, e, exact, rng, order, dict(source=src[:3000]))
        elif kind == 'runs':
            # A single long text, of references, CDATA, line ends
            n = rng.choice([3000, 7900, 8000])
            alphabet = rng.choice(['a&', 'a\n', 'a\n&<b', '\u4e2d&\n', '\n', '&'])
            t = ''
            t = ''.join(rng.choice(alphabet) for _ in range(n))
            while len(t.encode('utf-8')) > 8000: t = t[:len(t) * 3 // 4]
            # Beyond the bound it may be any number of text nodes, still with nothing lost, even if these are alike
            beyond = rng.random() < 0.15
            if beyond: t = rng.choice([' ', '\n', 'a', '&', 'x ', '\u4e2d', t[:16], t[:512]]) * rng.choice([9000, 20000, 70000])
            if beyond: t = t[:70000]
            self.stats.count('runs_beyond', beyond)
            m = xmlgen.Maker(rng)
            s = m.spell_text(t)
            e = E('a', [], [E('b', [], [t]), E('c', [], [t[:100]])])
            t2 = m.spell_text(t[:100])
            src = '<a><b>%s</b><c>%s</c></a>' % (s, t2)
            if rng.random() < 0.4: src = src.encode('utf-8')
            self.stats.case(src)
            self.stats.maximum('run_bytes', len(t.encode('utf-8')))
            self.judge(src, e, not beyond, rng, True, dict(source=src[:3000]))
        else:
            doc = xmlgen.make(rng, rng.choice([1, 4]))
            src = doc.source
            n = rng.choice([1, 1, 2])
            for _ in range(n):
                at = rng.randint(0, len(src))
                r = rng.random()
                ins = rng.choice(['<', '>', '&', '"', "'", '</', '<!--', ']]>', '\x00', '\x01', '\ufffe', 'a', ' ', ':', 'p:', 'xmlns="" ', '&e0;', '&nosuch;', '&#0;', '&#xD800;', '/>', '<a>', '</a>', 'x="1" x="2"', '\udc80' if isinstance(src, bytes) else '\u00e9'])
                if isinstance(src, bytes):
                    ins = ins.encode('utf-8', 'surrogateescape') if rng.random() < 0.7 else bytes([rng.randrange(256)])
                if r < 0.35: src = src[:at]
                elif r < 0.6: src = src[:at] + ins + src[at:]
                elif r < 0.85: src = src[:at] + src[at + rng.randint(1, 3):]
                else: src = src + (ins if rng.random() < 0.5 else src[-rng.randint(1, 8):])
            try:
                ref = reference(src)
            except Skip:
                self.stats.count('left_out')
                return
            except (ValueError, LookupError):
                return
            detail = dict(source=src[:3000], encoding=doc.encoding)
            self.stats.case(src)
            if ref is None:
                reuse = rng.random() < 0.6
                b = self.builder if reuse else self.xml.treebuilder()
                try:
                    top = b.parse(src)
                except Exception as ex:
                    self.stats.count('broken_rejected')
                    self.stats.see('errors', str(ex).split(':')[0])
                else:
                    raise Violation('xml.treebuilder returns %r for a document not well formed' % top, **detail)
            else:
                self.stats.count('broken_accepted')
                self.judge(src, ref, False, rng, False, detail)


def attr_sorted(e):
    return E(e.name, sorted(e.attrs), [attr_sorted(c) if isinstance(c, E) else c for c in e.children])
