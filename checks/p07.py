"""P07: writers emit equivalent well-formed markup, namespaces included"""
import io
import xml.parsers.expat
from vlib.common import BaseCheck, Violation
from vlib import gen, refuxml, xmlgen
from vlib.gen import E
from vlib.amara import build
from checks.p06 import merge, from_events, model_diff, expat_model, with_texts

XML_PREFIX = ['a', 'b', 'ns', 'x1', 'long-prefix', '_p', '\u00e9', 'p.q', 'A', 'SVG', 'xLink', 'Ns-1', '\u0394']
XMLNS = 'http://www.w3.org/XML/1998/namespace'
NSES = ['http://example.com', 'http://example.com/a&b', 'urn:x', 'urn:"quoted"', "urn:'single'", 'urn:<>', 'tag:caf\u00e9', 'urn:y y', 'urn:tab\there', 'http://example.com/x//', 'http://example.com/x#', 'urn:&amp;', 'URN:X', 'http://example.com/%20', 'a', '#', 'urn:x ']


def ns_read(text):
    """(model with (ns, local) names, declarations [(prefix, ns, elements seen so far)])"""
    events, decls = [], []
    seen = [0]
    p = xml.parsers.expat.ParserCreate(namespace_separator='\x01')
    p.buffer_text = True
    p.ordered_attributes = True
    def split(n):
        return tuple(n.split('\x01')) if '\x01' in n else (None, n)
    def start(n, a):
        seen[0] += 1
        events.append(('s', split(n), [(split(k), v) for k, v in zip(a[::2], a[1::2])]))
    p.StartElementHandler = start
    p.EndElementHandler = lambda n: events.append(('e', n))
    p.CharacterDataHandler = lambda s: events.append(('c', s))
    p.StartNamespaceDeclHandler = lambda pre, ns: decls.append((pre, ns, seen[0]))
    p.Parse(text, True)
    return merge(from_events(events)), decls


def qualified(e, prefixes, mapping):
    """The model with the namespaces it is to have"""
    def ns(name, attr=False):
        prefix = mapping.get('@' + name if attr else name, ('', ''))[1]
        if prefix: return (XMLNS if prefix == 'xml' else prefixes[prefix], name)
        if attr: return (None, name)
        return (prefixes.get('', prefixes.get(None)) or None, name)
    return E(ns(e.name), [(ns(k, True), v) for k, v in e.attrs], [qualified(c, prefixes, mapping) if isinstance(c, E) else c for c in e.children])


def attr_order_free(e):
    return E(e.name, sorted(e.attrs, key=repr), [attr_order_free(c) if isinstance(c, E) else c for c in e.children])


class Check(BaseCheck):
    id = 'P07'
    technique = 'round-trip monitor through a namespace-aware parser'
    level_note = 'Written markup is read back with expat & an own namespace resolver and compared with the call sequence; sampled.'
    rule = ('Random trees & sequences of balanced calls (attributes, texts in pieces, empty elements) through writer.raw with & without indent, and writer.namespacer with random prefixes (default '
            'included) & mappings; by calls, writer.write(), several subtrees, or a streaming sender, or to a handler of pieces, each of which has to come under the right heading; up to 60 prefixes, 1500 children, long texts; also XML in namespace normal form through ns_expat_callbacks & back, and the prefixes these have in scope at each event when streaming. The output is read '
            'by expat, without & with namespace processing, & an independent MicroXML reader. Distinct by output; non-trivial: it has attributes or text.')
    quick = {'raw': 9000, 'calls': 14000, 'ns': 18000, 'stream': 3000, 'nsnf': 5000, 'scopes': 2500, 'large': 400}
    boost = 3
    thorough = {'raw': 150000, 'calls': 150000, 'ns': 200000, 'stream': 40000, 'nsnf': 60000, 'scopes': 60000, 'large': 10000}
    required = {'prefix_xml': 2000, 'inverse': 2000, 'scopes': 8000, 'redeclared': 500, 'max_output': 50000, 'max_prefixes': 25, 'by_pieces': 1500, 'outputs': 10000, 'indented': 1000, 'declarations': 3000, 'prefixed_elements': 2000, 'prefixed_attributes': 1000, 'streamed': 2000, 'empty_elements': 1000}
    assumptions = ['Prefixes in a mapping are declared; names are ones expat accepts']

    def worker_setup(self):
        from amara3.uxml import tree, writer, treeiter, xml
        self.tree, self.writer, self.treeiter, self.xml = tree, writer, treeiter, xml

    large = False

    def doc(self, rng, **kw):
        if self.large:
            kw.pop('max_elems', None)
            return gen.gen_large(rng, xml=True, wide=1500, text=30000, **kw)
        kw.setdefault('max_elems', rng.choice([1, 4, 15]))
        return gen.gen_doc(rng, xml=True, attr_p=0.5, **kw)

    def calls(self, w, e, rng, empties, ns=False):
        """Write the model with calls"""
        attrs = dict(e.attrs)
        if not e.children and empties and rng.random() < 0.6:
            w.start_element(e.name, attribs=attrs, empty=True)
            self.stats.count('empty_elements')
            return
        if not attrs and rng.random() < 0.5: w.start_element(e.name)
        elif rng.random() < 0.5: w.start_element(e.name, attrs)
        else: w.start_element(e.name, attribs=attrs)
        for c in e.children:
            if isinstance(c, E): self.calls(w, c, rng, empties, ns)
            elif len(c) > 1 and rng.random() < 0.3:
                i = rng.randint(0, len(c))
                w.text(c[:i]); w.text(c[i:])
            else: w.text(c)
        w.end_element(e.name)
        if attrs != dict(e.attrs):
            raise Violation('the attributes passed were altered', before=dict(e.attrs), after=attrs)

    def pieces(self, e, W, rng, detail):
        """What a handler of pieces is told: the pieces, joined, are the markup (texts yet unescaped), each under the heading it comes under"""
        C, T = W.context, W.token
        log = []
        class handler:
            def __init__(self, fp): log.append(fp)
            def write(self, ctx, text): log.append((ctx, text))
        fp = io.StringIO()
        w = W.raw(fp, whandler=handler) if rng.random() < 0.5 else W.raw(fp=fp, whandler=handler)
        if rng.random() < 0.5: W.write(build(e, self.tree), w)
        else: self.calls(w, e, rng, False)
        detail = dict(detail, tree=repr(e)[:1500])
        if log[:1] != [fp]: raise Violation('the handler is not given the file', **detail)
        if fp.getvalue(): raise Violation('written past the handler: %r' % fp.getvalue()[:100], **detail)
        text = {T.start_open: '<', T.start_close: '>', T.end_open: '</', T.end_close: '>', T.empty_close: '/>', T.pre_attr: ' ', T.between_attr: ' ', T.attr_equals: '='}
        # By context, in order: all names, all texts, &c.
        want = {C.element_name: [], C.attribute_name: [], C.attribute_text: [], C.text: []}
        def walk(x):
            want[C.element_name].append(x.name)
            for k, v in x.attrs: want[C.attribute_name].append(k); want[C.attribute_text].append(v)
            for c in x.children:
                if isinstance(c, E): walk(c)
                else: want[C.text].append(c)
            want[C.element_name].append(x.name)
        walk(e)
        got = {k: [] for k in want}
        out = []
        for ctx, piece in log[1:]:
            if isinstance(piece, T) != (ctx in (C.start_element, C.end_element)): raise Violation('%r under %r' % (piece, ctx), **detail)
            if ctx in got: got[ctx].append(piece)
            else: piece = text.get(piece)
            if piece is None: raise Violation('a piece of unknown meaning under %r' % (ctx,), **detail)
            out.append(piece if ctx != C.text else piece.replace('&', '&amp;').replace('<', '&lt;').replace('>', '&gt;'))
        if got[C.element_name] != want[C.element_name] or got[C.attribute_name] != want[C.attribute_name]:
            raise Violation('names %r %r rather than %r %r' % (got[C.element_name], got[C.attribute_name], want[C.element_name], want[C.attribute_name]), **detail)
        if ''.join(got[C.text]) != ''.join(want[C.text]): raise Violation('texts %r rather than %r' % (got[C.text], want[C.text]), **detail)
        if len(got[C.attribute_text]) != len(want[C.attribute_text]): raise Violation('%d attribute values rather than %d' % (len(got[C.attribute_text]), len(want[C.attribute_text])), **detail)
        self.stats.count('by_pieces')
        self.judge(''.join(out), e, None, dict(detail, by='pieces'))

    def judge(self, text, e, indent, detail, uxml=True):
        want = merge(e)
        self.stats.count('outputs')
        self.stats.maximum('output', len(text))
        self.stats.case(text, any(x.attrs or x.children for x in want.walk()))
        detail = dict(detail, output=text[:3000], indent=indent, tree=repr(want)[:2000])
        try:
            m = expat_model(text)
        except Exception as ex:
            raise Violation('output is not well formed: %r' % ex, **detail)
        d = model_diff(m, want, indent)
        if d: raise Violation('output says otherwise: ' + d, **detail)
        if uxml:
            verdict, events = refuxml.read(text)
            if verdict != 'accept': raise Violation('output is not well formed MicroXML', **detail)
            d = model_diff(merge(from_events(events)), want, indent)
            if d: raise Violation('output says otherwise as MicroXML: ' + d, **detail)

    def judge_ns(self, text, e, prefixes, mapping, detail):
        want = attr_order_free(merge(qualified(e, prefixes, mapping)))
        self.stats.count('outputs')
        self.stats.maximum('output', len(text))
        self.stats.case(text, any(x.attrs or x.children for x in want.walk()))
        detail = dict(detail, output=text[:3000], prefixes=prefixes, mapping=mapping, tree=repr(e)[:1500])
        try:
            m, decls = ns_read(text)
        except Exception as ex:
            raise Violation('output is not well formed or has undeclared prefixes: %r' % ex, **detail)
        m = attr_order_free(m)
        d = model_diff(m, want)
        if d: raise Violation('output says otherwise: ' + d, **detail)
        got = sorted((p or '', u or '') for p, u, _ in decls)
        expected = sorted((p or '', u or '') for p, u in prefixes.items())
        if got != expected or any(n for _, _, n in decls):
            raise Violation('declarations %r rather than %r on the first element' % (decls, expected), **detail)
        # Unprefixed & prefixed just as told, which a namespace aware parser cannot tell of prefixes sharing a namespace
        raw = expat_model(text)
        for x, y in zip(raw.walk(), merge(e).walk()):
            def q(n, attr=False):
                pre = mapping.get('@' + n if attr else n, ('', ''))[1]
                return pre + ':' + n if pre else n
            names = [k for k, _ in x.attrs if k != 'xmlns' and not k.startswith('xmlns:')]
            if x.name != q(y.name) or names != [q(k, True) for k, _ in y.attrs]:
                raise Violation('tag %r %r rather than %r %r' % (x.name, names, q(y.name), [q(k, True) for k, _ in y.attrs]), **detail)
            self.stats.count('prefixed_elements', ':' in x.name)
            self.stats.count('prefixed_attributes', sum(':' in k for k in names))
        self.stats.count('declarations', len(decls))

    def run_case(self, kind, index, rng):
        if kind == 'scopes': return self.scopes(rng)
        if kind == 'large':
            self.large = True
            return self.run_case(rng.choice(['raw', 'calls', 'ns', 'ns', 'stream', 'nsnf']), index, rng)
        try: self.run_kind(kind, index, rng)
        finally: self.large = False

    def prefixes(self, rng, most):
        if not self.large: return rng.sample(XML_PREFIX, rng.randint(0, most))
        n = gen.log_int(rng, 4, 60)
        self.stats.maximum('prefixes', n)
        return XML_PREFIX[:3] + ['p%d' % i for i in range(n)]

    def xml_prefix(self, rng, names, anames, mapping):
        """xml:lang & the like; that prefix needs no declaration"""
        for _ in range(rng.choice([1, 1, 2])):
            if rng.random() < 0.8: mapping['@' + rng.choice(anames)] = (XMLNS, 'xml')
            else: mapping[rng.choice(names)] = (XMLNS, 'xml')
        self.stats.count('prefix_xml')

    def run_kind(self, kind, index, rng):
        t, W = self.tree, self.writer
        fp = io.StringIO()
        indent = rng.choice([None, None, ' ', '  ', '\t'])
        if indent: self.stats.count('indented')
        if kind == 'raw':
            e = with_texts(rng, self.doc(rng), gen.gen_text)
            if rng.random() < 0.3: return self.pieces(e, W, rng, {})
            top = build(e, t)
            n = rng.choice([1, 1, 3])
            if n == 1:
                W.write(top, W.raw(fp, indent=indent))
                self.judge(fp.getvalue(), e, indent, {'by': 'write'})
            else:
                w = W.raw(fp, indent=indent)
                w.start_element('wrap')
                for _ in range(n): W.write(top, w)
                w.end_element('wrap')
                self.judge(fp.getvalue(), E('wrap', [], [e] * n), indent, {'by': 'write, %d times' % n})
        elif kind == 'calls':
            e = self.doc(rng)
            empties = rng.random() < 0.5
            w = W.raw(fp, indent=indent) if rng.random() < 0.5 else W.raw(fp=fp, indent=indent)
            self.calls(w, e, rng, empties)
            self.judge(fp.getvalue(), e, indent, {'by': 'calls'}, uxml=not empties)
        elif kind == 'ns':
            names = [gen.gen_name(rng, xml=True) for _ in range(rng.randint(1, 5) if not self.large else gen.log_int(rng, 1, 100))]
            anames = [gen.gen_name(rng, xml=True) for _ in range(rng.randint(1, 4))] + names[:1]
            e = self.doc(rng, names=names, attr_names=anames)
            pre = self.prefixes(rng, 4)
            prefixes = {p: rng.choice(NSES) for p in pre}
            if rng.random() < 0.5: prefixes[''] = rng.choice(NSES)
            items = list(prefixes.items()); rng.shuffle(items); prefixes = dict(items)
            mapping = {}
            for n in names:
                if pre and rng.random() < 0.5:
                    p = rng.choice(pre); mapping[n] = (prefixes[p], p)
                elif rng.random() < 0.2: mapping[n] = ('', '')
            for n in anames:
                if pre and rng.random() < 0.4:
                    p = rng.choice(pre); mapping['@' + n] = (prefixes[p], p)
            if rng.random() < 0.15: self.xml_prefix(rng, names, anames, mapping)
            before = (dict(prefixes), dict(mapping))
            kw = {}
            if prefixes or rng.random() < 0.5: kw['prefixes'] = prefixes
            if mapping or rng.random() < 0.5: kw['mapping'] = mapping
            w = W.namespacer(fp, **kw)
            r = rng.random()
            if r < 0.4:
                self.calls(w, e, rng, False)
            elif r < 0.8:
                W.write(build(e, t), w)
            else:
                z = [('z', 'y')] if rng.random() < 0.5 else []
                w.start_element('wrap', attribs=dict(z))
                top = build(e, t)
                W.write(top, w); W.write(top, w)
                w.end_element('wrap')
                e = E('wrap', z, [e, e])
            if (prefixes, mapping) != before: raise Violation('prefixes or mapping passed were altered')
            self.judge_ns(fp.getvalue(), e, prefixes, mapping, {'by': 'namespacer'})
        elif kind == 'stream':
            kids = [self.doc(rng, max_elems=3) for _ in range(rng.randint(1, 6))] + [E('item', [], ['%d' % i]) for i in range(gen.log_int(rng, 1, 2000) if self.large else 0)]
            for k in kids: k.name = 'item'
            doc = E('doc', [], [E('group', [], kids)])
            ns = rng.random() < 0.5
            prefixes = {'': 'urn:d', 'p': 'urn:p'} if ns else {}
            mapping = {'item': ('urn:p', 'p')} if ns else {}
            if ns and any(x.name in ('xmlns',) for x in doc.walk()): return
            w = W.namespacer(fp, prefixes=prefixes, mapping=mapping) if ns else W.raw(fp, indent=indent)
            w.start_element('out')
            def sink():
                while True:
                    W.write((yield), w)
                    self.stats.count('streamed')
            s = self.treeiter.sender(('doc', 'group', 'item'), sink())
            s.parse(gen.render(rng, doc))
            w.end_element('out')
            e = E('out', [], kids)
            if ns: self.judge_ns(fp.getvalue(), e, prefixes, mapping, {'by': 'stream'})
            else: self.judge(fp.getvalue(), e, indent, {'by': 'stream'})
        else:
            # Namespace normal form, through ns_expat_callbacks
            pre = self.prefixes(rng, 3)
            nses = rng.sample(NSES[:7] + (xmlgen.ODD_NSES + ['\ty', 'x\ny'] if rng.random() < 0.15 else []) + ['urn:n%d' % i for i in range(70 if self.large else 0)], len(pre) + 1)
            prefixes = dict(zip(pre, nses))
            if rng.random() < 0.5: prefixes[''] = nses[-1]
            names = sorted({gen.gen_name(rng, xml=True) for _ in range(5 if not self.large else gen.log_int(rng, 5, 100))})
            mapping = {}
            for n in names:
                if pre and rng.random() < 0.5: p = rng.choice(pre); mapping[n] = (prefixes[p], p)
                if pre and rng.random() < 0.4: p = rng.choice(pre); mapping['@' + n] = (prefixes[p], p)
            if rng.random() < 0.2: self.xml_prefix(rng, names, names, mapping)
            e = self.doc(rng, names=names, attr_names=names)
            def q(n, attr=False):
                p = mapping.get('@' + n if attr else n, ('', ''))[1]
                return p + ':' + n if p else n
            def rename(x, top=False):
                decl = [('xmlns:' + p if p else 'xmlns', u) for p, u in prefixes.items()] if top else []
                return E(q(x.name), decl + [(q(k, True), v) for k, v in x.attrs], [rename(c) if isinstance(c, E) else c for c in x.children])
            source = gen.render_xml(rng, rename(e, True))
            events = []
            top_model, cb = self.ns_parse(source)
            d = model_diff(merge(top_model), merge(e))
            if d: raise Violation('ns_expat_callbacks: ' + d, source=source[:2000])
            got = {p or '': u for p, u in cb.prefixes.items()}
            if got != prefixes:
                raise Violation('ns_expat_callbacks gathers prefixes %r rather than %r' % (got, prefixes), source=source[:2000])
            W.write(build(e, t), W.namespacer(fp, prefixes=cb.prefixes, mapping=cb.ns_portfolio))
            self.judge_ns(fp.getvalue(), e, prefixes, mapping, {'by': 'ns_expat_callbacks', 'source': source[:2000]})
            self.stats.sample(source[:200], 1)

    def scopes(self, rng):
        """In streaming mode ns_expat_callbacks knows the prefixes in scope, at each event"""
        source = xmlgen.make(rng, rng.choice([2, 8, 20])).source
        one_to_one = rng.random() < 0.3
        if one_to_one:
            # One prefix for each namespace & the other way around, wherever declared: so there's no doubt about the prefix for a namespace
            e = gen.gen_doc(rng, max_elems=rng.choice([3, 10, 30]), max_depth=8, names=['a', 'b', 'c'], xml=True)
            pairs = dict(zip(rng.sample(['', 'p', 'q', 'r', 'S'], 4), rng.sample(NSES[:7] + (xmlgen.ODD_NSES if rng.random() < 0.2 else []), 4)))
            def declare_few(x, free):
                mine = [p for p in free if rng.random() < 0.3]
                rest = [p for p in free if p not in mine]
                return E(x.name, [('xmlns' + (':' + p if p else ''), pairs[p]) for p in mine], [declare_few(c, rest) if isinstance(c, E) else c for c in x.children])
            source = gen.render_xml(rng, declare_few(e, list(pairs)))
        elif rng.random() < 0.4:
            # Densely declared, over & over
            e = gen.gen_doc(rng, max_elems=rng.choice([3, 10, 30]), max_depth=8, names=['a', 'b', 'c'], xml=True)
            def declare(x):
                decl = [('xmlns' + (':' + p if p else ''), rng.choice(NSES[:4])) for p in rng.sample(['', 'p', 'q', 'r'], rng.choice([0, 0, 1, 1, 2, 4]))]
                return E(x.name, decl, [declare(c) if isinstance(c, E) else c for c in x.children])
            source = gen.render_xml(rng, declare(e))
        want, stack = [], [{}]
        p = xml.parsers.expat.ParserCreate()
        def start(n, a):
            scope = dict(stack[-1])
            for k, v in a.items():
                if k == 'xmlns' or k.startswith('xmlns:'):
                    k = k[6:]
                    self.stats.count('redeclared', k in scope)
                    if v: scope[k] = v
                    else: scope.pop(k, None)
            stack.append(scope)
            want.append(('s', n.split(':')[-1], scope))
        def end(n):
            want.append(('e', n.split(':')[-1], stack.pop()))
        p.StartElementHandler, p.EndElementHandler = start, end
        p.Parse(source, True)
        got, wrong = [], []
        def now(): return {k or '': v for k, v in h.prefixes.items() if v}
        def sink():
            while True:
                ev = yield
                k = ev[0].name
                if k != 'characters': got.append((k[0], ev[1], now()))
                if k != 'characters' and one_to_one:
                    back = {v: p or '' for v, p in h.prefixes_rev.items()}
                    if back != {v: k for k, v in now().items()}: wrong.append((back, now()))
                    self.stats.count('inverse', len(back))
        h = self.xml.ns_expat_callbacks(sink(), stream=True)
        try: self.drive(h, source)
        except Exception as ex: raise Violation('ns_expat_callbacks(..., stream=True) failed: %r' % ex, source=source[:3000])
        for i, (g, w) in enumerate(zip(got, want)):
            if g != w: raise Violation('ns_expat_callbacks(..., stream=True), element event %d: %r rather than %r' % (i, g, w), source=source[:3000])
        if len(got) != len(want): raise Violation('%d events rather than %d' % (len(got), len(want)), source=source[:3000])
        if wrong: raise Violation('ns_expat_callbacks(..., stream=True): by namespace, prefixes %r while in scope there are %r' % wrong[0], source=source[:3000])
        if now(): raise Violation('prefixes %r are left at the end' % now(), source=source[:3000])
        self.stats.count('scopes', len(got))
        self.stats.case(source, len(got) > 2)

    def ns_parse(self, source):
        events = []
        def sink():
            while True:
                ev = yield
                k = ev[0].name
                events.append(('s', ev[1], list(ev[2].items())) if k == 'start_element' else ('c', ev[1]) if k == 'characters' else ('e', ev[1]))
        h = self.xml.ns_expat_callbacks(sink())
        self.drive(h, source)
        return from_events(events), h

    def drive(self, h, source):
        # Expat refuses a namespace with the separator in it
        declared = []
        p = xml.parsers.expat.ParserCreate(namespace_separator='\x01')
        p.StartNamespaceDeclHandler = lambda prefix, ns: declared.append(ns or '')
        p.Parse(source, True)
        spaced = any(' ' in ns for ns in declared)
        p = xml.parsers.expat.ParserCreate(namespace_separator='\x0c' if spaced else ' ')
        self.stats.count('spaced_namespace', spaced)
        p.buffer_text = True
        p.StartElementHandler = h.start_element
        p.EndElementHandler = h.end_element
        p.CharacterDataHandler = h.char_data
        p.StartNamespaceDeclHandler = h.start_namespace
        p.EndNamespaceDeclHandler = h.end_namespace
        p.Parse(source, True)
