"""P18: HTML5 parsing gives the tree html5lib specifies"""
import io
from vlib.common import BaseCheck, Violation
from vlib import gen, htmlgen
from vlib.gen import E
from checks.p06 import merge, model_diff


def compare(el, e, tree, path='', parent=None):
    """None or how the html5 tree differs from the model: attributes in any order, text merged"""
    path += '/' + e.name
    if not isinstance(el, tree.element): return '%s: %r is not an element' % (path, el)
    if el.xml_name != e.name: return '%s: name %r rather than %r' % (path, el.xml_name, e.name)
    if el.xml_parent is not parent: return '%s: xml_parent is %r rather than %r' % (path, el.xml_parent, parent)
    # Namespace declarations don't count (the local name of that of xlink being xlink)
    got = {k: v for k, v in el.xml_attributes.items() if not k.startswith('xmlns') and (k != 'xlink' or 'xlink' in dict(e.attrs))}
    if got != dict(e.attrs): return '%s: attributes %r rather than %r' % (path, got, dict(e.attrs))
    kids = []
    for k in el.xml_children:
        if k.xml_parent is not el: return '%s: xml_parent of child %r is %r' % (path, k, k.xml_parent)
        if isinstance(k, tree.element): kids.append(k)
        else:
            if kids and isinstance(kids[-1], str): kids[-1] += k.xml_value
            elif k.xml_value: kids.append(k.xml_value)
    if len(kids) != len(e.children) or any(isinstance(k, str) != isinstance(c, str) for k, c in zip(kids, e.children)):
        return '%s: children %r rather than %r' % (path, [k if isinstance(k, str) else '<%s>' % k.xml_name for k in kids], [c if isinstance(c, str) else '<%s>' % c.name for c in e.children])
    for k, c in zip(kids, e.children):
        if isinstance(c, E):
            d = compare(k, c, tree, path, el)
            if d: return d
        elif k != c:
            return '%s: text %r rather than %r' % (path, k, c)
    if el.xml_value != gen.value(e): return '%s: xml_value %r rather than %r' % (path, el.xml_value, gen.value(e))
    return None


class Check(BaseCheck):
    id = 'P18'
    technique = "differential monitor vs. html5lib's own tree builders"
    level_note = 'html5lib DOM builder as the reference on tag soup; one known finding; sampled.'
    rule = ('Tag soup, some of it large, over most HTML, SVG & MathML elements (misnested formatting, tables, forms, selects, frames, foreign content, comments, entities, control characters) and sensible HTML, as str, bytes in several '
            'encodings or file; the tree is compared with that of html5lib\'s own DOM (else ElementTree) builder. XML-like markup through parse_lax_xml. Earlier trees are compared again after later parses. '
            'Distinct by source; non-trivial: more than html, head & body.')
    quick = {'soup': 20000, 'html': 1500, 'lax': 3000, 'large': 120, 'given': 1500}
    boost = 3
    thorough = {'soup': 250000, 'html': 20000, 'lax': 50000, 'large': 3000, 'given': 25000}
    required = {'max_source': 15000, 'trees': 4000, 'elements': 40000, 'lax_trees': 500, 'lax_nothing': 20, 'with_comments': 500, 'parsed_again': 500, 'encoding_given': 300, 'encoding_matters': 100, 'fragments': 200, 'bytes': 500, 'distinct_names': 60}
    assumptions = ['html5lib itself is right', 'Comments may leave empty text nodes; namespace declarations (xmlns...) are dropped']

    def worker_setup(self):
        from amara3.uxml import html5, tree
        self.html5, self.tree = html5, tree
        self.earlier = []

    def known_noahs_ark_xmlns(self):
        self.worker_setup()
        src = '<p><b xmlns:x="1"><b><b><b></p>x'
        return compare(self.html5.parse(src), htmlgen.reference(src), self.tree) is not None

    def large(self, rng):
        some = lambda: htmlgen.soup(rng) if rng.random() < 0.5 else htmlgen.nested(rng)
        how = rng.choice(['many', 'same', 'deep', 'attributes', 'text', 'comments', 'rows', 'formatting'])
        n = gen.log_int(rng, 10, 1500)
        if how == 'many': s = ''.join(some() for _ in range(n // 15))
        elif how == 'same': s = rng.choice(['<p>x', '<li>y', '<br>', '<b>x</b>', '<td>1', '<option>z', '<p>a<!-- c -->b']) * n
        elif how == 'deep': s = ''.join(rng.choice(['<div>', '<span>', '<ul><li>', '<section>x', '<svg><g>']) for _ in range(n // 15)) + 'x'
        elif how == 'attributes': s = '<p ' + ' '.join('a%d="%s"' % (i % (n - 3), gen.gen_text(rng, 0, 3).replace('"', '').replace('&', '')) for i in range(n)) + '>x'
        elif how == 'text': s = '<p>' + gen.long_text(rng, n * 10).replace('<', '&lt;') + '<b>' + gen.long_text(rng, n * 3).replace('<', 'x') + '</b>y'
        elif how == 'comments': s = '<div>' + ''.join(rng.choice(['x', ' ', '<!-- c -->', '<!-- d -->', '<i>y</i>']) for _ in range(n)) + '</div>'
        elif how == 'rows': s = '<table>' + ''.join('<tr><td>%d<td>x' % i + ('<b>' if i % 40 == 7 else '') for i in range(n // 3)) + '</table>z'
        else: s = ''.join(rng.choice(['<b>', '<i>', '</b>', '</i>', '<p>', 'x', '<a href=u>', '</a>', '<font size=%d>' % rng.randint(1, 4)]) for _ in range(n // 15))
        self.stats.see('large_by', how)
        self.stats.maximum('source', len(s))
        return some() * (rng.random() < 0.3) + s + some() * (rng.random() < 0.3)

    def run_case(self, kind, index, rng):
        if kind == 'given': return self.given(rng)
        if kind == 'lax':
            if rng.random() < 0.03:
                # Nothing which could be returned
                src = rng.choice(['', ' ', '\n\t', '<!-- x -->', '<!DOCTYPE a>', '<?x y?>', '</a>', '<!-- <a> --> ', '</a></b>'])
                try: top = self.html5.parse_lax_xml(src)
                except ValueError: self.stats.count('lax_nothing')
                else: raise Violation('parse_lax_xml() returns %r rather than raise ValueError' % (top,), source=src)
                return
            src = htmlgen.lax(rng)
            pre = rng.choice(['', '', '', ' ', '\n'])
            ref = htmlgen.reference(pre + src)
            body = next(c for c in ref.children if isinstance(c, E) and c.name == 'body')
            want = body.children[0]
            if not isinstance(want, E): return
            top = self.html5.parse_lax_xml(pre + src)
            self.stats.case(src)
            self.stats.count('lax_trees')
            d = compare(top, want, self.tree)
            if d: raise Violation('parse_lax_xml(): ' + d, source=src)
            if len(self.earlier) < 40: self.earlier.append((top, want, src))
            else: self.earlier[rng.randrange(40)] = (top, want, src)
            return
        src = self.large(rng) if kind == 'large' else htmlgen.soup(rng) if kind == 'soup' else htmlgen.nested(rng)
        mode = rng.random()
        arg = lambda: src
        if mode < 0.2:
            enc = rng.choice(['utf-8', 'utf-8-sig', 'utf-16', 'windows-1252', 'meta'])
            if enc == 'meta': data = b'<meta charset="iso-8859-2">' + src.encode('iso-8859-2', 'replace')
            else: data = src.encode(enc, 'replace')
            if rng.random() < 0.1: data = bytes(rng.choice(b'<>&ab \x00\xff\xfe\xef\xbb\xbf/=') for _ in range(rng.randint(0, 60)))
            arg = lambda: data
            self.stats.count('bytes')
            if rng.random() < 0.3: arg = lambda: io.BytesIO(data)
        elif mode < 0.25:
            arg = lambda: io.StringIO(src)
        shown = data if mode < 0.2 else src
        try:
            ref = htmlgen.reference(arg())
        except Exception as ex:
            # Not of this code's making, if by html5lib alone
            self.stats.count('html5lib_fails')
            return
        if ref is None: return
        try:
            # In the tree names are without namespace all the same
            ns = rng.random() < 0.12
            self.stats.count('use_xhtml_ns', ns)
            top = self.html5.parse(arg(), use_xhtml_ns=rng.random() < 0.9) if ns else self.html5.parse(arg())
        except Exception as ex:
            raise Violation('parse() fails: %r' % ex, source=shown)
        d = compare(top, ref, self.tree)
        if d:
            # html5lib's ElementTree builder is known to lose elements at times, but should the DOM one
            # have faults of its own, only what neither gives is blamed on the code under test
            ref2 = htmlgen.reference(arg(), 'etree')
            if ref2 is None or compare(top, ref2, self.tree): raise Violation(d, source=shown)
            ref = ref2
            self.stats.count('own_builders_disagree')
        self.stats.case(shown, gen.size(ref) > 3)
        self.stats.count('trees')
        for e in ref.walk():
            self.stats.count('elements')
            self.stats.see('distinct_names', e.name)
        if '<!--' in src: self.stats.count('with_comments')
        if kind != 'large' and rng.random() < 0.12: self.again(top, ref, arg, shown, rng)
        self.stats.sample(src[:200], 2)
        if rng.random() < 0.1:
            if len(self.earlier) < 40: self.earlier.append((top, ref, shown))
            else: self.earlier[rng.randrange(40)] = (top, ref, shown)
            t, r, s = rng.choice(self.earlier)
            d = compare(t, r, self.tree)
            if d: raise Violation('an earlier tree changed: ' + d, source=s, later=shown)
            self.stats.count('earlier_trees_compared')

    def given(self, rng):
        """An encoding given to go with the bytes, whatever they declare, and markup_fragment()"""
        src = htmlgen.soup(rng) if rng.random() < 0.5 else htmlgen.nested(rng)
        enc = rng.choice(['utf-8', 'windows-1252', 'iso-8859-2', 'iso-8859-5', 'koi8-r', 'shift_jis', 'utf-16-le', 'UTF-8', 'Windows-1251'])
        if rng.random() < 0.4: src += rng.choice(['\xe9', '\u0416', '\u0142']) * 2
        declared = rng.choice(['', '', '<meta charset="%s">' % rng.choice(['utf-8', 'iso-8859-2', 'koi8-r', 'nope'])])
        data = (declared + src).encode(enc, 'replace')
        # A byte order mark goes ahead of what is given
        if rng.random() < 0.12: data = rng.choice([b'\xef\xbb\xbf', b'\xff\xfe', b'\xfe\xff']) + data
        asstr = rng.random() < 0.2
        arg = (lambda: src) if asstr else (lambda: data) if rng.random() < 0.6 else (lambda: io.BytesIO(data))
        options = {} if asstr or rng.random() < 0.3 else {'encoding': enc}
        over = {'override_encoding': enc} if options else {}
        try: ref = htmlgen.reference(arg(), **over)
        except Exception:
            self.stats.count('html5lib_fails')
            return
        if ref is None: return
        fragment = rng.random() < 0.4
        try:
            got = self.html5.markup_fragment(arg(), **options) if fragment else self.html5.parse(arg(), **options)
        except Exception as ex:
            if fragment and not any(isinstance(c, E) and c.name == 'body' for c in ref.children): return
            raise Violation('%s fails: %r' % ('markup_fragment()' if fragment else 'parse()', ex), source=arg(), **options)
        want = ref
        if fragment:
            want = next((c for c in ref.children if isinstance(c, E) and c.name == 'body'), None)
            # A frameset has no body
            if want is None: return
            self.stats.count('fragments')
        d = compare(got, want, self.tree)
        if d:
            ref2 = htmlgen.reference(arg(), 'etree', **over)
            if ref2 and fragment: ref2 = next((c for c in ref2.children if isinstance(c, E) and c.name == 'body'), None)
            if ref2 is None or compare(got, ref2, self.tree): raise Violation(d, source=src if asstr else data, fragment=fragment, **options)
        self.stats.case((src, enc))
        if options:
            self.stats.count('encoding_given')
            if gen.value(htmlgen.reference(data)) != gen.value(ref): self.stats.count('encoding_matters')

    def again(self, top, ref, arg, shown, rng):
        """The same source once more, the tree it gave before being at hand: another tree, none of whose nodes is of the first"""
        second = self.html5.parse(arg())
        ids = {id(n) for n in self.nodes(top)}
        if any(id(n) in ids for n in self.nodes(second)): raise Violation('the tree of the same source parsed again shares nodes with the first', source=shown)
        d = compare(second, ref, self.tree)
        if d: raise Violation('parsed again: ' + d, source=shown)
        for n in list(self.nodes(second)):
            if isinstance(n, self.tree.element):
                n.xml_name += 'x'
                n.xml_attributes['y'] = 'z'
        second.xml_append('w')
        d = compare(top, ref, self.tree)
        if d: raise Violation('the first tree changed with that of the same source parsed again: ' + d, source=shown)
        third = self.html5.parse(arg())
        d = compare(third, ref, self.tree)
        if d: raise Violation('parsed again, after changes to what it gave before: ' + d, source=shown)
        self.stats.count('parsed_again')

    def nodes(self, top):
        stack = [top]
        while stack:
            n = stack.pop()
            yield n
            if isinstance(n, self.tree.element): stack.extend(n.xml_children)
