"""
Generator of XML 1.0 documents with namespaces, along with the MicroXML they reduce to (the ground truth)
"""
import codecs
from . import gen
from .gen import E

NSES = ['http://example.com/1', 'http://example.com/2', 'urn:x', 'urn:x:y', 'tag:a', 'http://www.w3.org/1999/xhtml']
# White space of all kinds
ODD_NSES = ['urn:a b', ' x', 'y  ', 'z w\u3000', 'x\u3000y', 'urn:\xa0', '\u2003y', 'a\u2028b\x85c', 'a:b', '\xe9', 'a"b>\'&']
# Allowed by XML 1.0 but not MicroXML
XML_ONLY = '\x7f\x80\x84\x86\x9f\ufdd0\ufdef\U0001fffe\U0010ffff'
ENCODINGS = [None, None, None, 'utf-8', 'utf-8', 'utf-16', 'utf-16-le-bom', 'utf-16-be-bom', 'iso-8859-1', 'us-ascii', 'windows-1252', 'iso-8859-15', 'koi8-r', 'utf-8-bom', 'utf-8-nodecl']


class Doc:
    def __init__(self):
        self.text = ''
        self.source = None      # str or bytes to parse
        self.model = None
        self.misc_inside = False    # comments or PIs within content: text runs may be in pieces
        self.encoding = None
        self.features = set()


class Maker:
    def __init__(self, rng, ascii_only=False, elems=12, moji=None):
        self.moji = moji
        self.rng = rng
        self.ascii = ascii_only
        self.doc = Doc()
        self.out = []
        self.entities = {}      # name -> (declaration, text) or (declaration, [children model])
        self.defaults = {}      # qname -> [(attr, value)]
        self.tokens = {}
        self.budget = elems
        self.local = [self.name() for _ in range(rng.randint(1, 5))]

    def name(self):
        while True:
            n = gen.gen_name(self.rng, 0.0 if self.ascii else 0.2, xml=True)
            if not n.lower().startswith('xml'):
                return n

    def text(self, hi=10):
        rng = self.rng
        if self.moji:
            # Characters which, in their encoding, look like UTF-8, & no others out of ASCII
            return ''.join(rng.choice(['x', ' ', 'ab', '1'] + [c.encode('utf-8').decode(self.moji, 'replace').replace('\ufffd', '') for c in '\xe9\xa0\u20ac\xff\u0416']) for _ in range(rng.randint(0, 5)))
        t = gen.gen_text(rng, 0, hi)
        if rng.random() < 0.1: t += rng.choice(XML_ONLY)
        if rng.random() < 0.03: t += ''.join(rng.choice('ab&<\n ') for _ in range(rng.choice([500, 2000, 6000])))
        while len(t.encode('utf-8')) > 7900: t = t[:len(t) // 2]
        return t

    def encodable(self, c):
        return not self.ascii or ord(c) < 128

    def ref(self, c):
        rng = self.rng
        if self.moji and ord(c) > 127: return '&#%d;' % ord(c)
        if c in gen.NAMED and rng.random() < 0.6: return '&' + gen.NAMED[c] + ';'
        self.doc.features.add('charref')
        return rng.choice(['&#%d;' % ord(c), '&#x%x;' % ord(c), '&#x%X;' % ord(c), '&#x000%x;' % ord(c)])

    def spell_text(self, t):
        """Spelling of character data"""
        rng, out, i = self.rng, [], 0
        while i < len(t):
            if rng.random() < 0.03 and t[i:i+1] not in ('\r',):
                # CDATA section
                j = rng.randint(i + 1, len(t))
                run = t[i:j]
                if ']]>' not in run and '\r' not in run and all(self.encodable(c) for c in run):
                    self.doc.features.add('cdata')
                    run = ''.join('\r\n' if c == '\n' and rng.random() < 0.2 else c for c in run)
                    out.append('<![CDATA[' + run + ']]>')
                    i = j
                    continue
            c = t[i]
            if c in '<&>\r' or not self.encodable(c) or rng.random() < 0.03:
                out.append(self.ref(c))
            elif c == '\n' and rng.random() < 0.2:
                # A CR followed by what is a literal newline would be one line end
                out.append('\r\n')
                self.doc.features.add('line end')
            else:
                out.append(c)
            i += 1
        return ''.join(out)

    def spell_attr(self, v, q, refs=True):
        """(spelling, value): literal whitespace becomes spaces"""
        rng, out, val = self.rng, [], []
        for c in v:
            if c in '\t\n' and rng.random() < 0.3:
                out.append('\r\n' if c == '\n' and rng.random() < 0.3 else c)
                val.append(' ')
                self.doc.features.add('normalized value')
            elif c in '<&\t\n\r' + q or not self.encodable(c) or rng.random() < 0.03:
                out.append(self.ref(c)); val.append(c)
            else:
                out.append(c); val.append(c)
            if refs and rng.random() < 0.02:
                ents = [n for n, (d, m) in self.entities.items() if isinstance(m, str)]
                if ents:
                    n = rng.choice(ents)
                    out.append('&' + n + ';')
                    val.append(self.entities[n][1].replace('\n', ' ').replace('\t', ' '))
        return ''.join(out), ''.join(val)

    def subset(self, root):
        """Internal subset"""
        rng, out = self.rng, []
        for i in range(rng.randint(0, 3)):
            n = 'e%d' % i
            kind = rng.random()
            q = rng.choice('"\'')
            if kind < 0.6 or not self.entities:
                t = ''.join(c for c in self.text(6)[:200] if c not in '<&%\r' + q and self.encodable(c))
                if ']]' in t: t = t.replace('>', '')
                # Character references in entity values are resolved at once, so no markup characters by that way
                self.entities[n] = ('<!ENTITY %s %s%s%s>' % (n, q, t, q), t)
            elif kind < 0.8:
                m = rng.choice([k for k, v in self.entities.items() if isinstance(v[1], str)])
                self.entities[n] = ('<!ENTITY %s "x&%s;y">' % (n, m), 'x' + self.entities[m][1] + 'y')
            else:
                self.entities[n] = ("<!ENTITY %s 'u<ent k=\"v\">w</ent>z'>" % n, ['u', E('ent', [('k', 'v')], ['w']), 'z'])
                self.doc.features.add('entity with markup')
            out.append(self.entities[n][0])
        if rng.random() < 0.5:
            # For unprefixed elements in no particular namespace, by qualified name
            qn = rng.choice(self.local)
            t = ''.join(c for c in self.text(5)[:100] if c not in '<&"\r' and self.encodable(c))
            self.defaults[qn] = [('dflt', t.replace('\n', ' ').replace('\t', ' '))]
            out.append('<!ATTLIST %s dflt CDATA "%s" tok NMTOKENS #IMPLIED>' % (qn, t))
            self.tokens[qn] = True
            self.doc.features.add('attribute default')
        if rng.random() < 0.3: out.append('<!ELEMENT %s ANY>' % rng.choice(self.local))
        if rng.random() < 0.2: out.append('<!NOTATION nn SYSTEM "x">')
        if rng.random() < 0.3: out.append(self.misc())
        return rng.choice(['\n', ' ', '']).join(out)

    def misc(self):
        rng = self.rng
        t = ''.join(c for c in gen.gen_text(rng, 0, 8) if self.encodable(c))
        if rng.random() < 0.5:
            while '--' in t: t = t.replace('--', '-')
            self.doc.features.add('comment')
            return '<!--' + t.rstrip('-') + '-->'
        self.doc.features.add('pi')
        return '<?' + self.name() + ' ' + t.replace('?>', '') + '?>' if True else ''

    def element(self, scope, depth):
        """scope: prefix -> ns in scope. Appends markup; returns the model"""
        rng, out = self.rng, self.out
        scope = dict(scope)
        decls = []
        for _ in range(rng.choice([0, 0, 0, 1, 2]) if depth > 1 else rng.choice([0, 1, 2, 3])):
            p = rng.choice(['', 'p', 'q', 'ns', 'x-y', '_'])
            if p in dict(decls): continue
            u = rng.choice(NSES)
            if rng.random() < 0.04: u = rng.choice([n for n in ODD_NSES if all(self.encodable(c) for c in n)])
            if p == '' and rng.random() < 0.3: u = ''
            decls.append((p, u))
            scope[p] = u
        prefixes = [p for p in scope if p]
        local = rng.choice(self.local)
        prefix = rng.choice(prefixes) if prefixes and rng.random() < 0.5 else ''
        qname = prefix + ':' + local if prefix else local
        if prefix: self.doc.features.add('prefixed element')
        e = E(local)
        attrs = [('xmlns' + (':' + p if p else ''), u, None) for p, u in decls]
        used = {'dflt', 'tok'}
        for _ in range(rng.choice([0, 0, 1, 2, 4])):
            k = rng.choice(self.local) if rng.random() < 0.3 else self.name()
            if k in used: continue
            used.add(k)
            ap = rng.choice(prefixes) if prefixes and rng.random() < 0.4 else ''
            if ap: self.doc.features.add('prefixed attribute')
            if rng.random() < 0.05: ap, k = 'xml', 'lang'
            if k in used and k == 'lang' and any(a[2] == 'lang' for a in attrs): continue
            used.add(k)
            attrs.append((ap + ':' + k if ap else k, self.text(6), k))
        if self.tokens.get(qname) and rng.random() < 0.5:
            attrs.append(('tok', None, 'tok'))
        rng.shuffle(attrs)
        parts = []
        for qn, v, k in attrs:
            q = rng.choice('"\'')
            if qn == 'tok':
                parts.append('tok=%s a  b\n\tc %s' % (q, q)); e.attrs.append(('tok', 'a b c'))
                self.doc.features.add('tokenized value')
                continue
            if k is None:
                s = self.spell_attr(v, q, refs=False)[0]
            else:
                s, v = self.spell_attr(v, q)
                e.attrs.append((k, v))
            parts.append(qn + rng.choice(['=', '=', ' = ', '=\n']) + q + s + q)
        if qname in self.defaults:
            have = dict(e.attrs)
            for k, v in self.defaults[qname]:
                if k not in have: e.attrs.append((k, v))
        sep = rng.choice([' ', ' ', '\n', '\t '])
        tag = '<' + qname + ''.join(sep + p for p in parts) + rng.choice(['', '', ' '])
        kids = []
        if rng.random() < 0.15 or depth > 12:
            out.append(tag + '/>')
            self.doc.features.add('empty element tag')
            return e
        out.append(tag + '>')
        for _ in range(rng.choice([0, 1, 2, 3, 5])):
            r = rng.random()
            if r < 0.4:
                t = self.text()
                s = self.spell_text(t)
                # Do not let pieces run together to ]]> or to CRLF
                out.append(s.replace(']]>', ']]&gt;') if '<![CDATA[' not in s else s)
                kids.append(t)
            elif r < 0.65:
                if self.budget > 0:
                    self.budget -= 1
                    kids.append(self.element(scope, depth + 1))
            elif r < 0.75:
                out.append(self.misc())
                if kids or True: self.doc.misc_inside = True
            elif r < 0.9 and self.entities:
                n = rng.choice(list(self.entities))
                m = self.entities[n][1]
                if isinstance(m, list):
                    kids.extend(E(c.name, c.attrs, c.children) if isinstance(c, E) else c for c in m)
                else:
                    kids.append(m)
                out.append('&' + n + ';')
                self.doc.features.add('entity')
        merged = []
        for c in kids:
            if isinstance(c, str):
                if not c: continue
                if merged and isinstance(merged[-1], str):
                    merged[-1] += c
                    continue
            merged.append(c)
        e.children = merged
        out.append('</' + qname + rng.choice(['', '', ' ', '\n']) + '>')
        return e

    def make(self):
        rng, out, doc = self.rng, self.out, self.doc
        doctype = rng.random() < 0.4
        if doctype:
            doc.features.add('doctype')
            sub = self.subset(None)
            out.append('<!DOCTYPE ' + rng.choice(self.local) + (' [' + sub + ']' if sub or rng.random() < 0.2 else '') + '>\n')
        if rng.random() < 0.2: out.append(self.misc() + '\n')
        doc.model = self.element({}, 1)
        if rng.random() < 0.2: out.append('\n' + self.misc())
        if rng.random() < 0.3: out.append('\n')
        doc.text = ''.join(out)
        return doc


def run_sizes(e):
    for x in e.walk():
        for c in x.children:
            if isinstance(c, str): yield len(c.encode('utf-8', 'surrogatepass'))


def make(rng, elems=12):
    """A Doc, with its source encoded one way or other"""
    while True:
        enc = rng.choice(ENCODINGS)
        ascii_only = enc in ('iso-8859-1', 'us-ascii', 'windows-1252', 'iso-8859-15', 'koi8-r')
        moji = enc if ascii_only and enc != 'us-ascii' and rng.random() < 0.2 else None
        doc = Maker(rng, ascii_only, elems, moji).make()
        if max(list(run_sizes(doc.model)) or [0]) > 8000:
            continue
        break
    doc.encoding = enc or 'str'
    version = rng.choice(['<?xml version="1.0"?>', "<?xml version='1.0' ?>", '<?xml version="1.0" standalone="yes"?>'])
    if enc is None:
        doc.source = (rng.choice(['', version + '\n', '<?xml version="1.0" encoding="utf-8"?>', '<?xml version="1.0" encoding="iso-8859-1"?>', '<?xml version="1.0" encoding="%s"?>' % rng.choice(['utf-16', 'UTF-16LE', 'us-ascii', 'windows-1252', 'x-nosuch'])]) + doc.text)
    elif enc in ('utf-16', 'utf-16-le-bom', 'utf-16-be-bom'):
        text = rng.choice(['', version, '<?xml version="1.0" encoding="utf-16"?>']) + doc.text
        doc.source = {'utf-16': text.encode('utf-16'), 'utf-16-le-bom': codecs.BOM_UTF16_LE + text.encode('utf-16-le'), 'utf-16-be-bom': codecs.BOM_UTF16_BE + text.encode('utf-16-be')}[enc]
    elif enc == 'utf-8-nodecl':
        doc.source = doc.text.encode('utf-8')
    elif enc == 'utf-8-bom':
        doc.source = codecs.BOM_UTF8 + (rng.choice(['', version]) + doc.text).encode('utf-8')
    else:
        text = '<?xml version="1.0" encoding="%s"?>' % rng.choice([enc, enc.upper()]) + rng.choice(['', '\n']) + doc.text
        if ascii_only and enc != 'us-ascii':
            # Some characters as themselves in this encoding rather than as references
            import re
            def lit(m):
                cp = int(m.group(1))
                c = chr(cp)
                if cp < 0x80 or not moji and (cp < 0xA0 or rng.random() < 0.3): return m.group(0)
                try:
                    c.encode(enc)
                except UnicodeError:
                    return m.group(0)
                doc.features.add('literal ' + enc)
                return c
            text = re.sub('&#([0-9]+);', lit, text)
        doc.source = text.encode(enc)
        if moji:
            try: doc.source.decode('utf-8')
            except UnicodeDecodeError: pass
            else:
                if not doc.source.isascii(): doc.features.add('looks like UTF-8')
    return doc
