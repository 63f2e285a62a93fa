"""
Generators of documents, independent of the code under test.

Document model: E(name, attrs, children): attrs a list of (name, value), children a list of E & str.
"""

class E:
    __slots__ = ('name', 'attrs', 'children')
    def __init__(self, name, attrs=(), children=()):
        self.name = name
        self.attrs = list(attrs)
        self.children = list(children)

    def __repr__(self):
        return 'E(%r, %r, %r)' % (self.name, self.attrs, self.children)

    def walk(self):
        stack = [self]
        while stack:
            e = stack.pop()
            yield e
            stack.extend(c for c in reversed(e.children) if isinstance(c, E))


def value(e):
    if isinstance(e, str):
        return e
    return ''.join(value(c) for c in e.children)


def depth(e):
    return 1 + max([depth(c) for c in e.children if isinstance(c, E)] or [0])


def size(e):
    return sum(1 + len(x.attrs) + sum(isinstance(c, str) for c in x.children) for x in e.walk())


# --- Characters ---------------------------------------------------------------------------------

# MicroXML characters
CHAR_RANGES = [(0x9, 0xA), (0x20, 0x7E), (0xA0, 0xD7FF), (0xE000, 0xFDCF), (0xFDF0, 0xFFFD)] + \
    [(p << 16, (p << 16) + 0xFFFD) for p in range(1, 17)]
NAMESTART_RANGES = [(0x41, 0x5A), (0x5F, 0x5F), (0x61, 0x7A), (0xC0, 0xD6), (0xD8, 0xF6), (0xF8, 0x2FF), (0x370, 0x37D),
    (0x37F, 0x1FFF), (0x200C, 0x200D), (0x2070, 0x218F), (0x2C00, 0x2FEF), (0x3001, 0xD7FF), (0xF900, 0xFDCF), (0xFDF0, 0xFFFD)] + \
    [(p << 16, (p << 16) + 0xFFFD) for p in range(1, 15)]
NAME_EXTRA_RANGES = [(0x2D, 0x2E), (0x30, 0x39), (0xB7, 0xB7), (0x300, 0x36F), (0x203F, 0x2040)]

def in_ranges(cp, ranges):
    for lo, hi in ranges:
        if lo <= cp <= hi:
            return True
    return False

def is_char(c): return in_ranges(ord(c), CHAR_RANGES)
def is_namestart(c): return in_ranges(ord(c), NAMESTART_RANGES)
def is_namechar(c): return in_ranges(ord(c), NAMESTART_RANGES) or in_ranges(ord(c), NAME_EXTRA_RANGES)
def is_noncharacter_plane_end(c): return ord(c) & 0xFFFE == 0xFFFE and ord(c) > 0xFFFF

BOUNDARY = sorted({x for r in (CHAR_RANGES, NAMESTART_RANGES, NAME_EXTRA_RANGES) for (lo, hi) in r for x in (lo, hi)})
BOUNDARY_CHARS = [chr(x) for x in BOUNDARY if in_ranges(x, CHAR_RANGES)]
BOUNDARY_NAMESTART = [chr(x) for x in BOUNDARY if in_ranges(x, NAMESTART_RANGES)]
BOUNDARY_NAMECHAR = [chr(x) for x in BOUNDARY if in_ranges(x, NAMESTART_RANGES) or in_ranges(x, NAME_EXTRA_RANGES)]

ASCII_LETTERS = 'abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ'
MARKUP = '<>&"\'=/;#x![]-?\\`%'
# Names fine with XML 1.0 4th edition (expat) as well
XML_START = ASCII_LETTERS + '_' + '\u00c0\u00d6\u00d8\u00e9\u00f6\u00f8\u0131\u0391\u03c9\u0416\u05d0\u0627\u0e01\u3042\u4e00\u9fa5\uac00'
XML_NAME = XML_START + '-.0123456789\u00b7\u0301'


def range_char(rng, ranges):
    lo, hi = ranges[rng.randrange(len(ranges))]
    return chr(rng.randint(lo, hi))


def gen_name(rng, exotic=0.15, xml=False, short=True):
    r = rng.random()
    if r > exotic:
        n = 1 if short and rng.random() < 0.5 else rng.randint(1, 8)
        s = rng.choice('abcdexyz_' if rng.random() < 0.8 else ASCII_LETTERS)
        return s + ''.join(rng.choice('abcABC123-._') for _ in range(n - 1))
    n = rng.randint(1, 6) if rng.random() < 0.95 else rng.randint(30, 400)
    if xml:
        return rng.choice(XML_START) + ''.join(rng.choice(XML_NAME) for _ in range(n - 1))
    def start():
        return rng.choice(BOUNDARY_NAMESTART) if rng.random() < 0.5 else range_char(rng, NAMESTART_RANGES)
    def rest():
        x = rng.random()
        if x < 0.4: return rng.choice(BOUNDARY_NAMECHAR)
        if x < 0.6: return range_char(rng, NAME_EXTRA_RANGES)
        return start()
    return start() + ''.join(rest() for _ in range(n - 1))


def gen_char(rng, cr=False):
    x = rng.random()
    if x < 0.45: return rng.choice(ASCII_LETTERS)
    if x < 0.60: return rng.choice(MARKUP)
    if x < 0.75: return rng.choice(' \n\t ')
    if x < 0.85: return chr(rng.randint(0x20, 0x7E))
    if x < 0.93: return rng.choice(BOUNDARY_CHARS)
    return range_char(rng, CHAR_RANGES)


STRIPPABLE = ['\ufeff', '\u00a0', '\u2028', '\u2029', '\u3000', '\u200b', '\u2003', '\u1680', '\t', '\n', ' ', '\u2060', '\u00ad', '\u202f', '\u0301']


MARKUP_BITS = ['&', '&amp;', '&amp;amp;', ';', '<', '>', ']', ']]', ']]>', '"', "'", '\n', ' ', '\t', 'a', '#x41;', '&#x41;', '&lt', '/', '=', '-', '--', '!', '?', 'b']


def gen_text(rng, lo=0, hi=12, exotic=0.5):
    n = rng.randint(lo, hi)
    x = rng.random()
    if x < 0.02:
        n = rng.choice([100, 1000, 3000])
    if rng.random() > exotic:
        return ''.join(rng.choice('abc 123\n') for _ in range(n))
    if n and rng.random() < 0.12:
        # Begins or ends with what a careless strip() takes for white space
        s = ''.join(rng.choice('abc 1') for _ in range(n))
        c = rng.choice(STRIPPABLE) * rng.choice([1, 1, 2])
        return c + s if rng.random() < 0.4 else s + c if rng.random() < 0.7 else c + s + rng.choice(STRIPPABLE)
    if rng.random() < 0.1:
        # Look-alike markup
        if rng.random() < 0.4: return ''.join(rng.choice(MARKUP_BITS) for _ in range(rng.randint(2, 6)))
        return rng.choice(['&amp;', '&lt;', '&#10;', '&#xA;', '<b>', '</a>', '<!--', '-->', ']]>', '<![CDATA[', '&', '\n', '\n\n', ' \n ', '\t', '"', "'", '"\'', '&quot;', '<?x?>', '>', '>>', '&#x41;', '\\', '\ufeff', '\u0085'.replace('\u0085', '\u00a0'), '\u2028'])
    return ''.join(gen_char(rng) for _ in range(n))


def gen_doc(rng, max_elems=25, max_depth=8, names=None, attr_names=None, text=None, exotic=0.15, xml=False, attr_p=0.35, text_p=0.5):
    """Random document. names: pool to choose from (small pools give look-alikes)"""
    text = text or (lambda: gen_text(rng))
    budget = [rng.randint(0, max_elems)]
    local = names or [gen_name(rng, exotic, xml) for _ in range(rng.randint(1, 6))]
    def nm():
        if names or rng.random() < 0.8:
            return rng.choice(local)
        return gen_name(rng, exotic, xml)
    def anm():
        if attr_names: return rng.choice(attr_names)
        return rng.choice(local) if rng.random() < 0.3 else gen_name(rng, exotic, xml)
    def elem(d):
        e = E(nm())
        if rng.random() < attr_p:
            seen = set()
            for _ in range(rng.choice([1, 1, 1, 2, 2, 3, 6])):
                k = anm()
                if k not in seen:
                    seen.add(k)
                    e.attrs.append((k, text()))
        last_text = False
        for _ in range(rng.choice([0, 1, 1, 2, 3, 4, 7]) if d < max_depth else rng.randint(0, 1)):
            if rng.random() < text_p:
                if not last_text:
                    t = text()
                    if t:
                        e.children.append(t)
                        last_text = True
            elif budget[0] > 0 and d < max_depth:
                budget[0] -= 1
                e.children.append(elem(d + 1))
                last_text = False
        return e
    return elem(1)


def log_int(rng, lo, hi):
    """Between the two, each magnitude as likely"""
    import math
    return min(hi, max(lo, int(math.exp(rng.uniform(math.log(lo), math.log(hi + 1))))))


def long_text(rng, n, plain=None):
    """Text of n characters, cheaply, of varied composition. plain: without any that need a reference"""
    if plain is None: plain = rng.random() < 0.4
    kind = rng.random()
    if kind < 0.15: c = rng.choice(['a', ' ', '\n', '\t', 'ab', '\u00e9', '\U0001f600', '12'] + ([] if plain else ['&', '<', '"\'', '>', ']]>', '&amp;'])); s = c * (n // len(c) + 1)
    else:
        chunks = [gen_text(rng, 1, 12) if kind < 0.6 else ''.join(gen_char(rng) for _ in range(rng.randint(1, 60))) for _ in range(rng.randint(1, 12))]
        if plain: chunks = [''.join(c for c in x if c not in '<>&"\'\n') for x in chunks] + ['x\ty z']
        chunks = [c for c in chunks if c] or ['a']
        out, m = [], 0
        while m < n:
            c = rng.choice(chunks)
            out.append(c); m += len(c)
        s = ''.join(out)
    s = s[:n]
    if n > 2 and rng.random() < 0.5:
        # Something at the end which stands out
        s = s[:-2] + rng.choice(['\tz', 'z ', ' \t', '\u00e9!', '..'] + ([] if plain else ['\n\n', '&"', "<'", ' \n']))
    return s


def gen_large(rng, xml=False, wide=6000, deep=150, attrs=600, name=3000, text=100000, names=None, value=None, words=None, **kw):
    """
    Document which is big in a few respects (0: not in that one): number of children, depth, number of attributes, length of names, texts & values, number
    of elements of the same name. Anything with a limit, buffer or threshold is to be taken past it
    """
    value = text if value is None else value
    if words: kw['text'] = words
    e = gen_doc(rng, max_elems=rng.choice([0, 3, 10]), max_depth=4, names=names, xml=xml, **kw)
    ways = [w for w, n in (('wide', wide), ('deep', deep), ('attrs', attrs), ('name', name), ('text', text), ('value', value), ('texts', wide), ('same', wide)) if n]
    small = dict(max_elems=2, max_depth=2, names=names, xml=xml, exotic=0.05, **kw)
    nm = (lambda: rng.choice(names)) if names else (lambda: gen_name(rng, 0.1, xml))
    def put(t, c):
        """At a random place among the children of t, not next to other text"""
        i = rng.randint(0, len(t.children))
        if isinstance(c, str) and any(isinstance(x, str) for x in t.children[max(0, i - 1):i + 1]): t.children.insert(i, E(nm())); i += rng.randint(0, 1) if not any(isinstance(x, str) for x in t.children[i + 1:i + 2]) else 0
        if isinstance(c, str) and (i and isinstance(t.children[i - 1], str) or i < len(t.children) and isinstance(t.children[i], str)): return
        t.children.insert(i, c)
    for way in rng.sample(ways, min(len(ways), rng.choice([1, 1, 2, 3]))):
        t = rng.choice(list(e.walk())[:50])
        if way in ('wide', 'texts', 'same'):
            n = log_int(rng, 20, wide)
            kids = []
            one = nm()
            for _ in range(n):
                r = rng.random()
                if way == 'texts' and (not kids or not isinstance(kids[-1], str)): kids.append(rng.choice(['x', ' ', '\n', '1', 'yz&']))
                elif way == 'same' or r < 0.5: kids.append(E(one if way == 'same' else nm(), [], [rng.choice(['x', '1', '2'])] if rng.random() < 0.3 else []))
                elif r < 0.8: kids.append(gen_doc(rng, **small))
                elif not kids or not isinstance(kids[-1], str): kids.append((words() if words else gen_text(rng, 1, 6)) or 'x')
            t.children = kids
        elif way == 'deep':
            n = log_int(rng, 10, deep)
            pool = names or [nm() for _ in range(rng.choice([1, 3]))]
            x = t
            while n > 0:
                y = gen_doc(rng, **small) if rng.random() < 0.15 else E(rng.choice(pool), [(rng.choice(pool), 'v%d' % n)] if rng.random() < 0.2 else [], [rng.choice(['x', '1', ' '])] if rng.random() < 0.2 else [])
                put(x, y)
                x = y
                n -= 1
        elif way == 'attrs':
            n = log_int(rng, 8, attrs)
            have = {k for k, v in t.attrs}
            for i in range(n):
                k = nm() + rng.choice(['', '-', '.']) + str(rng.randrange(3 * n)) if not kw.get('attr_names') else nm() + str(i)
                if k not in have: have.add(k); t.attrs.append((k, gen_text(rng, 0, 3)))
        elif way == 'name' and not names:
            n = log_int(rng, 40, name)
            base = ''.join(rng.choice('abcXYZ019-._') for _ in range(min(n, 50)))
            x = rng.choice('ab_') + (base * (n // len(base) + 1))[:n - 1]
            t.name = x
            if rng.random() < 0.5: t.attrs.append((x[:-1] + 'q', 'v')) if x[:-1] + 'q' not in dict(t.attrs) else None
            # The like of it, alike up to the end
            put(t, E(x[:-1] + 'Q', [], ['y']))
        elif way == 'text':
            for _ in range(rng.choice([1, 1, 3])): put(rng.choice(list(e.walk())[:50]), long_text(rng, log_int(rng, 200, text)))
        elif way == 'value':
            k = (rng.choice(kw['attr_names']) if kw.get('attr_names') else nm())
            t.attrs = [(a, v) for a, v in t.attrs if a != k] + [(k, long_text(rng, log_int(rng, 200, value)))]
            if rng.random() < 0.5: rng.shuffle(t.attrs)
    return e


def chain(names, text='t'):
    """Deeply nested document"""
    e = None
    for n in reversed(names):
        e = E(n, [], [text] if e is None else [e])
    return e


# --- Spelling of a document as MicroXML -----------------------------------------------------------

WSCHARS = ' \t\n\r'

def ws(rng, lo=0, plain=0.7):
    if rng.random() < plain:
        return ' ' * lo
    return ''.join(rng.choice(WSCHARS) for _ in range(rng.randint(max(lo, 1), 3)))


NAMED = {'<': 'lt', '>': 'gt', '&': 'amp', '"': 'quot', "'": 'apos'}

def charref(rng, c):
    h = '%x' % ord(c)
    if rng.random() < 0.5: h = h.upper()
    if rng.random() < 0.2: h = '0' * rng.randint(1, 4) + h
    return '&#x' + h + ';'


def spell(rng, s, must, refs=0.08, crs=0.15):
    """Spell characters of text or of an attribute value; those in must need a reference"""
    out = []
    for c in s:
        if c in must or (rng.random() < refs):
            if c in NAMED and rng.random() < 0.7:
                out.append('&' + NAMED[c] + ';')
            else:
                out.append(charref(rng, c))
        elif c == '\n' and rng.random() < crs:
            out.append(rng.choice(['\r\n', '\r']))
        elif c == '\n' and out and out[-1] == '\r':
            out.append(rng.choice(['\r\n', '\r', '&#xA;']))
        else:
            out.append(c)
    return ''.join(out)


def render(rng, e, plain=False, refs=0.08, outer=True):
    """A random spelling of the document as MicroXML"""
    out = []
    p = 1.0 if plain else rng.choice([0.5, 0.8, 1.0])
    crs = 0.0 if plain else 0.15
    if plain: refs = 0.0
    def rec(root):
        # Iterative, for depth
        stack = [(root, None)]
        while stack:
            e, it = stack.pop()
            if it is None:
                out.append('<' + e.name)
                for k, v in e.attrs:
                    out.append(ws(rng, 1, p) + k + ws(rng, 0, p) + '=' + ws(rng, 0, p))
                    q = '"' if plain else rng.choice('"\'')
                    out.append(q + spell(rng, v, '<&>' + q, refs, crs) + q)
                out.append(ws(rng, 0, p) + '>')
                it = iter(e.children)
            for c in it:
                if isinstance(c, str):
                    out.append(spell(rng, c, '<&>', refs, crs))
                else:
                    stack.append((e, it))
                    stack.append((c, None))
                    break
            else:
                out.append('</' + e.name + ws(rng, 0, p) + '>')
    if outer and not plain:
        if rng.random() < 0.05: out.append('\ufeff')
        out.append(ws(rng, 0, 0.8))
    rec(e)
    if outer and not plain:
        out.append(ws(rng, 0, 0.8))
    return ''.join(out)


def events_of(e):
    """The events for a document: ('s', name, attrs, ancestors), ('c', text), ('e', name, ancestors)"""
    out = []
    anc = []
    stack = [(e, None)]
    while stack:
        e, it = stack.pop()
        if it is None:
            out.append(('s', e.name, list(e.attrs), list(anc)))
            anc.append(e.name)
            it = iter(e.children)
        for c in it:
            if isinstance(c, str):
                if c:
                    out.append(('c', c))
            else:
                stack.append((e, it))
                stack.append((c, None))
                break
        else:
            anc.pop()
            out.append(('e', e.name, list(anc)))
    return out


def render_xml(rng, e, refs=0.05, plain=False):
    """A spelling of the document which is fine as MicroXML & as XML 1.0 alike (given names fine with both)"""
    if plain: refs = 0.0
    out = []
    stack = [(e, None)]
    while stack:
        e, it = stack.pop()
        if it is None:
            out.append('<' + e.name)
            for k, v in e.attrs:
                q = rng.choice('"\'')
                out.append(' ' + k + '=' + q + spell(rng, v, '<&>\n\t' + q, refs, 0) + q)
            out.append('>')
            it = iter(e.children)
        for c in it:
            if isinstance(c, str):
                out.append(spell(rng, c, '<&>', refs, 0))
            else:
                stack.append((e, it))
                stack.append((c, None))
                break
        else:
            out.append('</' + e.name + '>')
    return ''.join(out)
