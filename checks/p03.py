"""P03: MicroXML parse rejects what is not well formed, and always terminates"""
from vlib.common import BaseCheck, Violation, bounded
from vlib import gen, refuxml
from vlib.amara import conv_event, tree_diff
from vlib.gen import E

SOUP = ['<', '</', '>', '<a>', '</a>', '<b>', '</b>', '<a', ' b="', '"', "'", ' x=\'', '=', ' ', '\n', '\r', '\r\n', '\t', 'a', 'b', 'x', '&', '&amp;', '&lt;', '&#x41;', '&#x', ';', '#',
        '&#65;', '&nbsp;', '<!--', '-->', '<?', '?>', '<!DOCTYPE a>', '<![CDATA[', ']]>', '/>', '<a/>', '\ufeff', '\x00', '\x0b', '\ud800', '\uffff', '\ufdd0', '.', '-', '1', ':', 'a:b',
        '\u00e9', '\u00d7', '\u0300', '<a b="c">', '<a b=\'c\' b="d">', '</a >', '< a>', '</ a>', 'text', '\x7f', '\x85', '\xa0', '!', '/', '?', '[', '&#x0;', '&#xD;', '&#xD800;', '&#xFFFE;',
        '&#x110000;', '&#xFFFFFFFFFFFFFFFFFF;', '&#x;', '&;', '&lt', '&LT;', '&quot;', '&apos;', '&QUOT;', '&Quot;', '&APOS;', '&Apos;', '&AMP;', '&Amp;', '&Lt;', '&GT;', '&Gt;', '&#X41;', '&quott;', '&apo;', '&am;', '&ampp;', '</A>', '</B>', ' B="c"', '&#x\u0664\u0661;', '\u0663', '\uff11']

INSERT = '<>&"\'=/;#x![]-? \n\r\t:.a1\x00\x08\x0b\x0c\x1f\x7f\x80\x85\x9f\xd7\u037e\u2028\ud800\udfff\ufdd0\ufdef\ufffe\uffff\U0001fffe\U000effff\U000f0000\U0010ffff\ufeff'

# Each place of the syntax, to be filled with each character
TEMPLATES = ['<a b={}v{}></a>', '<a b={}v{} c="w"></a>', '<a b={}v{}/>', '<a b={}></a>', '<a b={}v></a>', '<a b={}v"></a>', "<a b={}v'></a>", '<a b="v{}></a>', "<a b='v{}></a>", '<a b={}"v"></a>', "<a b{}'v'></a>", '<a b {} "v"></a>', '<a b="v"{}></a>',
             '<a b="v"{}c="w"></a>', "<a b='v' {}c='w'></a>", '<a b={}', '<a{}b="v"></a>', '<a {}b="v"></a>', '{}a></a>', '<{}></{}>', '<{}a></{}a>', '<a{}></a>', '<a{}></a{}>', '<a{}', '<a{}</a>', '<a><{}a>', '<a>{}/a>', '<a></a{}', '<a></a{}>', '<a></{}a>',
             '<a></a {}>', '<a {}></a>', '<a{}/>', '<a/{}', '<a/{}>', '<a {}/>', '<a></a>{}', '{}<a></a>', '<a>x{}y</a>', '<a b="{}"></a>', "<a b='{}'></a>", '<a>&amp{}</a>', '<a>{}amp;</a>', '<a>&{}amp;</a>', '<a>&{}</a>', '<a>&{};</a>', '<a b="&{};"></a>', '<a>&a{}p;</a>', '<a>&l{};</a>',
             '<a>&#{};</a>', '<a>&#{}41;</a>', '<a>&#x41{}</a>', '<a>&#x4{}1;</a>', '<a>&#x{};</a>', '<a>&{}x41;</a>', '<a>&#x41{};</a>', '<a b="&#{}41;"></a>', '<{}!--x--><a></a>', '<!{}-x--><a></a>', '<!-{}x--><a></a>', '<!--x{}-><a></a>', '<!--x-{}><a></a>', '<!--x--{}<a></a>', '<!--x--{}><a></a>',
             '<!--{}--><a></a>', '<a><!--{}x--></a>', '<a><!--x{}--></a>', '<a><!{}-x--></a>', '<a><!-{}x--></a>', '<a></a><!--{}-->', '<a></a><!{}x-->', '<?x y{}><a></a>', '<{}x y?><a></a>', '<a><?x{}?></a>', '<a>]]{}</a>', '<a>]]>{}</a>', '<!{}DOCTYPE a><a></a>', '<a><![{}CDATA[x]]></a>', '<a>{}</a><b></b>', '<a></a>{}<b></b>',
             '<a>{}', '{}', '{}{}', '<{}', '</{}>', '<a><b>{}</a></b>', '<a b="v" b{}="v"></a>', '<a b="v" {}="v"></a>', '<a {}="v" {}="w"></a>']
FILL = list(range(1, 128)) + [0x663, 0x966, 0xff11, 0xff21, 0xb2, 0x2460, 0x1d7d8, 0, 0x80, 0x85, 0xa0, 0xab, 0xbb, 0xd7, 0xe9, 0x300, 0x37e, 0x2018, 0x2019, 0x201c, 0x201d, 0x2028, 0x3000, 0xff02, 0xff07, 0xff1c, 0xff1d, 0xff1e, 0xff41, 0xfeff, 0xd800, 0xfffe, 0x1f600, 0x10ffff]


def complement(ranges):
    out, at = [], 0
    for lo, hi in sorted(ranges):
        if lo > at:
            out.append((at, lo - 1))
        at = max(at, hi + 1)
    if at <= 0x10FFFF:
        out.append((at, 0x10FFFF))
    return out

def split_blocks(ranges, n):
    return [(b, min(b + n - 1, hi)) for lo, hi in ranges for b in range(lo, hi + 1, n)]

BAD_CHARS = split_blocks(complement(gen.CHAR_RANGES), 256)
BAD_START = split_blocks(complement(gen.NAMESTART_RANGES), 512)
BAD_NAME = split_blocks(complement(gen.NAMESTART_RANGES + gen.NAME_EXTRA_RANGES), 512)


class Check(BaseCheck):
    id = 'P03'
    technique = 'fault injection into documents, with reference verdict & step-count monitor'
    level_note = 'Truncation at each position, each illegal code point in each position, mutations; acceptance by an independent reader is the oracle, & a logical step counter decides termination.'
    rule = ('Well-formed documents with 1-4 edits (insertion, deletion, replacement, duplication, transposition, of characters or tags), every truncation of small ones, random markup soup, each place of the syntax filled with each of some 150 characters, '
            'each code point not allowed in each of text, value, reference, name start & name; parsed whole, in fragments, or to a tree, against the verdict & events of an independent reader. '
            'Distinct by text; non-trivial: the verdict is a rejection, or acceptance of an edited document.')
    quick = {'large': 600, 'syntax': 2 * len(TEMPLATES), 'edit': 30000, 'truncate': 350, 'soup': 12000, 'badchar': len(BAD_CHARS), 'badstart': len(BAD_START), 'badname': len(BAD_NAME), 'big': 30}
    boost = 2
    thorough = {'large': 20000, 'syntax': 60 * len(TEMPLATES), 'edit': 1000000, 'truncate': 20000, 'soup': 700000, 'badchar': len(BAD_CHARS), 'badstart': len(BAD_START), 'badname': len(BAD_NAME), 'big': 1000}
    required = {'large_rejected': 300, 'rejected': 20000, 'syntax_filled': 20000, 'accepted': 1000, 'events_before_rejection': 10000, 'modes_parse': 100, 'modes_coroutine': 100, 'modes_fragments': 100, 'modes_tree': 100}
    assumptions = ['Left open (either verdict is accepted): white space right after < or </, no white space between attributes, noncharacters ending planes 1-14 in names']

    def worker_setup(self):
        from amara3.uxml import parser, tree
        self.parser, self.tree = parser, tree

    def observe(self, text, rng, mode, frags):
        """(events, error, tree)"""
        got, err, result = [], None, None
        def sink():
            while True:
                ev = yield
                got.append(conv_event(ev))
        try:
            if mode == 'parse':
                got.extend(conv_event(ev) for ev in self.parser.parse(text))
            elif mode == 'coroutine':
                p = self.parser.parser(sink())
                p.send((text, True))
                p.close()
            elif mode == 'fragments':
                p = self.parser.parser(sink())
                for f in frags:
                    p.send((f, False))
                p.send(('', True))
                p.close()
            elif mode == 'parsefrags':
                got.extend(conv_event(ev) for ev in self.parser.parsefrags(frags))
            else:
                result = self.tree.treebuilder().parse(text)
        except MemoryError as ex:
            raise Violation('memory exhausted parsing %r...' % text[:300], text=text[:3000])
        except Exception as ex:
            err = ex
        return got, err, result

    def judge(self, text, rng, what, modes=None):
        verdict, want = refuxml.read(text)
        mode = rng.choice(modes or ['parse', 'coroutine', 'fragments', 'parsefrags', 'tree'])
        frags = None
        if mode in ('fragments', 'parsefrags'):
            n = rng.choice([1, 2, 5, 20, len(text)])
            if n * len(text) > 200000: n = 3      # what is incomplete is read again with each fragment
            pts = sorted(rng.randint(0, len(text)) for _ in range(n)) if n < len(text) else list(range(1, len(text)))
            frags = [text[a:b] for a, b in zip([0] + pts, pts + [len(text)])]
        self.stats.case(text, True)
        self.stats.count('modes_' + mode)
        detail = dict(text=text[:3000], mode=mode, kind=what, fragments=frags and frags[:60])
        cost = len(text) * (len(frags) if frags else 1)
        got, err, result = bounded(lambda: self.observe(text, rng, mode, frags), cost, 'parsing', **detail)
        if mode == 'tree' and err is None and verdict != 'reject':
            # The same events, as a tree
            if not isinstance(result, self.tree.element):
                raise Violation('no tree for a well formed document', result=repr(result), **detail)
            top, stack = None, []
            for ev in want:
                if ev[0] == 's':
                    e = E(ev[1], ev[2])
                    if stack: stack[-1].children.append(e)
                    else: top = e
                    stack.append(e)
                elif ev[0] == 'c': stack[-1].children.append(ev[1])
                else: stack.pop()
            d = tree_diff(result, top, self.tree)
            if d: raise Violation('tree differs from the document: ' + d, **detail)
            self.stats.count('accepted')
            return
        if err is None:
            if verdict == 'reject':
                raise Violation('accepted though not well formed', events=got[:50], **detail)
            if got != want:
                raise Violation('wrong events for a well formed document', got=got[:50], expected=want[:50], **detail)
            self.stats.count('accepted')
        else:
            if verdict == 'accept':
                raise Violation('well formed document rejected: %r' % err, **detail)
            if got != want[:len(got)]:
                raise Violation('events before the rejection are not those of the document', got=got[:50], expected=want[:50], error=repr(err), **detail)
            self.stats.count('rejected')
            self.stats.count('events_before_rejection', len(got))
            self.stats.see('distinct_errors', str(err)[:28])

    def edit(self, rng, text):
        for _ in range(rng.choice([1, 1, 1, 2, 4])):
            at = rng.randint(0, len(text))
            if rng.random() < 0.6:
                hot = [i for i, c in enumerate(text) if c in '<>&;"\'=/']
                if hot: at = rng.choice(hot) + rng.randint(0, 1)
            r = rng.random()
            if r < 0.3: text = text[:at] + rng.choice(INSERT) + text[at:]
            elif r < 0.55: text = text[:at] + text[at+1:]
            elif r < 0.7: text = text[:at] + rng.choice(INSERT) + text[at+1:]
            elif r < 0.73:
                # Again & again
                text = text[:at] + text[at:at+1] * rng.choice([1, 2, 2, 3, 4, 7]) + text[at:]
            elif r < 0.78:
                b = min(len(text), at + rng.randint(1, 20))
                text = text[:b] + text[at:b] + text[b:]
            elif r < 0.8:
                # What belongs in another kind of tag
                import re
                ends = [m.end() - 1 for m in re.finditer('<[^<>]*>', text)]
                if not ends: continue
                at = rng.choice(ends)
                names = re.findall('[a-z][a-z0-9]*(?==)', text) + ['x', 'b']
                text = text[:at] + rng.choice([' %s="%s"', " %s='%s'", '/%.0s%.0s', ' %.1s%.0s', ' %s = "%s" ']) % (rng.choice(names), rng.choice(['', 'c', '&lt;'])) + text[at:]
            elif r < 0.82:
                # References to numbers near, beyond, or wrapping around to, those of characters
                n = rng.choice([0, 9, 10, 13, 0x20, 0x3c, 0x41, 0x7e, 0x7f, 0x80, 0x85, 0xa0, 0xd7ff, 0xd800, 0xdfff, 0xe000, 0xfdcf, 0xfdd0, 0xfffd, 0xfffe, 0x10000, 0x1f600, 0x1ffff, 0x10fffd, 0x10ffff]) + rng.choice([0, 0, 1])
                n += rng.choice([0, 0, 0, 1 << 16, 0x110000, 1 << 21, 1 << 24, 1 << 31, 1 << 32, 1 << 32, 1 << 40, 1 << 63, 1 << 64, 1 << 128]) * rng.choice([1, 1, 2, 16])
                digits = ('%x' if rng.random() < 0.5 else '%X') % n
                places = [m for m in range(len(text)) if text[m:m+1] in '>"\'<'] or [0]
                at = rng.choice(places) + rng.randint(0, 1)
                text = text[:at] + '&#x' + '0' * rng.choice([0, 0, 0, 1, 4, 8, 12, 30]) + digits + ';' + text[at:]
            elif r < 0.84: text = text[:at] + text[at+1:at+2] + text[at:at+1] + text[at+2:]
            elif r < 0.9: text = text[:at] + rng.choice(SOUP) + text[at:]
            elif r < 0.93:
                # Two, or all, occurrences of a character become another
                c, d = rng.choice(text or 'x'), rng.choice(INSERT + 'abc')
                if rng.random() < 0.5: text = text.replace(c, d)
                else:
                    i = text.find(c, at if text.find(c, at) >= 0 else 0)
                    text = text[:i] + text[i:].replace(c, d, 2)
            else:
                # Work on a whole tag
                import re
                tags = [m.span() for m in re.finditer('<[^<>]*>', text)]
                if not tags: continue
                a, b = rng.choice(tags)
                x = rng.random()
                if x < 0.3: text = text[:a] + text[b:]
                elif x < 0.55: text = text[:b] + text[a:b] + text[b:]
                elif x < 0.8:
                    c, d = rng.choice(tags)
                    if (c, d) != (a, b):
                        if c > a: a, b, c, d = c, d, a, b
                        text = text[:c] + text[a:b] + text[d:a] + text[c:d] + text[b:]
                else: text = text + text[a:b]
        return text

    def spoil_large(self, rng, e):
        """A document large in some respect, with a single fault anywhere"""
        import re
        r = rng.random()
        if r < 0.25:
            # An attribute again, however many ago it was
            t = max(e.walk(), key=lambda x: len(x.attrs)) if rng.random() < 0.7 else rng.choice(list(e.walk()))
            if not t.attrs: t.attrs = [('a', '1')]
            t.attrs = t.attrs + [(rng.choice(t.attrs)[0], rng.choice(['again', '', t.attrs[0][1]]))]
            return gen.render(rng, e)
        text = gen.render(rng, e)
        ends = [m for m in re.finditer('</([^<>]*)>', text)]
        m = rng.choice(ends)
        if r < 0.45:
            # Another end tag than expected
            name = m.group(1).rstrip()
            other = rng.choice([name + 'x', name[:-1], name.swapcase(), rng.choice(ends).group(1), 'zz', name + '.', name[:-1] + '0'])
            return text[:m.start(1)] + other + text[m.end(1):]
        if r < 0.6: return text[:m.start()] + text[m.end():]
        if r < 0.7: return text[:m.end()] + m.group() + text[m.end():]
        if r < 0.85:
            at = rng.randint(0, len(text))
            return text[:at] + rng.choice('<>&"\'\x00\x0b\x7f\ufffe\ud800\ufdd0\U0001ffff') + text[at:]
        if r < 0.92: return text[:rng.randint(0, len(text) - 1)]
        return self.edit(rng, text)

    def run_case(self, kind, index, rng):
        if kind == 'edit':
            e = gen.gen_doc(rng, max_elems=rng.choice([0, 1, 3, 8]), max_depth=5, text=lambda: gen.gen_text(rng, 0, 6), names=rng.choice([None, ['a', 'b'], ['a']]))
            text = gen.render(rng, e)
            for _ in range(3):
                self.judge(self.edit(rng, text), rng, kind)
        elif kind == 'large':
            e = gen.gen_large(rng, deep=rng.choice([100, 600]), text=30000, wide=2500)
            text = self.spoil_large(rng, e)
            self.judge(text, rng, kind, ['parse', 'coroutine', 'parsefrags', 'fragments', 'tree'] if gen.depth(e) < 200 else ['parse', 'coroutine'])
            if refuxml.read(text)[0] == 'reject': self.stats.count('large_rejected')
        elif kind == 'syntax':
            t = TEMPLATES[index % len(TEMPLATES)]
            for cp in FILL:
                self.judge(t.replace('{}', chr(cp)), rng, kind)
                self.stats.count('syntax_filled')
            for _ in range(120):
                # With two characters, or different ones, or one several times
                parts = t.split('{}')
                if rng.random() < 0.25:
                    c = chr(rng.choice(FILL))
                    if rng.random() < 0.7: c = rng.choice('<>&"\'=/;#x![]-?: ')
                    text = (c * rng.choice([2, 3, 3, 4, 5])).join(parts)
                elif rng.random() < 0.1:
                    # A character of the template itself repeated
                    text = t.replace('{}', rng.choice(['', '', ' ', 'a', '"']))
                    i = rng.randrange(len(text) or 1)
                    text = text[:i] + text[i:i+1] * rng.choice([1, 2, 3, 4]) + text[i:]
                else: text = parts[0] + ''.join(rng.choice(['', '', chr(rng.choice(FILL))]) + chr(rng.choice(FILL)) + p for p in parts[1:])
                self.judge(text, rng, kind)
                if rng.random() < 0.1: self.judge(''.join(rng.choice([' ', '\n', '\r', '\t', '\ufeff', '\ufeff', '<!---->']) for _ in range(rng.randint(1, 4))) + text, rng, kind)
        elif kind == 'truncate':
            e = gen.gen_doc(rng, max_elems=rng.choice([0, 1, 3]), max_depth=3, text=lambda: gen.gen_text(rng, 0, 3))
            text = gen.render(rng, e)[:300]
            for at in range(len(text) + 1):
                self.judge(text[:at], rng, kind)
            self.stats.count('documents_truncated_at_every_position')
        elif kind == 'soup':
            text = ''.join(rng.choice(SOUP) for _ in range(rng.randint(0, 14)))
            if rng.random() < 0.6: text = '<a>' + text
            if rng.random() < 0.6: text += '</a>'
            self.stats.sample(text, 2)
            self.judge(text, rng, kind)
        elif kind == 'badchar':
            lo, hi = BAD_CHARS[index]
            for cp in range(lo, hi + 1):
                if cp == 13: continue
                c = chr(cp)
                for text in ('<a>x%sy</a>' % c, '<a>%s</a>' % c, '<a b="x%s"></a>' % c, "<a b='%sx'></a>" % c, '<a>&#x%x;</a>' % cp, '<a b="&#x%X;"></a>' % cp, "<a b='&#x%X;'></a>" % cp):
                    self.judge(text, rng, kind)
                self.stats.count('code_points_forbidden_in_text')
        elif kind in ('badstart', 'badname'):
            lo, hi = (BAD_START if kind == 'badstart' else BAD_NAME)[index]
            step = 1 if hi < 0xF0000 or self.tier == 'thorough' else 97
            for cp in range(lo, hi + 1, step):
                c = chr(cp)
                if kind == 'badstart':
                    texts = ['<%sa>x</%sa>' % (c, c), '<a %sb="x"></a>' % c]
                else:
                    texts = ['<a%s>x</a%s>' % (c, c), '<a%sb>x</a%sb>' % (c, c), '<a b%s="x"></a>' % c]
                for text in texts:
                    self.judge(text, rng, kind, ['parse', 'coroutine', 'tree'])
                self.stats.count('code_points_forbidden_' + kind[3:])
        else:
            # Long inputs whose fault is late, or never ends
            n = rng.choice([1000, 5000, 20000])
            text = rng.choice(['<a>' + 'x' * n, '<a b="' + 'x' * n, '<a>' + '<b>' * (n // 10), '<a>' + '&' + 'l' * n, '<a>&#x' + '0' * n, '<' + 'a' * n, ' ' * n, '<a ' + 'b' * n, '<a' + ' ' * n,
                               '<a></a>' + ' ' * n + 'x', '<a></a>' + ' ' * n, '<a>' + '\r' * n, '<a>' + '&amp;' * n + '</b>', '<a>' + '<b></b>' * (n // 5), '<a ' + ' '.join('b%d="x"' % i for i in range(n // 20)) + ' b0="y"></a>'])
            self.judge(text, rng, kind)
