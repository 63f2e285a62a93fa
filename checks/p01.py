"""P01: MicroXML parse reports exactly what the document says"""
from vlib.common import BaseCheck, Violation, bounded
from vlib import gen
from vlib.gen import E
from vlib.amara import conv_event

BLOCK = 2048

def blocks(ranges):
    out = []
    for lo, hi in ranges:
        for b in range(lo, hi + 1, BLOCK):
            out.append((b, min(b + BLOCK - 1, hi)))
    return out

CHAR_BLOCKS = blocks(gen.CHAR_RANGES)
START_BLOCKS = blocks(gen.NAMESTART_RANGES)
NAME_BLOCKS = blocks(gen.NAMESTART_RANGES + gen.NAME_EXTRA_RANGES)


def first_diff(got, want):
    for i, (g, w) in enumerate(zip(got, want)):
        if g != w:
            return i, g, w
    return min(len(got), len(want)), got[len(want):len(want)+1], want[len(got):len(got)+1]


class Check(BaseCheck):
    id = 'P01'
    technique = 'monitor on the event stream vs. generated ground truth'
    level_note = 'Every delivered event is compared with the document model the text was rendered from, & with an independent reader; sampled, not exhaustive, over documents & spellings.'
    rule = ('Random documents (names, attributes & text over ASCII, markup, boundary & arbitrary MicroXML characters) in random spellings, whose events are known by '
            'construction; documents large in number of children, depth, attributes, length of names, texts & values; all code points MicroXML allows, in blocks, in text, both kinds of attribute values, as references & in names. Non-trivial: at least 3 events; distinct by text.')
    quick = {'doc': 40000, 'large': 500, 'deep': 60, 'long': 40, 'chars': len(CHAR_BLOCKS), 'starts': len(START_BLOCKS), 'names': len(NAME_BLOCKS)}
    boost = 1.6
    thorough = {'doc': 600000, 'large': 20000, 'deep': 1500, 'long': 1000, 'chars': len(CHAR_BLOCKS), 'starts': len(START_BLOCKS), 'names': len(NAME_BLOCKS)}
    required = {'large': 400, 'events': 100000, 'documents': 5000}
    assumptions = ['The generator\'s own model of the document is the ground truth; comments & empty-element tags are not generated']

    def worker_setup(self):
        from amara3.uxml import parser
        self.parser = parser

    def observe(self, text, spoil=False):
        """Events by way of the coroutine, snapshot at the time of delivery"""
        got, raw = [], []
        def sink():
            while True:
                ev = yield
                got.append(conv_event(ev))
                raw.append(ev)
                if spoil:
                    # What the consumer does with its event is its own business
                    for part in ev[2:]:
                        if isinstance(part, (dict, list)):
                            part.clear()
        h = sink()
        p = self.parser.parser(h)
        p.send((text, True))
        p.close()
        return got, raw

    def judge(self, e, text, rng, what):
        want = gen.events_of(e)
        self.stats.case(text, len(want) > 2)
        self.stats.count('documents')
        self.stats.count('events', len(want))
        self.stats.count('characters', len(text))
        mode = rng.randrange(3)
        try:
            if mode == 0:
                # Events are kept until the end, so later ones must not have affected earlier ones
                got = [conv_event(ev) for ev in list(bounded(lambda: list(self.parser.parse(text)), len(text), 'parse()', text=text[:3000]))]
            elif mode == 1:
                got, raw = bounded(lambda: self.observe(text), len(text), 'parser()', text=text[:3000])
                late = [conv_event(ev) for ev in raw]
                if late != got:
                    i, g, w = first_diff(late, got)
                    raise Violation('an event was altered after its delivery', text=text[:3000], index=i, at_delivery=w, later=g)
            else:
                got, raw = bounded(lambda: self.observe(text, spoil=True), len(text), 'parser()', text=text[:3000])
        except Violation:
            raise
        except Exception as ex:
            raise Violation('well formed document rejected: %r' % ex, text=text[:3000], case=what)
        self.stats.count('mode%d' % mode)
        if got != want:
            i, g, w = first_diff(got, want)
            raise Violation('events differ from the document', text=text[:3000], event=i, got=g, expected=w, mode=mode, case=what)

    def run_case(self, kind, index, rng):
        if kind == 'doc':
            e = gen.gen_doc(rng, max_elems=rng.choice([2, 6, 25, 60]), max_depth=rng.choice([3, 8, 20]))
            text = gen.render(rng, e, refs=rng.choice([0, 0.05, 0.3, 1.0]))
            self.stats.sample(text[:200], 2)
            self.judge(e, text, rng, kind)
        elif kind == 'large':
            # Past any limit there could be on lengths & numbers of anything
            e = gen.gen_large(rng, deep=rng.choice([200, 200, 1200]))
            text = gen.render(rng, e, refs=rng.choice([0, 0, 0.01, 0.3]), plain=rng.random() < 0.3)
            self.stats.count('large')
            self.judge(e, text, rng, kind)
        elif kind == 'deep':
            n = rng.randint(50, 400)
            names = [gen.gen_name(rng) for _ in range(5)]
            e = gen.chain([rng.choice(names) for _ in range(n)], gen.gen_text(rng, 1, 5) or 'x')
            self.stats.maximum('depth', n)
            self.judge(e, gen.render(rng, e), rng, kind)
        elif kind == 'long':
            n = rng.choice([5000, 20000, 70000])
            t = ''.join(gen.gen_char(rng) for _ in range(n))
            e = E('a', [('b', t[:rng.randint(0, n)])], [t])
            if rng.random() < 0.5:
                e = E('r', [], [E(rng.choice('xyz'), [], [c] if c else []) for c in t[:3000]])
            self.judge(e, gen.render(rng, e), rng, kind)
        elif kind == 'chars':
            lo, hi = CHAR_BLOCKS[index]
            s = ''.join(map(chr, range(lo, hi + 1)))
            for c in s: self.stats.counters['code_points_chars'] = self.stats.counters.get('code_points_chars', 0) + 1
            e = E('a', [('d', s), ('s', s)], [s])
            esc = lambda q: ''.join('&' + gen.NAMED[c] + ';' if c in '<>&' + q else c for c in s)
            self.judge(e, '<a d="%s" s=\'%s\'>%s</a>' % (esc('"'), esc("'"), esc('')), rng, kind)
            refs = ''.join('&#x%X;' % c for c in range(lo, hi + 1))
            self.judge(E('a', [('b', s)], [s]), '<a b="%s">%s</a>' % (refs, refs), rng, kind)
        elif kind == 'starts':
            lo, hi = START_BLOCKS[index]
            self.stats.count('code_points_starts', hi - lo + 1)
            e = E('a', [(chr(c), 'v') for c in range(lo, hi + 1)], [E(chr(c)) for c in range(lo, hi + 1)])
            self.judge(e, gen.render(rng, e, plain=True), rng, kind)
        elif kind == 'names':
            lo, hi = NAME_BLOCKS[index]
            self.stats.count('code_points_names', hi - lo + 1)
            n = 'a' + ''.join(map(chr, range(lo, hi + 1)))
            e = E(n, [(n, 'v')], [])
            self.judge(e, gen.render(rng, e, plain=True), rng, kind)
