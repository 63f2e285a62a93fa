"""P02: incremental parsing does not depend on fragment boundaries, and is prompt"""
import bisect
from vlib.common import BaseCheck, Violation, bounded
from vlib import gen, refuxml
from vlib.amara import conv_event
from vlib.gen import E
from checks.p01 import first_diff


def cut(text, points):
    points = sorted(points)
    return [text[a:b] for a, b in zip([0] + points, points + [len(text)])]


class Feed:
    """One incremental parse, with its monitor"""
    def __init__(self, parser, text, events, positions, detail):
        self.got = []
        self.text, self.events, self.positions, self.detail = text, events, positions, detail
        def sink():
            while True:
                ev = yield
                self.got.append(conv_event(ev))
        self.h = sink()
        self.p = parser.parser(self.h)
        self.fed = 0
        self.checked = 0

    def send(self, frag, done=False):
        self.fed += len(frag)
        try:
            self.p.send((frag, done))
        except Exception as ex:
            raise Violation('fragmented document rejected: %r' % ex, fed=self.text[:self.fed][-300:], **self.detail)
        due = bisect.bisect_right(self.positions, self.fed)
        n = len(self.got)
        if n != due:
            raise Violation('event %s' % ('delivered late' if n < due else 'ahead of its completion'), fed=self.text[:self.fed][-300:], delivered=n, due=due,
                            extra=self.got[due:due+2], missing=self.events[n:n+2], **self.detail)
        if self.got[self.checked:] != self.events[self.checked:due]:
            i, g, w = first_diff(self.got, self.events)
            raise Violation('events depend on the fragments', event=i, got=g, expected=w, **self.detail)
        self.checked = due

    def end(self):
        self.p.close()
        if len(self.got) != len(self.events):
            raise Violation('events missing at the end', got=self.got[-2:], expected=self.events[-2:], **self.detail)


class Check(BaseCheck):
    id = 'P02'
    technique = 'online monitor of event promptness under all/random fragmentations'
    level_note = 'Each event is checked as it arrives against what a reference reader says the input so far completes; every single cut of small documents, random cuts & parser interleavings of others.'
    rule = ('Random documents in random spellings: every position of the small ones as sole split, one character at a time, tens of thousands of fragments, runs of text & values of up to 140 KB, documents large in any respect, random splits with empty fragments, biased to the inside of '
            'references, tags & line ends; interleaved feeding of 2-5 parsers in random order. After each fragment the events delivered must be just those whose last character has been fed. '
            'Distinct by (text, split); non-trivial: at least 2 fragments & 2 events.')
    quick = {'large': 300, 'many': 24, 'long': 600, 'everysplit': 900, 'random': 9000, 'interleave': 900}
    boost = 2
    thorough = {'large': 10000, 'many': 800, 'long': 20000, 'everysplit': 30000, 'random': 300000, 'interleave': 30000}
    required = {'large': 200, 'many': 20, 'max_fragments_of_one_document': 12000, 'fragments': 100000, 'positions_cut_text': 50, 'positions_cut_tag': 50, 'positions_cut_value': 50, 'positions_cut_reference': 50, 'positions_cut_crlf': 5, 'long_runs': 500}
    assumptions = ['Ground truth is the generator\'s model; positions of completion are from an independent reader']

    def worker_setup(self):
        from amara3.uxml import parser
        self.parser = parser

    def doc(self, rng, small=False):
        if small:
            e = gen.gen_doc(rng, max_elems=rng.choice([0, 1, 3]), max_depth=3, text=lambda: gen.gen_text(rng, 0, 4, exotic=0.8))
        else:
            e = gen.gen_doc(rng, max_elems=rng.choice([3, 10, 30]), max_depth=6)
        text = gen.render(rng, e, refs=rng.choice([0.05, 0.4]))
        verdict, events, positions = refuxml.read_positions(text)
        want = gen.events_of(e)
        assert verdict == 'accept' and events == want, (verdict, text, e)
        return text, events, positions

    def classify(self, text, at):
        """What the split is within, for the record"""
        if 0 < at < len(text):
            if text[at-1] == '\r' and text[at] == '\n': self.stats.count('positions_cut_crlf')
            back = text[:at]
            lt, gt = back.rfind('<'), back.rfind('>')
            amp, semi = back.rfind('&'), back.rfind(';')
            if amp > semi: self.stats.count('positions_cut_reference')
            if lt > gt:
                seg = back[lt:]
                q = next((c for c in seg if c in '"\''), None)
                self.stats.count('positions_cut_value' if q and (seg.count(q) % 2) else 'positions_cut_tag')
            else: self.stats.count('positions_cut_text')

    def one_feed(self, text, events, positions, points, rng):
        frags = cut(text, points)
        detail = dict(text=text[:2000], split=[f for f in frags][:60])
        self.stats.case((text, tuple(points)), len(frags) > 1 and len(events) > 2)
        self.stats.count('fragments', len(frags))
        mode = rng.randrange(3)
        def go():
            if mode == 2:
                arg = rng.choice([list, tuple, iter])(frags)
                try:
                    got = [conv_event(ev) for ev in list(self.parser.parsefrags(arg))]
                except Exception as ex:
                    raise Violation('parsefrags() rejects a well formed document: %r' % ex, **detail)
                if got != events:
                    i, g, w = first_diff(got, events)
                    raise Violation('events depend on the fragments (parsefrags)', event=i, got=g, expected=w, **detail)
                return
            f = Feed(self.parser, text, events, positions, detail)
            for i, frag in enumerate(frags):
                f.send(frag, done=(mode == 1 and i == len(frags) - 1))
            if mode == 0:
                f.send('', True)
            f.end()
        bounded(go, len(text) * (len(frags) + 1), 'incremental parse', **detail)

    def run_case(self, kind, index, rng):
        if kind == 'everysplit':
            text, events, positions = self.doc(rng, small=True)
            if len(text) > 400:
                text, events, positions = self.doc(rng, small=True)
            for at in range(0, min(len(text), 600) + 1):
                self.classify(text, at)
                self.one_feed(text, events, positions, [at], rng)
            if len(text) < 2500: self.one_feed(text, events, positions, list(range(1, len(text))), rng)
            self.stats.count('documents_split_at_every_position')
            self.stats.sample(text[:200], 2)
        elif kind in ('large', 'many'):
            if kind == 'large': e = gen.gen_large(rng)
            else:
                # As many fragments as characters, of something of short pieces
                e = gen.gen_large(rng, wide=3000, attrs=40, text=0, name=0, value=0, words=lambda: gen.gen_text(rng, 0, 6)[:20])
                while gen.size(e) < 1500: e.children.append(gen.gen_doc(rng, max_elems=40, max_depth=5, text=lambda: gen.gen_text(rng, 0, 6)[:20]))
                e = E('all', [], [e])
            text = gen.render(rng, e, refs=rng.choice([0, 0.02]))
            if kind == 'many' and len(text) > 60000:
                # Too much for so many fragments
                for x in e.walk(): x.name = x.name[:3]; x.attrs = [(k, v) for k, v in x.attrs if len(k) < 8]
                text = gen.render(rng, e)
            verdict, events, positions = refuxml.read_positions(text)
            assert verdict == 'accept'
            if kind == 'large':
                points = sorted(rng.randint(0, len(text)) for _ in range(rng.choice([1, 2, 3, 8])))
                if rng.random() < 0.5: points = list(range(n := rng.choice([512, 1024, 4096, 8192, 65536]), len(text), n))[-40:]
            else:
                points = list(range(1, len(text), rng.choice([1, 1, 2, 3])))[-80000:]
            self.one_feed(text, events, positions, points, rng)
            self.stats.count(kind)
            self.stats.maximum('fragments_of_one_document', len(points) + 1)
        elif kind == 'long':
            # Runs of text & values of several KB, in fragments that are large or many
            n = rng.choice([1100, 4097, 5000, 9000, 17000, 66000, 140000])
            run = lambda: gen.gen_text(rng, 1, 20) * (n // 10) if rng.random() < 0.4 else rng.choice(['x', 'ab ', '\n', 'y\n', '\u20ac', '\U0001f600', ' ']) * n
            e = E('a', [('k', run()[:n])] if rng.random() < 0.4 else [], [run()[:n], E('b', [], ['t']), run()[:rng.choice([5, n])]])
            text = gen.render(rng, e, refs=rng.choice([0, 0, 0.001]))
            verdict, events, positions = refuxml.read_positions(text)
            assert verdict == 'accept' and events == gen.events_of(e)
            k = rng.choice([1, 1, 2, 3, 6])
            self.one_feed(text, events, positions, sorted(rng.randint(0, len(text)) for _ in range(k)), rng)
            self.stats.count('long_runs')
        elif kind == 'random':
            text, events, positions = self.doc(rng)
            if len(text) > 6000:
                n = rng.randint(1, 12)
            else:
                n = rng.choice([1, 2, 3, 6, 15, 40])
            points = []
            hot = [i for i, c in enumerate(text) if c in '&;<>\r"\'=/#']
            for _ in range(n):
                at = rng.randint(0, len(text)) if rng.random() < 0.5 or not hot else min(len(text), rng.choice(hot) + rng.randint(0, 1))
                points.append(at)
                if rng.random() < 0.15: points.append(at)      # empty fragment
                self.classify(text, at)
            self.one_feed(text, events, positions, sorted(points), rng)
        else:
            feeds = []
            for k in range(rng.randint(2, 5)):
                text, events, positions = self.doc(rng, small=rng.random() < 0.5)
                text = text[:]
                n = rng.randint(1, 10)
                frags = cut(text, [rng.randint(0, len(text)) for _ in range(n)])
                feeds.append([Feed(self.parser, text, events, positions, dict(text=text[:2000], split=frags[:60], interleaved=k)), frags])
            self.stats.case(tuple(f.text for f, _ in feeds))
            order = []
            live = list(range(len(feeds)))
            def go():
                while live:
                    k = rng.choice(live)
                    order.append(k)
                    f, frags = feeds[k]
                    if frags:
                        f.send(frags.pop(0))
                        self.stats.count('fragments')
                    else:
                        f.send('', True)
                        f.end()
                        live.remove(k)
            bounded(go, sum(len(f.text) for f, _ in feeds) * 12, 'interleaved parse')
            self.stats.see('interleavings', tuple(order))
