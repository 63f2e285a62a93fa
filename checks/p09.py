"""P09: streaming senders deliver each matching subtree exactly once, complete, in order"""
import io
from vlib.common import BaseCheck, Violation
from vlib import gen, xmlgen, htmlgen, patterns, refuxml
from vlib.gen import E
from vlib.amara import tree_diff, model_of
from checks.p06 import merge


def ends(e):
    """Order of the end tags, by id of model element"""
    order = {}
    stack = [(e, None)]
    while stack:
        x, it = stack.pop()
        if it is None: it = iter([c for c in x.children if isinstance(c, E)])
        for c in it:
            stack.append((x, it)); stack.append((c, None))
            break
        else:
            order[id(x)] = len(order)
    return order


def shape(pattern):
    return tuple('(' if isinstance(p, tuple) else p if p in ('*', '**') else 'n' for p in pattern)


class Check(BaseCheck):
    id = 'P09'
    technique = 'online monitor on sink deliveries vs. reference matcher, with document faults'
    level_note = 'Every delivery is compared on arrival with the reference matches; order, completeness & fault cut-offs; sampled.'
    rule = ('Random documents over few, recurring names, 1-4 patterns (names, alternatives, *, **; most derived from a path in the document, some equal or overlapping), through treeiter, xmliter (str, bytes, file, XML '
            'features) & html5iter (tag soup included). All deliveries go to one event log; each is compared, on arrival & at the end, with the model; their order must be that of the end tags. '
            'Sinks which take deliveries apart; senders used again; documents broken off, before which just the complete matches must have been delivered. '
            'Some with thousands of deliveries, tens of patterns, long ones. Distinct by document & patterns; non-trivial: something is delivered.')
    quick = {'uxml': 9000, 'xml': 5000, 'html': 1500, 'fault': 6000, 'large': 300}
    boost = 6
    thorough = {'uxml': 300000, 'xml': 150000, 'html': 40000, 'fault': 200000, 'large': 10000}
    required = {'max_deliveries': 1000, 'max_patterns': 10, 'max_pattern_length': 20, 'deliveries': 10000, 'pattern_with_any_until': 1500, 'pattern_with_alternatives': 1500, 'several_patterns': 2000, 'overlapping_deliveries': 500, 'deliveries_before_fault': 500,
                'fault_during_subtree': 200, 'sinks_mutating': 500, 'sinks_adopting': 500, 'reused': 500, 'reused_after_fault': 500, 'with_callbacks': 1000}
    assumptions = ['HTML is compared with the tree by html5.parse (which P18 is about)', 'xmliter senders are given the document in one piece or as file']

    def worker_setup(self):
        from amara3.uxml import tree, treeiter, xmliter, html5iter, html5, xml
        self.xml = xml
        self.tree, self.treeiter, self.xmliter, self.html5iter, self.html5 = tree, treeiter, xmliter, html5iter, html5

    def check_one(self, el, want, exact, what, detail, parent=None):
        d = tree_diff(el, want, self.tree, exact_text=exact, attr_order=False, parent=parent)
        if d: raise Violation('%s: %s' % (what, d), **detail)

    def run(self, cls, e, pats, feed, rng, exact, detail, complete=None, sender=None):
        """complete: how many end tags precede a fault (None: there is none)"""
        order = ends(e)
        want = [patterns.outermost(e, p) for p in pats]
        log = []                    # (pattern, element) as they come
        spoil = [rng.random() < 0.15 for _ in pats]
        if any(spoil): self.stats.count('sinks_mutating')
        # Some move what they get into a tree of their own, which must get nothing else
        adopt = [not sp and rng.random() < 0.2 for sp in spoil]
        if any(adopt): self.stats.count('sinks_adopting')
        home = self.tree.element('home')
        homes = [home if rng.random() < 0.5 else self.tree.element('home') for _ in pats]
        problems = []
        def sink(i):
            n = 0
            while True:
                el = yield
                log.append((i, el))
                try:
                    if n >= len(want[i]):
                        raise Violation('pattern %r: delivery number %d, of %r, though there are only %d matches' % (pats[i], n + 1, el, len(want[i])), **detail)
                    self.check_one(el, want[i][n], exact, 'pattern %r, on delivery' % (pats[i],), detail)
                    if complete is not None and order[id(want[i][n])] >= complete:
                        raise Violation('pattern %r: delivery of a subtree which is not complete' % (pats[i],), **detail)
                except Violation as v:
                    problems.append(v)
                if spoil[i]:
                    todo = [el]
                    while todo:
                        x = todo.pop()
                        todo += [k for k in x.xml_children if isinstance(k, self.tree.element)]
                        for k in list(x.xml_children): x.xml_remove(k)
                        x.xml_attributes.clear()
                        x.xml_attributes['spoilt'] = x.xml_name = 'spoilt'
                    el.xml_append('spoilt')
                elif adopt[i]:
                    homes[i].xml_insert(el, rng.choice([-1, 0]))
                n += 1
        sinks = [sink(i) for i in range(len(pats))]
        # Ways to say the same
        prime = rng.random() < 0.8
        one_for_all = len(pats) > 1 and rng.random() < 0.2
        # Which of them are to have the one sink
        mine = () if not one_for_all else range(len(pats)) if rng.random() < 0.5 else rng.sample(range(len(pats)), rng.randint(2, len(pats)))
        for i, s in enumerate(sinks):
            if not prime or i in mine: next(s)
        a_pats, a_sinks = list(pats), sinks
        if one_for_all:
            # One coroutine for all patterns, or some of them
            def shared():
                due = sorted((order[id(x)], i) for i, w in enumerate(want) for x in w if i in mine)
                n = 0
                while True:
                    el = yield
                    sinks[due[n][1] if n < len(due) else 0].send(el)
                    n += 1
            one = shared()
            if not prime: next(one)
            else: self.stats.count('one_sink_to_prime')
            a_sinks = [one if i in mine else s for i, s in enumerate(sinks)]
            self.stats.count('one_sink_for_all')
        if rng.random() < 0.3: a_sinks = tuple(a_sinks)
        if len(pats) == 1 and isinstance(pats[0][0], str) and rng.random() < 0.7:
            a_pats = pats[0]
            if rng.random() < 0.7: a_sinks = sinks[0]
        kw = {} if prime else {'prime_sinks': False}
        if cls is self.xmliter.sender and rng.random() < 0.3:
            kw['callbacks'] = self.xml.ns_expat_callbacks if rng.random() < 0.7 else self.xml.expat_callbacks
            self.stats.count('with_callbacks')
        s = cls(a_pats, a_sinks, **kw)
        def go():
            err = None
            try:
                feed(s)
            except Exception as ex:
                err = ex
            if problems: raise problems[0]
            return err
        err = go()
        if complete is None and err is not None:
            raise Violation('failed: %r' % err, **detail)
        if complete is not None and err is None and detail.get('must_fail'):
            raise Violation('no exception for a document which is broken', **detail)
        due = [[x for x in w if complete is None or order[id(x)] < complete] for w in want]
        for i, w in enumerate(due):
            got = [el for j, el in log if j == i]
            if len(got) != len(w):
                raise Violation('pattern %r: %d deliveries rather than %d' % (pats[i], len(got), len(w)), got=[g.xml_name for g in got][:30], expected=[x.name for x in w][:30], **detail)
            if not spoil[i]:
                for el, x in zip(got, w):
                    self.check_one(el, x, exact, 'pattern %r, after the end' % (pats[i],), detail, homes[i] if adopt[i] else None)
        for h in {id(h): h for h in homes}.values():
            moved = [id(el) for i, el in log if adopt[i] and homes[i] is h]
            if sorted(map(id, h.xml_children)) != sorted(moved):
                raise Violation('the sinks moved %d subtrees into a tree of theirs, which now has %d children' % (len(moved), len(h.xml_children)), **detail)
        # In the order in which they are completed, across all sinks
        at = [0] * len(pats)
        seq = []
        for i, el in log:
            seq.append(order[id(due[i][at[i]])]); at[i] += 1
        if seq != sorted(seq):
            raise Violation('deliveries to different sinks are not in the order in which subtrees end', order=seq, **detail)
        self.stats.count('overlapping_deliveries', len(seq) - len(set(seq)))
        self.stats.count('deliveries', len(log))
        self.stats.maximum('deliveries', len(log))
        self.stats.maximum('patterns', len(pats))
        self.stats.maximum('pattern_length', max(map(len, pats)))
        # Independent trees
        tops = [el for _, el in log]
        if len(set(map(id, tops))) != len(tops): raise Violation('the same element was delivered twice', **detail)
        if complete is not None: self.stats.count('deliveries_before_fault', len(log))
        return s, log, order, want

    def pats(self, rng, e, names):
        n = rng.choice([1, 1, 1, 2, 2, 3, 4])
        out = [patterns.gen_pattern(rng, e, names) for _ in range(n)]
        if n > 1 and rng.random() < 0.3: out[-1] = out[0]
        for p in out:
            self.stats.count('pattern_with_any_until', '**' in p)
            self.stats.count('pattern_with_alternatives', any(isinstance(s, tuple) for s in p))
            self.stats.see('pattern_shapes', shape(p))
        if n > 1: self.stats.count('several_patterns')
        return out

    def run_large(self, rng):
        names = rng.choice([['a'], ['a', 'b'], ['a', 'b', 'c'], ['n%d' % i for i in range(gen.log_int(rng, 3, 60))]])
        e = gen.gen_large(rng, xml=True, wide=3000, deep=120, attrs=60, text=6000, names=names, attr_names=names[:3], words=lambda: rng.choice(['x', 'y', ' ']))
        els = list(e.walk())
        pats = []
        for _ in range(rng.choice([1, 1, 2, 5, 20])):
            x = rng.random()
            if x < 0.3: p = rng.choice([('**', rng.choice(names)), ('*', '*'), (e.name, '*'), (e.name, rng.choice(names)), ('**', tuple(names))])
            else: p = patterns.gen_pattern(rng, e, names)
            pats.append(p)
        if rng.random() < 0.3:
            # As deep as can be
            path, x = [e], e
            while [c for c in x.children if isinstance(c, E)]:
                x = max((c for c in x.children if isinstance(c, E)), key=lambda c: sum(1 for _ in zip(range(50), c.walk())))
                path.append(x)
            path = path[:rng.randint(1, len(path))]
            pats[-1] = tuple(rng.choice([y.name, y.name, y.name, '*', (y.name, 'q')]) for y in path)
        xml = rng.random() < 0.4
        src = gen.render_xml(rng, e) if xml else gen.render(rng, e)
        detail = dict(document=src[:2000], patterns=pats)
        # Runs past the buffer of expat's come in pieces
        exact = not xml or all(len(c) < 2000 for x in els for c in x.children if isinstance(c, str))
        feed = lambda s: s.parse(src)
        if xml and rng.random() < 0.5:
            src = src.encode('utf-8')
            exact, feed = False, lambda s: s.parse_file(io.BytesIO(src))
        s, log, _, _ = self.run(self.xmliter.sender if xml else self.treeiter.sender, e, pats, feed, rng, exact, detail)
        self.stats.case((src, repr(pats)), bool(log))
        if not xml and rng.random() < 0.1:
            # Again & again
            small = [gen.gen_doc(rng, max_elems=4, max_depth=3, names=names[:3]) for _ in range(3)]
            got = []
            def sink():
                while True:
                    got.append((yield))
            p = ('**', names[0])
            s = self.treeiter.sender(p, sink())
            n = gen.log_int(rng, 30, 1500)
            for i in range(n):
                d = small[i % 3]
                s.parse(gen.render(rng, d, plain=True))
                want = patterns.outermost(d, p)
                if len(got) != len(want): raise Violation('a sender used again, for the document number %d, gives %d rather than %d' % (i, len(got), len(want)), pattern=p, document=gen.render(rng, d, plain=True))
                for el, x in zip(got, want): self.check_one(el, x, True, 'sender used again', detail)
                got.clear()
            self.stats.count('reused')

    def run_case(self, kind, index, rng):
        if kind == 'large': return self.run_large(rng)
        names = rng.choice([['a'], ['a', 'b'], ['a', 'b', 'c'], ['a', 'b', 'c', 'd', 'e']])
        text = (lambda: gen.gen_text(rng, 0, 4)) if rng.random() < 0.5 else (lambda: rng.choice(['x', 'y', ' ']))
        e = gen.gen_doc(rng, max_elems=rng.choice([3, 10, 30]), max_depth=rng.choice([3, 6, 10]), names=names, text=text, text_p=rng.choice([0.1, 0.4]), attr_p=0.2, xml=True)
        if kind == 'uxml':
            src = gen.render(rng, e)
            pats = self.pats(rng, e, names)
            detail = dict(document=src[:2000], patterns=pats)
            s, log, _, _ = self.run(self.treeiter.sender, e, pats, lambda s: s.parse(src), rng, True, detail)
            self.stats.case((src, repr(pats)), bool(log))
            self.stats.sample([src[:150], repr(pats)], 2)
            if rng.random() < 0.3:
                # The same sender, another document
                e2 = gen.gen_doc(rng, max_elems=8, max_depth=5, names=names, text=text)
                got = []
                def sink():
                    while True:
                        got.append((yield))
                p = pats[0]
                s = self.treeiter.sender([p], [sink()])
                docs = [e2, e, e2]
                for d in docs:
                    if rng.random() < 0.3:
                        # What is broken off has no effect on what comes next
                        bad = gen.render(rng, d, plain=True)
                        bad = bad[:rng.randint(0, len(bad) - 1)] + rng.choice(['', '<', '</zz>', '&x;'])
                        n = len(got)
                        try: s.parse(bad)
                        except Exception: self.stats.count('reused_after_fault')
                        del got[n:]
                    s.parse(gen.render(rng, d))
                want = [x for d in docs for x in patterns.outermost(d, p)]
                if len(got) != len(want): raise Violation('a sender used again gives %d rather than %d' % (len(got), len(want)), **detail)
                for el, x in zip(got, want): self.check_one(el, x, True, 'sender used again', detail)
                self.stats.count('reused')
        elif kind == 'xml':
            exact = True
            if rng.random() < 0.5:
                src = gen.render_xml(rng, e)
                if rng.random() < 0.3: src = src.encode('utf-8')
            else:
                doc = xmlgen.make(rng, rng.choice([4, 15]))
                src, e, exact = doc.source, doc.model, not doc.misc_inside
                names = list({x.name for x in e.walk()})
            pats = self.pats(rng, e, names)
            how = rng.choice(['parse', 'file', 'slow file'])
            if isinstance(src, str) and how != 'parse': src = gen.render_xml(rng, e).encode('utf-8'); exact = True
            def feed(s):
                if how == 'parse': s.parse(src)
                elif how == 'file': s.parse_file(io.BytesIO(src))
                else:
                    class Slow(io.RawIOBase):
                        def __init__(self): self.at = 0
                        def read(self, n=-1):
                            m = rng.randint(1, 40) if n < 0 or n > 40 else n
                            self.at += m
                            return src[self.at - m:self.at]
                    s.parse_file(Slow())
            detail = dict(document=src[:2000], patterns=pats, how=how)
            if how == 'slow file': exact = False
            s, log, _, _ = self.run(self.xmliter.sender, e, pats, feed, rng, exact, detail)
            self.stats.case((src, repr(pats)), bool(log))
        elif kind == 'html':
            src = htmlgen.soup(rng) if rng.random() < 0.6 else htmlgen.nested(rng)
            e = merge(model_of(self.html5.parse(src), self.tree))
            names = list({x.name for x in e.walk()})[:6]
            pats = self.pats(rng, e, names)
            detail = dict(document=src[:2000], patterns=pats)
            s, log, _, _ = self.run(self.html5iter.sender, e, pats, lambda s: s.parse(src), rng, False, detail)
            self.stats.case((src, repr(pats)), bool(log))
        else:
            # The document is broken off, or goes wrong, after some number of end tags
            xml = rng.random() < 0.4
            src = gen.render_xml(rng, e, plain=True)
            pats = self.pats(rng, e, names)
            at = rng.randint(1, len(src) - 1)
            bad = src[:at]
            r = rng.random()
            if r < 0.6: bad += rng.choice(['</zz>', '<', '&nosuch;', '<1>', '</', '\x00', '<a b="1" b="2">', '<a b=c>'])
            verdict, events = refuxml.read(bad)
            if verdict != 'reject': return
            complete = sum(ev[0] == 'e' for ev in events)
            opened = sum(ev[0] == 's' for ev in events)
            if opened == 0: return
            detail = dict(document=bad[:2000], patterns=pats, by='xmliter' if xml else 'treeiter', must_fail=not xml)
            cls = self.xmliter.sender if xml else self.treeiter.sender
            if xml:
                # Of its own accord expat may see an end tag which is fine & what comes after that differently; only where both agree
                import xml.parsers.expat as X
                n = [0]
                p = X.ParserCreate()
                def end(_): n[0] += 1
                p.EndElementHandler = end
                try: p.Parse(bad)
                except X.ExpatError: pass
                complete = n[0]
                detail.pop('must_fail')
            want = [patterns.outermost(e, p) for p in pats]
            order = ends(e)
            if any(order[id(x)] >= complete for w in want for x in w): self.stats.count('fault_during_subtree')
            s, log, _, _ = self.run(cls, e, pats, lambda s: s.parse(bad), rng, True, detail, complete=complete)
            self.stats.case((bad, repr(pats)), bool(log))
