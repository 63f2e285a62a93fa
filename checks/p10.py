"""P10: trees are freed when dropped and streaming stays within bounded memory"""
import gc, io, re, sys, weakref
from vlib.common import BaseCheck, Violation, Inconclusive
from vlib import gen, xpathref as X, patterns, htmlgen, xmlgen
from vlib.gen import E
from vlib.amara import build, model_of, tree_diff
from checks.p11 import xtree

NAME_PAT = re.compile('[ab]')


class Check(BaseCheck):
    id = 'P10'
    technique = 'weak-reference monitor with the cyclic collector off; census of live nodes while streaming'
    level_note = 'Weak references to every node of a tree, watched as references are dropped after histories of use, with the cyclic collector off; while streaming, a census of live elements (gc.get_objects) at deliveries & reads against the exact bound. Sampled histories & documents.'
    rule = ('kind drop: trees from each parser (module functions, fresh & reused builders, after failures), used by random histories of mutation, detaching, serialization, queries (whole, abandoned, kept expressions & results), utilities & make_pretty, then dropped whole, in detached parts, '
            'or but for a held descendant, whose ancestors must go & whose subtree must stay. kind stream: documents of up to thousands of elements, matching or not, through treeiter & xmliter senders with 1-3 patterns and sinks which retain some; census at deliveries & file reads. Distinct by history; non-trivial: more than 3 nodes.')
    quick = {'reuse': 2500, 'drop': 30000, 'stream': 500}
    boost = 2.5
    thorough = {'reuse': 60000, 'drop': 600000, 'stream': 8000}
    required = {'reused': 5000, 'reused_while_held': 2000, 'large_trees': 100, 'nodes_freed': 150000, 'detached_freed': 4000, 'held_child': 8000, 'held_top': 1000, 'queried': 5000, 'abandoned_queries': 500, 'abandoned_utilities': 500, 'source_html': 300, 'source_xml': 800, 'subtrees_gone': 20000, 'census': 1500, 'streamed_elements': 60000, 'after_failure': 300, 'results_held': 500, 'homes_dropped': 200, 'failed_builders': 200}
    assumptions = ['a builder is a reference to the tree it built last, a sender one to the subtree delivered last', 'html5iter has to build the whole tree first, so the bound for streaming is not about it']

    def worker_setup(self):
        import amara3.uxml
        from amara3.uxml import tree, treeutil, uxpath, xml, html5, treeiter, xmliter
        from amara3.uxml.uxpath import xast
        self.uxml, self.tree, self.tu, self.uxpath, self.xml, self.html5, self.treeiter, self.xmliter, self.xast = amara3.uxml, tree, treeutil, uxpath, xml, html5, treeiter, xmliter, xast
        html5.parse('<p>x')     # Whatever html5lib sets up once
        gc.collect()
        gc.disable()

    def nodes(self, top):
        out, stack = [], [top]
        while stack:
            x = stack.pop()
            out.append(x)
            if isinstance(x, self.tree.element): stack.extend(x.xml_children)
        return out

    def make(self, rng):
        """A tree nobody but the caller refers to"""
        tree = self.tree
        src = rng.choice(['uxml', 'uxml', 'tree', 'builder', 'builder', 'xml', 'xml', 'built', 'html'])
        e = gen.gen_doc(rng, max_elems=rng.choice([1, 4, 10, 30]), max_depth=rng.choice([2, 4, 8]), names=['a', 'b', 'c'], attr_names=['i', 'k'], text=lambda: rng.choice(['x', 'y', ' ', '1']), attr_p=0.3, text_p=0.5, xml=True)
        if rng.random() < 0.008:
            e = gen.gen_large(rng, xml=True, wide=800, deep=120, text=5000, names=['a', 'b', 'c'], attr_names=['i', 'k'], words=lambda: rng.choice(['x', 'y', ' ', '1']))
            self.stats.count('large_trees')
        self.stats.count('source_' + src)
        if src == 'html':
            return src, self.html5.parse(htmlgen.soup(rng) if rng.random() < 0.7 else htmlgen.nested(rng))
        if src == 'xml':
            b = self.xml.treebuilder()
            if rng.random() < 0.3:
                try: b.parse('<a><b>x</b><c>')
                except Exception: self.stats.count('after_failure')
            return src, b.parse(gen.render_xml(rng, e, plain=True))
        if src == 'built': return src, build(e, tree)
        doc = gen.render(rng, e, plain=True)
        if src == 'uxml': return src, self.uxml.parse(doc)
        if src == 'tree': return src, tree.parse(doc)
        b = tree.treebuilder()
        for _ in range(rng.choice([0, 1, 2])):
            try:
                if rng.random() < 0.5: b.parse('<a><b>x</b><c>')
                else: b.parse('<a>x<b/></a>')
            except Exception: self.stats.count('after_failure')
        return src, b.parse(doc)

    def use(self, rng, top, log, kept):
        """Something done to the tree; returns what has been detached. kept: where references may be held for a while"""
        tree = self.tree
        els = [n for n in self.nodes(top) if isinstance(n, tree.element)]
        e = rng.choice(els)
        r = rng.random()
        if r < 0.3:
            src = rng.choice(['//a', '/', '//*', '//text()', '//@*', 'a|b', '//a|//b', 'count(//node())', '//a/..', 'b/ancestor::*', '//b[1]', '//*[@i]', 'string(/)', '//a[following-sibling::b]', '//text()/..', '/a', '/*', "for-each(//*, 'name()')", '//*[. = "x"]/preceding::node()', '//@i/..',
                              '/|//a', '(/)/a', '//b/ancestor-or-self::node()', '/node()'])
            expr = self.exprs.setdefault(src, None)
            if expr is None: expr = self.exprs[src] = self.uxpath.parse(src)
            how = rng.randrange(4)
            node = rng.choice(self.nodes(top)) if rng.random() < 0.3 and how != 3 else e
            if node is top and how == 0: how = 1
            if how == 0: it = node.xml_xpath(src if rng.random() < 0.5 else expr)
            elif how == 1: it = self.uxpath.qquery(node, expr)
            elif how == 2: it = expr.compute(self.uxpath.context(node, force_root=rng.random() < 0.5))
            else: it = self.uxpath.qquery(e, src)
            part = rng.random() < 0.25
            got = []
            for item in it:
                got.append(item)
                if part: break
            log.append('query' + (' in part' if part else ''))
            self.stats.count('queried')
            if part: self.stats.count('abandoned_queries')
            if rng.random() < 0.2:
                kept.append((it, got))
                self.stats.count('results_held')
        elif r < 0.4:
            f = rng.randrange(6)
            if f == 0: top.xml_encode()
            elif f == 1: e.xml_encode(indent='  ')
            elif f == 2: e.xml_write(io.StringIO())
            elif f == 3: e.xml_value
            elif f == 4: self.tree.strval(e)
            else:
                from amara3.uxml import writer
                writer.write(e, writer.raw(fp=io.StringIO()))
            log.append('serialize')
        elif r < 0.55:
            f = rng.randrange(10)
            if f > 5:
                # Left off part of the way
                src = rng.choice([lambda: e, lambda: self.tu.descendants(top), lambda: iter(self.nodes(top))])()
                it = [lambda: self.tu.select_name(src, 'a'), lambda: self.tu.select_value(src, 'x'), lambda: self.tu.select_attribute(src, 'i'), lambda: self.tu.select_attribute(src, 'i', '1'), lambda: self.tu.select_elements(src),
                      lambda: self.tu.select_name_pattern(src, NAME_PAT)][rng.randrange(6)]()
                for _ in range(rng.choice([0, 1, 1, 2])):
                    if next(it, None) is None: break
                else: self.stats.count('abandoned_utilities')
                if rng.random() < 0.2: kept.append((it, []))
                src = it = None
            elif f == 0: list(self.tu.descendants(e))
            elif f == 1: list(self.tu.select_pattern(top, ('**', rng.choice('abc'))))
            elif f == 2: next(self.tu.descendants(top), None)
            elif f == 3: list(self.tu.select_name(e, 'a')); list(self.tu.select_value(e, 'x')); list(self.tu.select_attribute(self.tu.descendants(e), 'i'))
            elif f == 4: next(self.tu.select_pattern(e, ('*',)), None)
            else:
                if e.xml_children: list(self.tu.following_siblings(rng.choice(e.xml_children)))
            log.append('utility')
        elif r < 0.6:
            self.tu.make_pretty(e)
            log.append('pretty')
        elif r < 0.8:
            k = rng.choice(['txt', tree.element('new', {'i': '1'}), tree.element('a')])
            if rng.random() < 0.5: e.xml_append(k)
            else: e.xml_insert(k, rng.randint(0, len(e.xml_children)))
            log.append('insert')
        elif len(els) > 1:
            k = rng.choice([n for n in self.nodes(top) if n is not top])
            p = k.xml_parent
            p.xml_remove(k)
            if rng.random() < 0.4:
                # Put back elsewhere in the same tree
                rng.choice([n for n in self.nodes(top) if isinstance(n, tree.element)]).xml_append(k) if isinstance(k, tree.element) else None
                log.append('move')
            else:
                log.append('detach')
                return k
        return None

    def run_case(self, kind, index, rng):
        if kind == 'stream': return self.stream(rng)
        if kind == 'reuse': return self.reuse(rng)
        tree = self.tree
        self.exprs = {}
        src, top = self.make(rng)
        log, kept, detached = [src], [], []
        watched = {}
        def watch(t):
            for n in self.nodes(t): watched[id(n)] = weakref.ref(n)
        for _ in range(rng.choice([0, 1, 3, 8])):
            watch(top)
            d = self.use(rng, top, log, kept)
            if d is not None: detached.append(d)
        watch(top)
        for d in detached: watch(d)
        d = None
        text = top.xml_encode()[:800]
        detail = lambda: dict(history=list(log), tree=text)
        refs = list(watched.values())
        def alive(refs): return [r() for r in refs if r() is not None]
        n0 = len(refs)
        # Results held must not do more than hold the nodes they refer to; drop them first
        kept.clear()
        # Detached parts
        for _ in range(len(detached)):
            d = detached.pop()
            mine = [weakref.ref(n) for n in self.nodes(d)]
            if d.xml_parent is not None: raise Violation('detached node has a parent', **detail())
            d = None
            left = alive(mine)
            if left: raise Violation('%d of %d nodes of a detached part still alive after it was dropped: %r' % (len(left), len(mine), left[:3]), referrers=self.referrers(left[0]), **detail())
            self.stats.count('detached_freed')
        mine = [weakref.ref(n) for n in self.nodes(top)]
        mode = rng.random()
        if mode < 0.25:
            # Held top keeps all alive
            m = model_of(top, tree)
            total = sum(1 for _ in mine)
            d = tree_diff(top, m, tree)
            if d or len(alive(mine)) != total: raise Violation('part of a held tree is gone', **detail())
            inner = self.nodes(top)[-1]
            inner = None
            if any(r() is None for r in mine): raise Violation('part of a held tree is gone', **detail())
            self.stats.count('held_top')
        if mode < 0.6 and len(mine) > 1:
            # A child does not keep its parent alive, but does its own subtree
            held = rng.choice(self.nodes(top)[1:])
            below = [weakref.ref(n) for n in self.nodes(held)]
            ids = {id(n) for n in self.nodes(held)}
            others = [weakref.ref(n) for n in self.nodes(top) if id(n) not in ids]
            hm = model_of(held, tree) if isinstance(held, tree.element) else None
            if rng.random() < 0.3 and isinstance(held, tree.element): list(held.xml_xpath(rng.choice(['ancestor::*', '/', '//a', '..', '//*|..'])))
            top = None
            left = alive(others)
            if left: raise Violation('%d nodes kept alive by a descendant or sibling which is held: %r' % (len(left), left[:3]), held=repr(held), referrers=self.referrers(left[0]), **detail())
            if any(r() is None for r in below): raise Violation('part of a held subtree is gone', **detail())
            if held.xml_parent is not None: raise Violation('a parent out of nowhere', **detail())
            if hm is not None:
                d = tree_diff(held, hm, tree)
                if d: raise Violation('held subtree: ' + d, **detail())
                # It is now a tree of its own
                got = list(held.xml_xpath('/*'))
                if len(got) != 1 or got[0] is not held: raise Violation('held subtree is not the top of its tree', **detail())
                got = None
            held = None
            left = alive(below)
            if left: raise Violation('%d nodes of a held subtree still alive after it was dropped' % len(left), referrers=self.referrers(left[0]), **detail())
            self.stats.count('held_child')
        top = None
        left = alive(refs)
        if left: raise Violation('%d of %d nodes still alive after the tree was dropped: %r' % (len(left), n0, left[:3]), referrers=self.referrers(left[0]), **detail())
        self.stats.count('nodes_freed', n0)
        self.stats.case((tuple(log), text), n0 > 3)
        if index < 3: self.stats.sample([log, n0])
        if index % 50 == 0: gc.collect()

    def reuse(self, rng):
        """A builder used again & again is a reference to no tree but the one it built last"""
        tree = self.tree
        which = rng.choice(['tree', 'xml'])
        b = tree.treebuilder() if which == 'tree' else self.xml.treebuilder()
        watching = rng.random() < 0.2
        base = self.census() if watching else 0
        held, past = [], []       # (tree, model); weak references by document, not held
        log = []
        for i in range(rng.randint(2, 9)):
            e = gen.gen_doc(rng, max_elems=rng.choice([0, 3, 10]), max_depth=5, names=['a', 'b'], attr_names=['i'], text=lambda: rng.choice(['x', ' ']), xml=True)
            doc = gen.render(rng, e, plain=True) if which == 'tree' else gen.render_xml(rng, e, plain=True)
            if rng.random() < (0.5 if watching else 0.15):
                try: b.parse(doc[:rng.randint(0, len(doc) - 1)])
                except Exception: pass
                log.append('failed')
                self.stats.count('after_failure')
                continue
            top = b.parse(doc)
            log.append('parsed')
            detail = dict(document=doc[:800], builder=which, history=log)
            d = tree_diff(top, e, tree)
            if d: raise Violation('a builder used before gives another tree: ' + d, **detail)
            # Any other one which nobody holds is gone by now
            for refs in past:
                left = [r() for r in refs if r() is not None]
                if left: raise Violation('%d of %d nodes of a tree dropped are alive after the builder has been used again' % (len(left), len(refs)), referrers=self.referrers(left[0]), **detail)
                self.stats.count('reused')
            past = []
            refs = [weakref.ref(n) for n in self.nodes(top)]
            if rng.random() < 0.3:
                held.append((top, e, refs))
                self.stats.count('reused_while_held')
            else: past.append(refs)
            top = None
            for t, m, _ in held:
                d = tree_diff(t, m, tree)
                if d: raise Violation('a tree held changed as the builder was used again: ' + d, **detail)
            if len(held) > 2:
                t, m, refs = held.pop(0)
                t = None
                past.append(refs)
        past += [refs for _, _, refs in held]
        del held[:]
        b = t = top = None
        for refs in past:
            left = [r() for r in refs if r() is not None]
            if left: raise Violation('%d nodes alive though builder and trees were dropped' % len(left), referrers=self.referrers(left[0]), builder=which, history=log)
        if watching and 'failed' in log:
            # Nor does anything of the documents it failed on stay behind
            e = doc = refs = m = None
            more = self.census() - base
            self.stats.count('failed_builders')
            if more: raise Violation('%d elements alive though builder and trees were dropped' % more, builder=which, history=log)
        self.stats.case((which, tuple(log)), len(log) > 2)

    def referrers(self, node):
        out = []
        for r in gc.get_referrers(node):
            if isinstance(r, (dict, list, tuple)) or type(r).__name__ in ('cell', 'generator', 'frame'):
                out.append('%s %s' % (type(r).__name__, repr(r)[:150]))
        return out[:6]

    def census(self):
        return sum(isinstance(o, self.tree.element) for o in gc.get_objects())

    def stream(self, rng):
        """Long documents. The census is exact: subtrees in progress & those delivered last, by pattern, plus what is retained"""
        n = rng.choice([200, 1000, 4000])
        style = rng.choice(['flat', 'nested', 'mixed', 'none', 'big'])
        # document: root with many records, & other elements never matched
        rec = lambda: E('rec', [('i', str(rng.randint(0, 99)))], [E('f', (), ['x']) for _ in range(rng.randint(0, 4))] + ([E('rec', (), ['in'])] if style == 'mixed' and rng.random() < 0.3 else []))
        parts = []
        total = 1
        kids = []
        while total < n:
            if style in ('flat', 'mixed'): k = rec() if rng.random() < 0.6 else E('other', (), [E('g'), 'text'])
            elif style == 'nested': k = gen.chain([rng.choice(['sec', 'rec']) for _ in range(rng.randint(1, 12))])
            elif style == 'none': k = E('other', (), [E('g', (), ['y']) for _ in range(rng.randint(0, 5))])
            else: k = E('rec', (), [E('f', (), ['x']) for _ in range(rng.choice([1, 50]))])
            total += sum(1 for _ in k.walk())
            kids.append(k)
            if rng.random() < 0.3: kids.append('\n')
        e = E('doc', (), kids)
        pats = [rng.choice([('doc', 'rec'), ('**', 'rec'), ('*', 'rec', 'f'), ('**', 'f'), ('doc', ('rec', 'sec')), ('doc', 'nosuch'), ('**', 'g')]) for _ in range(rng.choice([1, 1, 2, 3]))]
        biggest = [max([sum(1 for _ in x.walk()) for x in patterns.outermost(e, p)] or [0]) for p in pats]
        retain = rng.choice([0, 0, 3, 10])
        doc = gen.render_xml(rng, e, plain=True)
        base = self.census()
        bound = sum(2 * b for b in biggest)
        every = max(1, n // 25)
        problems, seen = [], [0]
        held = [[] for _ in pats]
        def look(extra):
            c = self.census() - base
            self.stats.count('census')
            self.stats.maximum('live', c)
            if c > bound + extra: problems.append('%d elements alive; at most %d for subtrees in progress and delivered last, & %d retained' % (c, bound, extra))
        def retained(): return sum(sum(1 for x in self.nodes(t) if isinstance(x, self.tree.element)) for h in held for t in h)
        gens = [[] for _ in pats]
        # Some sinks move what they get into another tree, which they drop every now and then
        adopt = rng.random() < 0.25
        if adopt: retain = 3
        dropped = []
        def sink(i):
            while True:
                t = yield
                seen[0] += 1
                # What was delivered before the last one, unless retained, is gone: element by element
                g = gens[i]
                j = len(g) - max(2, retain + 1)
                if j >= 0:
                    left = [r() for r in g[j] if r() is not None]
                    if left: problems.append('%d elements of a subtree delivered earlier are still alive: %r' % (len(left), left[0]))
                    left = None
                    g[j] = ()
                    self.stats.count('subtrees_gone')
                g.append([weakref.ref(x) for x in self.nodes(t) if isinstance(x, self.tree.element)])
                if adopt:
                    left = [r() for r in dropped if r() is not None]
                    if left: problems.append('the tree a sink moved subtrees to is still alive, though dropped: %r' % left[0])
                    left = None
                    if not held[i]: held[i].append(self.tree.element('home'))
                    held[i][0].xml_append(t)
                    if len(held[i][0].xml_children) >= 3:
                        dropped.append(weakref.ref(held[i].pop()))
                        self.stats.count('homes_dropped')
                    if len(dropped) > 50: del dropped[:40]
                elif retain:
                    held[i].append(t)
                    if len(held[i]) > retain: held[i].pop(0)
                else: t = None
                if seen[0] % every == 1:
                    # The one just delivered & the one before may both be around, besides those retained
                    look(retained())
                t = None
        sinks = [sink(i) for i in range(len(pats))]
        detail = dict(document=doc[:600], elements=total, patterns=pats, retain=retain)
        how = rng.choice(['treeiter', 'xmliter', 'file', 'file'])
        try:
            if how == 'treeiter': self.treeiter.sender(pats, sinks).parse(doc)
            elif how == 'xmliter': self.xmliter.sender(pats, sinks).parse(doc)
            else:
                data, check = doc.encode('utf-8'), self
                reads = [0]
                class F(io.BytesIO):
                    def read(s, k=-1):
                        reads[0] += 1
                        if reads[0] % max(1, len(data) // 2000 // 10) == 0: look(retained())
                        return io.BytesIO.read(s, min(k, 2000) if k > 0 else 2000)
                self.xmliter.sender(pats, sinks).parse_file(F(data))
        except Exception as ex:
            raise Violation('failed: %r' % ex, **detail)
        if problems: raise Violation(problems[0], **detail)
        gens = None
        for h in held: h.clear()
        sinks = None
        gc.collect() if False else None
        c = self.census() - base
        # Parsers & generators may be in cycles of their own; what they hold on to is the subtree last delivered
        if c > bound: raise Violation('%d elements alive after the end, at most %d expected' % (c, bound), **detail)
        self.stats.count('streamed_elements', total)
        self.stats.case((how, style, tuple(pats), total), total > 3)
        gc.collect()
