"""P04: the tree mirrors the document; a builder can be reused after anything"""
from vlib.common import BaseCheck, Violation
from vlib import gen, refuxml
from vlib.gen import E
from vlib.amara import tree_diff


def copy_e(e):
    return E(e.name, e.attrs, [copy_e(c) if isinstance(c, E) else c for c in e.children])


class Check(BaseCheck):
    id = 'P04'
    technique = 'runtime tree-invariant monitor over histories of parses'
    level_note = 'Trees are compared with the generating model after every step of histories of valid & invalid parses & mutations; sampled.'
    rule = ('Histories of 6-20 operations over several MicroXML & XML builders and the module functions: parses of random documents (often the same again), of broken ones (truncations, edits), '
            'and mutations of trees obtained earlier. After each operation every tree alive is compared with its own model, parent links & xml_value of every node included. '
            'Documents large in any respect; hundreds of parses by one builder. Distinct by sequence of documents & operations; non-trivial: at least 3 trees & a failed parse or a mutation.')
    quick = {'history': 2600, 'single': 8000, 'large': 300, 'often': 24, 'deep': 60}
    boost = 4
    thorough = {'large': 10000, 'often': 800, 'history': 90000, 'single': 200000, 'deep': 2000}
    required = {'large': 200, 'max_parses_by_one_builder': 1000, 'trees': 10000, 'failed_parses': 1500, 'mutations': 1500, 'reuse_after_failure': 800, 'nodes_compared': 100000}
    assumptions = ['XML documents are limited to what is also MicroXML; see P08 for the rest']

    def worker_setup(self):
        from amara3 import uxml
        from amara3.uxml import tree, xml
        self.uxml, self.tree, self.xml = uxml, tree, xml

    def check_tree(self, top, model, what, **detail):
        d = tree_diff(top, model, self.tree)
        if d:
            raise Violation('%s: %s' % (what, d), **detail)
        # xml_value, bottom up, of each node
        todo = [(top, model)]
        while todo:
            el, e = todo.pop()
            self.stats.count('nodes_compared')
            if el.xml_value != gen.value(e):
                raise Violation('%s: xml_value %r rather than %r' % (what, el.xml_value[:200], gen.value(e)[:200]), **detail)
            if len(todo) < 60:
                todo.extend((k, c) for k, c in zip(el.xml_children, e.children) if isinstance(c, E))

    def broken(self, rng, text, xml):
        for _ in range(20):
            r = rng.random()
            if r < 0.5: t = text[:rng.randint(0, max(0, len(text.rstrip()) - 1))]
            elif r < 0.65: t = text + rng.choice(['x', '<a></a>', '</a>'])
            elif r < 0.75: t = text.replace('</', '<', 1)
            elif r < 0.85: t = '<a b="1" b="2">' + text + '</a>'
            elif r < 0.95: t = '<a>' + text + '&nosuch;</a>'
            else: t = '<a>' + text + '<b></c></a>'
            if refuxml.read(t)[0] == 'reject':
                return t
        return '<a>'

    def mutate(self, rng, top, model):
        """A change to the tree and the same to the model"""
        nodes = [(top, model)]
        for el, e in nodes:
            if len(nodes) < 200:
                nodes.extend((k, c) for k, c in zip(el.xml_children, e.children) if isinstance(c, E))
        el, e = rng.choice(nodes)
        r = rng.random()
        if r < 0.3:
            k, v = gen.gen_name(rng), gen.gen_text(rng)
            el.xml_attributes[k] = v
            d = dict(e.attrs); d[k] = v
            e.attrs = list(d.items())
        elif r < 0.4:
            el.xml_attributes.clear(); e.attrs = []
        elif r < 0.6:
            n = gen.gen_name(rng)
            el.xml_append(self.tree.element(n)); e.children.append(E(n))
        elif r < 0.75:
            el.xml_insert('new text', 0); e.children.insert(0, 'new text')
        elif r < 0.85 and len(e.children):
            i = rng.randrange(len(e.children))
            el.xml_remove(el.xml_children[i]); e.children.pop(i)
        else:
            el.xml_name = e.name = gen.gen_name(rng)
        self.stats.count('mutations')

    def run_case(self, kind, index, rng):
        if kind == 'deep':
            n = rng.randint(50, 200)
            e = gen.chain([rng.choice('abc') for _ in range(n)], 'x')
            text = gen.render_xml(rng, e)
            for p in (self.tree.parse, self.uxml.parse, self.tree.treebuilder().parse, self.xml.treebuilder().parse):
                self.check_tree(p(text), e, 'deep', depth=n)
            self.stats.case(text)
            return
        if kind == 'large':
            e = gen.gen_large(rng, xml=True, text=60000)
            text = gen.render_xml(rng, e)
            ps = [(self.tree.parse, 'tree.parse'), (self.uxml.parse, 'uxml.parse'), (self.tree.treebuilder().parse, 'treebuilder')]
            # A text of more than that need not be one node by way of XML
            if max([len(c.encode()) for x in e.walk() for c in x.children if isinstance(c, str)] or [0]) < 8000: ps.append((self.xml.treebuilder().parse, 'xml.treebuilder'))
            for p, name in rng.sample(ps, 2):
                top = p(text)
                self.check_tree(top, e, name, text=text[:2000])
                if self.tree.strval(top) != gen.value(e): raise Violation('strval() differs', text=text[:2000])
                self.stats.count('trees')
            self.stats.count('large')
            self.stats.case(text)
            return
        if kind == 'often':
            # The same builder time and again
            name, b = rng.choice([('treebuilder', self.tree.treebuilder()), ('xml.treebuilder', self.xml.treebuilder())])
            n = rng.choice([130, 300, 1100])
            kept = []
            docs = [gen.gen_doc(rng, max_elems=rng.choice([0, 2, 5]), xml=True, text=lambda: gen.gen_text(rng, 0, 5)) for _ in range(12)]
            texts = [gen.render_xml(rng, e) for e in docs]
            for i in range(n):
                k = rng.randrange(len(docs))
                if rng.random() < 0.1:
                    try: b.parse(self.broken(rng, texts[k], False))
                    except Exception: pass
                    else: raise Violation('%s returns a tree for a document not well formed' % name, parses=i)
                top = b.parse(texts[k])
                self.check_tree(top, docs[k], '%s, parse %d' % (name, i), text=texts[k][:2000])
                if rng.random() < 0.1: kept.append((top, docs[k], i))
                if kept and rng.random() < 0.3:
                    t, e, j = rng.choice(kept)
                    self.check_tree(t, e, '%s, tree of parse %d after parse %d' % (name, j, i))
            self.stats.maximum('parses_by_one_builder', n)
            self.stats.case((name, n, tuple(texts)))
            return
        if kind == 'single':
            e = gen.gen_doc(rng, max_elems=rng.choice([3, 20, 60]))
            text = gen.render(rng, e)
            p, name = rng.choice([(self.tree.parse, 'tree.parse'), (self.uxml.parse, 'uxml.parse'), (self.tree.treebuilder().parse, 'treebuilder')])
            top = p(text)
            self.stats.count('trees')
            self.stats.case(text, gen.size(e) > 2)
            self.check_tree(top, e, name, text=text[:2000])
            if self.tree.strval(top) != gen.value(e):
                raise Violation('strval() differs', text=text[:2000])
            return
        builders = [('tree.treebuilder', self.tree.treebuilder()) for _ in range(rng.randint(1, 2))] + [('xml.treebuilder', self.xml.treebuilder()) for _ in range(rng.randint(1, 2))]
        after_failure = set()
        live = []       # (tree, model, where from)
        log = []
        docs = []
        fails = muts = 0
        for _ in range(rng.randint(6, 20)):
            r = rng.random()
            b = rng.randrange(len(builders) + 2)
            if b < len(builders):
                name, builder = builders[b]
                parse = builder.parse
            else:
                name, parse = ('uxml.parse', self.uxml.parse) if b == len(builders) else ('tree.parse', self.tree.parse)
            xml = name == 'xml.treebuilder'
            if docs and rng.random() < 0.4:
                e = rng.choice(docs)
            else:
                e = gen.gen_doc(rng, max_elems=rng.choice([0, 2, 8]), xml=True, text=lambda: gen.gen_text(rng, 0, 6))
                docs.append(e)
            text = gen.render_xml(rng, e)
            if r < 0.55 or not live:
                log.append((name, b, 'parse', text[:300]))
                top = parse(text)
                live.append((top, copy_e(e), name))
                self.stats.count('trees')
                self.stats.count('trees_' + name)
                if b in after_failure:
                    self.stats.count('reuse_after_failure')
                    after_failure.discard(b)
            elif r < 0.8:
                text = self.broken(rng, text, xml)
                log.append((name, b, 'broken', text[:300]))
                fails += 1
                after_failure.add(b)
                self.stats.count('failed_parses')
                try:
                    top = parse(text)
                except Exception as ex:
                    pass
                else:
                    raise Violation('%s returns %r for a document not well formed' % (name, top), text=text[:2000], log=log)
            elif r < 0.95:
                i = rng.randrange(len(live))
                log.append(('mutate', i))
                muts += 1
                self.mutate(rng, live[i][0], live[i][1])
            else:
                i = rng.randrange(len(live))
                log.append(('drop', i))
                live.pop(i)
            for i, (top, model, where) in enumerate(live):
                self.check_tree(top, model, 'tree %d (%s)' % (i, where), log=log)
        self.stats.case(repr(log), len(live) >= 3 and (fails or muts))
        self.stats.sample([l[:4] for l in log][:5], 1)
