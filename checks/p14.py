"""P14: queries are pure and always reflect the current tree"""
from vlib.common import BaseCheck, Violation
from vlib import gen, xpathref as X
from vlib.amara import build, snapshot
from checks.p11 import xtree
from checks.p13 import same_results


def string(v): return ('true' if v else 'false') if isinstance(v, bool) else str(v)

# Expressions of variables & functions (!) of any value, & theirs
REBOUND = [('$v', ['v'], lambda b: b['v']), ('f()', ['!f'], lambda b: b['!f']), ('name()', ['!name'], lambda b: b['!name']), ('count(//*)', ['!count'], lambda b: b['!count']), ('string-length("abc")', ['!string-length'], lambda b: b['!string-length']),
           ('concat($v, $w)', ['v', 'w'], lambda b: string(b['v']) + string(b['w'])), ('concat(f(), $v)', ['!f', 'v'], lambda b: string(b['!f']) + string(b['v'])), ('concat(f(), g(), f())', ['!f', '!g'], lambda b: string(b['!f']) + string(b['!g']) + string(b['!f'])),
           ('string(true())', ['!true'], lambda b: string(b['!true'])), ('boolean($v) and boolean(f())', ['v', '!f'], lambda b: bool(b['v']) and bool(b['!f'])), ('concat(string(f()), "-", $v)', ['!f', 'v'], lambda b: string(b['!f']) + '-' + string(b['v'])),
           ('f($v, g())', ['v', '!f', '!g'], lambda b: b['!f']), ('concat(last(), $last)', ['!last', 'last'], lambda b: string(b['!last']) + string(b['last']))]


class Check(BaseCheck):
    id = 'P14'
    technique = 'history monitor: queries interleaved with mutations, reference evaluation on the current tree, snapshots for purity'
    level_note = 'Histories of queries (whole, abandoned, interleaved generators, kept & fresh expressions, by every entry point) & mutations; each result is compared with a reference evaluation over a model taken at that moment, and snapshots by identity, variables & serializations before & after.'
    rule = ('Histories of 5-40, some of up to 500 steps over a forest of 1-4 trees: mutations (append, insert, remove, move within and between trees, attach a whole tree, detach, attributes & names set, children list edited), queries with a pool of kept expressions or fresh text from any node, '
            'by qquery, xml_xpath & contexts (reused too, also, like attributes a query gave, after mutations), with shared variables & functions; kind twins: expressions & documents which are all but the same as others just evaluated (white space, case or quotes in literals, a digit, a token), by every entry point, in turns; generators left part-consumed & resumed after other queries, or dropped after a mutation. Distinct by history of step kinds & result sizes.')
    quick = {'history': 5000, 'interleave': 4000, 'long': 60, 'twins': 2200}
    boost = 4
    thorough = {'history': 180000, 'interleave': 120000, 'long': 2000, 'twins': 80000}
    required = {'twins': 15000, 'twins_apart': 4000, 'twin_documents': 4000, 'rebound': 3000, 'kept_attribute': 1500, 'kept_context': 500, 'max_steps': 500, 'queries': 20000, 'queries_after_mutation': 8000, 'absolute_after_move': 500, 'generators_resumed': 2000, 'generators_abandoned': 1000, 'expressions_reused': 5000, 'contexts_reused': 500, 'snapshots': 5000}
    assumptions = ['a generator is not expected to make sense of mutations while it is under way; it is only dropped then']

    rebound = None

    def worker_setup(self):
        from amara3.uxml import tree, uxpath
        from amara3.uxml.uxpath import xast
        from amara3.uxml.uxpath.functions import BUILTIN_FUNCTIONS
        self.tree, self.uxpath, self.xast, self.builtins = tree, uxpath, xast, BUILTIN_FUNCTIONS
        # Root nodes of other trees, some tens of them, are at hand all the time
        self.held = [next(uxpath.qquery(tree.parse('<held></held>'), '/')) for _ in range(60)]

    def all_nodes(self, tops):
        out = []
        for t in tops:
            root, ids = X.model(t, self.tree)
            out.extend(X.axis_nodes(root, 'descendant-or-self'))
        return out

    def state(self, tops, vars, funcs, pool):
        return ([snapshot(t, self.tree) for t in tops], list(vars.items()), list(map(id, vars.values())), list(funcs), [self.xast.serialize(p) for p, _, _ in pool], sorted(self.builtins))

    def start(self, expr, node, how, vars, funcs, ctx_out=None):
        kw = dict(vars=vars, funcs=funcs)
        if node.kind == 'root': obj = node.kids[0].obj
        else:
            obj = node.obj
            if node.parent.kind == 'root': how = 'context'
        if how == 'qquery': return iter(self.uxpath.qquery(obj, expr, **kw))
        if how == 'xpath': return iter(obj.xml_xpath(expr, **kw))
        c = self.uxpath.context(obj, variables=vars, functions=funcs, force_root=node.kind == 'root')
        if ctx_out is not None: ctx_out.append(c)
        return iter((self.uxpath.parse(expr) if isinstance(expr, str) else expr).compute(c))

    def twin(self, rng, src):
        """An expression close to the one given"""
        src = src or "."
        i = rng.randrange(len(src))
        quoted = [k for k in range(len(src)) if src[:k].count('"') % 2 or src[:k].count("'") % 2]
        if quoted and rng.random() < 0.6: i = rng.choice(quoted)
        c = src[i]
        r = rng.random()
        if c in ' \t\n': new = rng.choice([c + c, c + ' ', '\n', '\t', ' ', c + '\n', ''])
        elif c.isdigit(): new = rng.choice([rng.choice('0123456789'), c + '0', c + '.0', c + '.', '0' + c, c + '.5'])
        elif c in '"\'': return src.translate({34: 39, 39: 34}) if r < 0.5 else src[:i] + c + ' ' + src[i + 1:]
        elif c == '/': new = rng.choice(['//', '/'])
        elif c in '=<>': new = rng.choice(['=', '<', '>', '!=', '<=', '>='])
        elif c.isalpha(): new = rng.choice([c.swapcase(), c, c + ' ', ' ' + c, c + c, '@' + c, 'A', '\xe1', 'a\u0301'])
        else: new = rng.choice([c, c + ' ', ' ' + c, ''])
        return src[:i] + new + src[i + 1:]

    def twins(self, rng):
        top, names, attr_names, strings = xtree(rng, self.tree, rng.choice([3, 8]))
        g = X.Gen(rng, names, attr_names, strings + ['a b', 'x y', ' x', '1 ', 'x\ny', 'Xy', "it's"], weird=0)
        root, _ = X.model(top, self.tree)
        nodes = X.axis_nodes(root, 'descendant-or-self')
        lit = lambda: ('lit', rng.choice(['a b', ' x', 'x  y', 'x\ny', 'Xy', '1 ', "it's", 'a', 'x y z', '/a', '$n', '(1)']))
        kinds = [lambda: g.any(rng.choice([1, 2])), lambda: g.any(rng.choice([1, 2])), lit, lambda: ('call', 'string-length', [lit()]), lambda: ('seq', [lit(), g.num(), lit()]), lambda: ('call', 'concat', [lit(), lit()]), lambda: ('cmp', rng.choice(['=', '<', '!=']), lit(), lit()),
                 lambda: ('pred', ('abs', '//', ('step', 'child', ('node',))), [('cmp', '=', ('dot',), lit())]), lambda: ('call', rng.choice(['contains', 'starts-with', 'substring-after', 'substring-before']), [lit(), lit()]), lambda: ('call', 'for-each', [g.rel(1), ('lit', 'concat(name(), " ")')])]
        family = [X.text(rng.choice(kinds)(), rng, p=rng.choice([0, 0.15]))]
        while len(family) < 6 and rng.random() < 0.95: family.append(self.twin(rng, rng.choice(family)))
        asts = []
        for src in family:
            try: asts.append((src, X.parse(src)))
            except X.Reject: pass
        log, seen = [], {}
        detail = lambda: dict(history=log[-12:], tree=top.xml_encode()[:800])
        docs = None
        if rng.random() < 0.5:
            text = top.xml_encode()
            docs = [text, text] + [self.twin(rng, text) for _ in range(2)]
        for _ in range(rng.choice([6, 12])):
            if not asts: return
            src, x = rng.choice(asts)
            if docs and rng.random() < 0.35:
                # A document as text: its own tree, whatever became of that of another
                text = rng.choice(docs)
                try: own = self.tree.parse(text)
                except Exception: continue
                ref, _ = X.model(own, self.tree)
                try: want = X.ev(x, X.Ctx(ref))
                except (X.Avoid, X.XError): continue
                log.append('query %r in the text %r' % (src, text[:200]))
                try: got = list(self.uxpath.qquery(text if rng.random() < 0.6 else text.encode('utf-8'), rng.choice([src, self.uxpath.parse(src)])))
                except Exception as e: raise Violation('%r in a document given as text failed: %r' % (src, e), **detail())
                shown = lambda i: (i.xml_name, i.xml_value) if isinstance(i, self.tree.node) else i if i == i else 'NaN'
                def of_model(i):
                    if not isinstance(i, X.N): return i if i == i else 'NaN'
                    return ('#text' if i.kind == 'text' else '' if i.kind == 'root' else i.name, X.string_value(i))
                a, b = [shown(i) for i in got], [of_model(i) for i in want]
                if a != b: raise Violation('%r in a document given as text: %r rather than %r' % (src, a, b), **detail())
                for i in got:
                    if isinstance(i, self.tree.element):
                        # It belongs to the one who asked
                        i.xml_append('more')
                        i.xml_attributes['more'] = '1'
                        i.xml_name = 'changed'
                self.stats.count('twin_documents')
                continue
            node = rng.choice(nodes)
            try: want = X.ev(x, X.Ctx(node))
            except (X.Avoid, X.XError): continue
            how = rng.choice(['qquery', 'xpath', 'context'])
            expr = src if rng.random() < 0.85 else self.uxpath.parse(src)
            log.append('query %r from %r by %s' % (src, node, how))
            try: got = list(self.start(expr, node, how, None, None))
            except Exception as e: raise Violation('%r from %r failed: %r' % (src, node, e), **detail())
            d = X.diff(got, want, self.tree)
            if d: raise Violation('%r from %r by %s: %s' % (src, node, how, d), got=repr(got)[:500], expected=repr(want)[:500], **detail())
            self.stats.count('twins')
            if seen.setdefault(id(node), src) != src: self.stats.count('twins_apart')
        self.stats.case(tuple(family), len(asts) > 1)

    def run_case(self, kind, index, rng):
        if kind == 'twins': return self.twins(rng)
        tops = []
        names, attr_names, strings = ['a', 'b'], ['i'], ['x', '1']
        for _ in range(rng.choice([1, 1, 2, 3])):
            t, n, a, s = xtree(rng, self.tree, rng.choice([3, 8, 15]))
            tops.append(t)
            names = list(dict.fromkeys(names + n)); attr_names = list(dict.fromkeys(attr_names + a))
        def doubled(ctx, seq):
            yield from seq.compute(ctx)
            yield from seq.compute(ctx)
        funcs = dict(self.builtins, doubled=doubled)
        ref_funcs = {'doubled': lambda ctx, args: X.ev(args[0], ctx) * 2}
        vars = {'n': rng.choice([1, 2, 0.5]), 's': rng.choice(strings), 'b': rng.random() < 0.5}
        g = X.Gen(rng, names, attr_names, strings, vars=[('n', 'number'), ('s', 'string'), ('b', 'boolean')], funcs=['doubled'], weird=0.02)
        def expression():
            r = rng.random()
            x = g.location() if r < 0.35 else ('union', g.location(), g.location()) if r < 0.5 else ('abs', rng.choice(['/', '//']), g.rel()) if r < 0.65 else g.any(rng.choice([1, 2, 3]))
            return X.text(x, rng), x
        pool = []
        for _ in range(rng.randint(1, 5) if kind != 'long' else rng.choice([5, 50, 200])):
            src, x = expression()
            pool.append((self.uxpath.parse(src), x, src))
        log = []
        detail = lambda: dict(history=log[-30:], trees=[t.xml_encode()[:600] for t in tops])
        def want_of(x, node):
            try: return X.ev(x, X.Ctx(node, vars, ref_funcs))
            except (X.Avoid, X.XError): return None
        def check(got, want, what):
            if want is None: return
            d = X.diff(got, want, self.tree)
            if d: raise Violation('%s: %s' % (what, d), got=repr(got)[:500], expected=repr(want)[:500], **detail())
        def ask():
            """Expression (parsed or text), AST, text"""
            if rng.random() < 0.6:
                p, x, src = rng.choice(pool)
                self.stats.count('expressions_reused')
                return p, x, src
            src, x = expression()
            return src, x, src
        if kind == 'interleave':
            return self.interleave(rng, tops, ask, want_of, check, vars, funcs, log, pool, detail)
        mutated = moved = False
        steps = rng.choice([5, 12, 25, 40]) if kind != 'long' else rng.choice([100, 250, 500])
        self.stats.maximum('steps', steps)
        open_gens = []
        contexts = []
        kept_contexts, kept_attrs = [], []
        for step in range(steps):
            r = rng.random()
            if r < 0.4:
                what = self.mutate(rng, tops, names, attr_names, strings)
                log.append(what)
                mutated = True
                moved = moved or what.split()[0] in ('move', 'attach', 'detach')
                # What is under way does not need to make sense any longer
                for gn in open_gens:
                    if rng.random() < 0.5 and hasattr(gn, "close"): gn.close()
                    self.stats.count('generators_abandoned')
                # What is at the root (or in a text's place) then, is for a new context to tell; one at an element goes on
                kept_contexts += [c for c, n in contexts if n.kind in ('elem', 'text')]
                del kept_contexts[:-8]
                open_gens, contexts = [], []
                continue
            nodes = self.all_nodes(tops)
            node = rng.choice(nodes) if rng.random() < 0.7 else rng.choice([n for n in nodes if n.kind == 'root'])
            how = rng.choice(['qquery', 'xpath', 'context'])
            if rng.random() < 0.2:
                self.kept(rng, tops, nodes, kept_contexts, kept_attrs, ask, want_of, check, vars, funcs, log, moved, detail)
                continue
            if rng.random() < 0.13:
                self.own_bindings(rng, node, how, vars, funcs, log, detail)
                continue
            expr, x, src = ask()
            want = want_of(x, node)
            if want is None and kind == 'long': continue     # It may be too much to compute
            if want is None:
                # May fail; without consequences
                try: list(self.start(expr, node, how, vars, funcs))
                except Exception: pass
                continue
            log.append('query %s from %r by %s' % (src, node, how))
            pure = rng.random() < 0.4
            if pure: before = self.state(tops, vars, funcs, pool)
            if rng.random() < 0.2:
                gn = self.start(expr, node, how, vars, funcs)
                for _ in range(rng.choice([0, 1, 1, 2])): next(gn, None)
                open_gens.append(gn)
                log[-1] += ', in part'
            else:
                keep = []
                try:
                    got = list(self.start(expr, node, how, vars, funcs, keep))
                except Exception as e:
                    raise Violation('%s from %r: failed: %r' % (src, node, e), expected=repr(want)[:300], **detail())
                check(got, want, '%s from %r by %s' % (src, node, how))
                self.stats.count('queries')
                self.stats.count('queries_after_mutation', mutated)
                if moved and 'abs' in repr(x): self.stats.count('absolute_after_move')
                if keep: contexts.append((keep[0], node))
                if contexts and rng.random() < 0.3:
                    # A context can be used again, with another expression
                    c, n = rng.choice(contexts)
                    expr2, x2, src2 = ask()
                    want2 = want_of(x2, n)
                    if want2 is not None:
                        e2 = self.uxpath.parse(expr2) if isinstance(expr2, str) else expr2
                        check(list(e2.compute(c)), want2, '%s from %r, in a context used before' % (src2, n))
                        self.stats.count('contexts_reused')
            if pure:
                after = self.state(tops, vars, funcs, pool)
                self.stats.count('snapshots')
                if after != before:
                    k = next(i for i, (a, b) in enumerate(zip(before, after)) if a != b)
                    raise Violation('%s from %r changed %s' % (src, node, ['the tree', 'variables', 'variables', 'functions', 'an expression', 'built-in functions'][k]), **detail())
        self.stats.case(tuple(l.split(' ')[0] + ('*' if 'in part' in l else '') for l in log) + (len(tops),), bool(log))
        if index < 4: self.stats.sample(log[:8], 2)

    def kept(self, rng, tops, nodes, kept_contexts, kept_attrs, ask, want_of, check, vars, funcs, log, moved, detail):
        """From nodes & contexts got before the mutations: what is there now counts"""
        attrs = [a for n in nodes for a in n.attrs]
        if attrs and (len(kept_attrs) < 3 or rng.random() < 0.2):
            # One more attribute, as a query gives it
            a = rng.choice(attrs)
            got = [x for x in self.uxpath.parse('@*').compute(self.uxpath.context(a.parent.obj, force_root=False)) if x.xml_name == a.name]
            if got:
                kept_attrs.append((got[0], a.parent.obj, a.name, a.text))
                del kept_attrs[:-8]
        now = {id(n.obj): n for n in nodes if n.kind != 'root'}
        expr, x, src = ask()
        c = None
        if kept_attrs and (not kept_contexts or rng.random() < 0.6):
            obj, owner, name, text = rng.choice(kept_attrs)
            n = now.get(id(owner))
            if n is None or n.obj is not owner: return
            node = next((a for a in n.attrs if a.name == name and a.text == text), None)
            if node is None: return
            if rng.random() < 0.5:
                # Where it is
                x = rng.choice([('step', 'ancestor', ('node',)), ('step', 'parent', ('node',)), ('abs', '/', ('step', 'child', ('node',))), ('abs', '//', ('step', 'child', ('*',))), ('path', ('step', 'parent', ('*',)), '/', ('step', 'ancestor', ('*',)))])
                expr = src = X.text(x, rng)
            c = self.uxpath.context(obj, variables=vars, functions=funcs, force_root=False)
            what = 'an attribute'
        elif kept_contexts:
            c = rng.choice(kept_contexts)
            node = now.get(id(c.item))
            if node is None or node.obj is not c.item: return
            what = 'a context'
        else: return
        want = want_of(x, node)
        if want is None: return
        log.append('query %s from %r, %s from before' % (src, node, what))
        e = self.uxpath.parse(expr) if isinstance(expr, str) else expr
        try: got = list(e.compute(c))
        except Exception as ex: raise Violation('%s from %r, %s from before: failed: %r' % (src, node, what, ex), **detail())
        check(got, want, '%s from %r, %s from before' % (src, node, what))
        self.stats.count('kept_' + what.split()[1])

    def own_bindings(self, rng, node, how, vars, funcs, log, detail):
        """Variables & functions are those given with the query at hand, not with another one"""
        if rng.random() < 0.3:
            # The same expression once & again, with other variables & functions by the same names, some of built-in ones
            def giving(v):
                def f(ctx, *args): yield v
                return f
            if not self.rebound: self.rebound = [(self.uxpath.parse(t), n, f) for t, n, f in REBOUND]
            p, names, value = rng.choice(self.rebound)
            for _ in range(rng.randint(2, 4)):
                vs = {n: rng.choice([1, 2, 'x', 'y', True]) for n in names if n[0] != '!'}
                fs = {n[1:]: rng.choice(['p', 'q', 3, False]) for n in names if n[0] == '!'}
                given = dict(self.builtins, **{n: giving(v) for n, v in fs.items()})
                log.append('query %s from %r by %s with %r, %r' % (self.xast.serialize(p), node, how, vs, fs))
                got = list(self.start(p, node, how, vs, given))
                want = value({**vs, **{'!' + k: v for k, v in fs.items()}})
                if got != [want] or type(got[0]) is not type(want): raise Violation('%s, with variables %r & functions giving %r, gives %r' % (self.xast.serialize(p), vs, fs, got), **detail())
                self.stats.count('rebound')
        elif rng.random() < 0.7:
            name = rng.choice(['n', 's', 'b', 'zz'])
            mine = {}
            for k in ('n', 's', 'b', 'q'):
                if rng.random() < 0.4: mine[k] = rng.choice([7, 'seven', True, 0, ''])
            given = mine or rng.choice([None, {}])
            log.append('query $%s from %r by %s with %r' % (name, node, how, given))
            try: got = list(self.start('$' + name, node, how, given, rng.choice([None, funcs])))
            except Exception: got = None
            want = [mine[name]] if name in mine else None
            if got != want or (got and type(got[0]) is not type(want[0])):
                raise Violation('$%s with variables %r gives %r' % (name, given, got), **detail())
        else:
            # The function is not among those given
            given = rng.choice([None, {}, {'other': funcs['doubled']}])
            log.append('query doubled(1) from %r by %s with functions %r' % (node, how, sorted(given or ())))
            try: got = list(self.start('doubled(1)', node, how, vars, given))
            except Exception: got = None
            if got is not None: raise Violation('doubled(1), without such a function, gives %r' % (got,), **detail())
        self.stats.count('own_bindings')

    def interleave(self, rng, tops, ask, want_of, check, vars, funcs, log, pool, detail):
        """Several generators, in part over the same expression and context, taking turns; some dropped; another query in between"""
        before = self.state(tops, vars, funcs, pool)
        nodes = self.all_nodes(tops)
        gens = []
        shared = rng.choice(nodes)
        for _ in range(rng.randint(2, 5)):
            node = shared if rng.random() < 0.5 else rng.choice(nodes)
            expr, x, src = ask()
            want = want_of(x, node)
            if want is None: continue
            log.append('start %s from %r' % (src, node))
            gens.append([self.start(expr, node, rng.choice(['qquery', 'xpath', 'context']), vars, funcs), [], want, src, node])
        live = list(gens)
        turns = []
        while live:
            gn = rng.choice(live)
            turns.append(next(i for i, z in enumerate(gens) if z is gn))
            if rng.random() < 0.05:
                if hasattr(gn[0], "close"): gn[0].close()
                live = [z for z in live if z is not gn]
                # What it gave so far was right
                check(gn[1], gn[2][:len(gn[1])], '%s from %r, in part' % (gn[3], gn[4]))
                self.stats.count('generators_abandoned')
                continue
            try:
                gn[1].append(next(gn[0]))
                self.stats.count('generators_resumed')
            except StopIteration:
                live = [z for z in live if z is not gn]
                check(gn[1], gn[2], '%s from %r, interleaved with others (turns %s)' % (gn[3], gn[4], turns[-40:]))
                self.stats.count('queries')
            except Exception as e:
                raise Violation('%s from %r, interleaved: failed: %r' % (gn[3], gn[4], e), **detail())
        if self.state(tops, vars, funcs, pool) != before:
            raise Violation('interleaved queries changed something', **detail())
        self.stats.count('snapshots')
        self.stats.case((tuple(turns), tuple(len(z[2]) for z in gens)), len(gens) > 1)

    def mutate(self, rng, tops, names, attr_names, strings):
        tree = self.tree
        def elems(t):
            out, stack = [], [t]
            while stack:
                x = stack.pop()
                out.append(x)
                stack.extend(k for k in reversed(x.xml_children) if isinstance(k, tree.element))
            return out
        ti = rng.randrange(len(tops))
        top = tops[ti]
        all_ = elems(top)
        e = rng.choice(all_)
        r = rng.random()
        if r < 0.12:
            e.xml_append(rng.choice(strings + ['']))
            return 'append text to %s' % e.xml_name
        if r < 0.25:
            k = tree.element(rng.choice(names), {rng.choice(attr_names): rng.choice(strings)} if rng.random() < 0.4 else None)
            i = rng.randint(0, len(e.xml_children))
            e.xml_insert(k, i)
            return 'insert %s at %d in %s' % (k.xml_name, i, e.xml_name)
        if r < 0.35:
            if rng.random() < 0.6 or not e.xml_attributes: e.xml_attributes[rng.choice(attr_names)] = rng.choice(strings)
            else: e.xml_attributes.pop(rng.choice(list(e.xml_attributes)))
            return 'attributes of %s' % e.xml_name
        if r < 0.4:
            old = e.xml_name
            e.xml_name = rng.choice(names)
            return 'rename %s to %s' % (old, e.xml_name)
        if r < 0.5:
            if e.xml_children:
                k = rng.choice(e.xml_children)
                e.xml_remove(k)
                return 'remove %r' % k
        if r < 0.55:
            rng.shuffle(e.xml_children)
            return 'shuffle children of %s' % e.xml_name
        if r < 0.7 and len(all_) > 1:
            # Detach: a tree of its own
            k = rng.choice(all_[1:])
            k.xml_parent.xml_remove(k)
            if len(tops) < 5: tops.append(k)
            return 'detach %s' % k.xml_name
        if r < 0.85 and len(tops) > 1:
            # Attach a whole tree to another
            oi = rng.choice([i for i in range(len(tops)) if i != ti])
            k = tops[oi]
            i = rng.randint(0, len(e.xml_children))
            e.xml_insert(k, i)
            del tops[oi]
            return 'attach tree %s to %s at %d' % (k.xml_name, e.xml_name, i)
        if len(all_) > 2:
            k = rng.choice(all_[1:])
            inside = {id(x) for x in elems(k)}
            k.xml_parent.xml_remove(k)
            dest = [x for t in tops for x in elems(t) if id(x) not in inside]
            d = rng.choice(dest)
            i = rng.randint(0, len(d.xml_children))
            d.xml_insert(k, i)
            return 'move %s to %s' % (k.xml_name, d.xml_name)
        e.xml_append('z')
        return 'append z'
