"""P12: MicroXPath predicates, comparisons, logic and functions compute XPath values"""
import math, re
from vlib.common import BaseCheck, Violation
from vlib import gen, xpathref as X
from checks.p11 import xtree, large

EDGE_STR = ['', ' ', '0', '-0', '1', '-1', '01', '1.', '.5', '-.5', '1.5', ' 12\n', '1e3', '+1', '--1', '- 1', 'NaN', 'nan', 'inf', 'Infinity', 'true', 'false', '\u0663', '1_0', '0x10', '\xa01', '1\x0b', 'a', 'aa', 'aba', 'ab', 'b', '\U0001f600x']
EDGE_NUM = [0, 1, -1, 2, 3, 0.5, -0.5, 1.5, 2.5, -1.5, 0.1, 1e-7, 1.25e-9, 1e-10, -3.7e-12, 1.1e-20, 5e-324, 0.00012345678901234567, 2.0 ** -30, 123456789.125, 2.0 ** 52, 1e15, math.nan, math.inf, -math.inf, -0.0, 7]


class Check(BaseCheck):
    id = 'P12'
    technique = 'differential monitor on query values vs. a reference XPath evaluator'
    level_note = 'Every value yielded is compared, type included, with a reference evaluation of the expression the text was generated from; all pairs of edge-case values through every operator & function, random nested expressions. Trusts the reference.'
    rule = ('kind random: nested predicates, comparisons, logic, casts & functions over random trees, contexts (nodes of every kind), variables & user functions, in random spelling. kind table: each operator & function on pairs/triples of edge-case strings, numbers, '
            'booleans, nodes & empty sequences. kind large: long strings & sequences, many arguments, far positions. kind source: qquery() given markup as str or UTF-8. kind predicates: chains of positional & boolean predicates on paths & sequences. Expressions whose meaning the property leaves out are avoided (counted). Distinct by expression & value.')
    quick = {'large': 4000, 'source': 8000, 'random': 60000, 'table': 24000, 'predicates': 20000}
    boost = 2
    thorough = {'large': 80000, 'source': 150000, 'random': 1000000, 'table': 300000, 'predicates': 300000}
    required = {'huge_numbers': 40, 'many_to_many': 100, 'large': 2500, 'max_items': 400, 'max_position': 250, 'items': 30000, 'values_node': 3000, 'values_str': 5000, 'values_num': 3000, 'values_bool': 8000, 'features': 70, 'predicate_position_kept': 200, 'empty_result': 500, 'with_vars': 500, 'cmp_true': 1000, 'cmp_false': 2000, 'lookups': 1000, 'looked_up': 300, 'from_source_bytes': 2000, 'from_source_str': 1000, 'from_source_items': 5000}
    assumptions = ['texts of numbers from 2^53 on & the documented exclusions are not judged']

    def worker_setup(self):
        from amara3.uxml import tree, uxpath
        from amara3.uxml.uxpath.functions import BUILTIN_FUNCTIONS
        self.tree, self.uxpath = tree, uxpath
        def twice(ctx, seq):
            for i in seq.compute(ctx):
                yield i
                yield i
        def here(ctx):
            yield ctx.item
        self.funcs = dict(BUILTIN_FUNCTIONS, **{'twice': twice, 'x:'.rstrip(':') + '-here': here})
        def r_twice(ctx, args): return [i for i in X.ev(args[0], ctx) for _ in (0, 1)]
        self.ref_funcs = {'twice': r_twice, 'x-here': lambda ctx, args: [ctx.item]}

    def judge(self, x, node, rng, vars=None, ref_vars=None, funcs=False, detail={}):
        src = X.text(x, rng)
        detail = dict(detail, expression=src, vars=repr(vars)[:300])
        tables, ref_tables = {}, {}
        if vars:
            # Values of tables are like those of variables
            names = sorted(vars)
            ref_tables = {'t': {k: ref_vars[names[i % len(names)]] for i, k in enumerate(['x', '1', '', 'a', 'true', 'NaN', 'b', '2', 'y'])}, 'u': {'x': 'u-x'}, '': {'': 'none'}}
            tables = {t: {k: v.obj if isinstance(v, X.N) else v for k, v in kv.items()} for t, kv in ref_tables.items()}
        ctx = X.Ctx(node, ref_vars, self.ref_funcs if funcs else None, ref_tables)
        try:
            want = X.ev(x, ctx)
        except X.Avoid as e:
            self.stats.count('avoided')
            return None
        except X.XError:
            return None
        via = rng.randrange(3)
        if 'lookup' in src: via = 0
        kw = dict(vars=vars, funcs=self.funcs if funcs else None)
        if node.kind == 'root': obj = node.kids[0].obj
        else:
            obj = node.obj
            if node.parent.kind == 'root': via = 0
        try:
            if via == 1: got = list(self.uxpath.qquery(obj, src, **kw))
            elif via == 2: got = list(obj.xml_xpath(src, **kw))
            else:
                c = self.uxpath.context(obj, variables=vars, functions=kw['funcs'], force_root=node.kind == 'root', lookuptables=tables)
                e = self.uxpath.parse(src)
                got = list(e.compute(c) if rng.random() < 0.5 else e(c))
        except Exception as e:
            raise Violation('%s from %r: failed: %r' % (src, node, e), expected=repr(want)[:300], **detail)
        d = X.diff(got, want, self.tree)
        if d: raise Violation('%s from %r: %s' % (src, node, d), got=repr(got)[:600], expected=repr(want)[:600], **detail)
        st = self.stats
        st.count('items', len(want))
        if not want: st.count('empty_result')
        for w in want[:3]:
            st.count('values_' + ('node' if isinstance(w, X.N) else 'bool' if isinstance(w, bool) else 'num' if X.is_num(w) else 'str'))
        if x[0] == 'cmp': st.count('cmp_true' if want[0] else 'cmp_false')
        if vars: st.count('with_vars')
        fs = X.features(x)
        if 'lookup/2' in fs: st.count('lookups', 1); st.count('looked_up', bool(want))
        for f in fs: st.see('features', f)
        st.case((src, repr(want[:5]), len(want)), bool(want))
        return want

    def scene(self, rng):
        top, names, attr_names, strings = xtree(rng, self.tree)
        root, ids = X.model(top, self.tree)
        nodes = X.axis_nodes(root, 'descendant-or-self')
        if rng.random() < 0.5:
            r_vars = {'n': rng.choice(EDGE_NUM), 's': rng.choice(EDGE_STR), 'b': rng.choice([True, False]), 'or': rng.choice(nodes[1:]), 'e': ''}
            vars = {k: v.obj if isinstance(v, X.N) else v for k, v in r_vars.items()}
            kinds = [('n', 'number'), ('s', 'string'), ('b', 'boolean'), ('or', 'node'), ('e', 'string')]
        else: r_vars, vars, kinds = None, None, []
        funcs = rng.random() < 0.3
        g = X.Gen(rng, names, attr_names, strings, vars=kinds, funcs=['twice'] if funcs else (), weird=0.02, tables=['t', 't', 'u', '', 'none'] if vars else ())
        return top, root, nodes, g, vars, r_vars, funcs

    def source(self, rng):
        """qquery() given markup, as str or UTF-8, rather than a tree"""
        names = rng.choice([['a'], ['a', 'b'], ['a', 'b', '\xe9', '\u540d']])
        anames = rng.choice([['i'], ['i', 'k', '\xe4']])
        strings = rng.choice([['x', 'y', '1'], ['\xe9', '\u20ac', 'x\U0001f600', '1'], ['1', '2', ' 3 ', '\xa0', '\ufeff', '<&>']])
        e = gen.gen_doc(rng, max_elems=rng.choice([1, 4, 10]), max_depth=5, names=names, attr_names=anames, text=lambda: rng.choice(strings), attr_p=0.4, text_p=0.5)
        for x in e.walk(): x.attrs = [(n, rng.choice(strings)) for n, _ in x.attrs]
        src = gen.render(rng, e)
        if src.startswith('\ufeff'): src = src.lstrip('\ufeff')
        top = self.tree.parse(src)
        root, _ = X.model(top, self.tree)
        n, s = rng.choice(EDGE_NUM), rng.choice(EDGE_STR)
        r_vars = {'n': n, 's': s, 'b': True} if rng.random() < 0.5 else None
        g = X.Gen(rng, names, anames, strings, vars=[('n', 'number'), ('s', 'string'), ('b', 'boolean')] if r_vars else (), weird=0.02)
        x = g.location() if rng.random() < 0.4 else g.any(rng.choice([1, 2, 3]))
        try: want = X.ev(x, X.Ctx(root, r_vars))
        except (X.Avoid, X.XError): return
        expr = X.text(x, rng)
        given = src.encode('utf-8') if rng.random() < 0.6 else src
        detail = dict(source=src[:1500], expression=expr, by=type(given).__name__)
        T = self.tree
        def place(o):
            """Where it is in the document, by numbers"""
            path = []
            while isinstance(o, (T.element, T.text)) and o.xml_parent is not None and isinstance(o.xml_parent, T.element):
                path.append([i for i, k in enumerate(o.xml_parent.xml_children) if k is o][0])
                o = o.xml_parent
            return path
        got = []
        try:
            for item in self.uxpath.qquery(given, expr if rng.random() < 0.7 else self.uxpath.parse(expr), vars=r_vars):
                if isinstance(item, T.element): got.append(('elem', item.xml_name, item.xml_encode(), place(item)))
                elif isinstance(item, T.text): got.append(('text', str(item), place(item)))
                elif isinstance(item, T.node):
                    p = item.xml_parent
                    got.append(('attr', item.xml_name, item.xml_value, place(p)) if p is not None else ('root', [k.xml_encode() for k in item.xml_children]))
                else: got.append(item if not isinstance(item, str) else str(item))
        except Exception as ex:
            raise Violation('qquery(%r, %r) failed: %r' % (given[:200], expr, ex), expected=repr(want)[:300], **detail)
        exp = []
        for w in want:
            if not isinstance(w, X.N): exp.append(w)
            elif w.kind == 'elem': exp.append(('elem', w.obj.xml_name, w.obj.xml_encode(), place(w.obj)))
            elif w.kind == 'text': exp.append(('text', str(w.obj), place(w.obj)))
            elif w.kind == 'attr': exp.append(('attr', w.name, w.text, place(w.parent.obj)))
            else: exp.append(('root', [k.obj.xml_encode() for k in w.kids]))
        if len(got) != len(exp): raise Violation('qquery(%r, %r): %d items rather than %d' % (given[:200], expr, len(got), len(exp)), got=repr(got)[:500], expected=repr(exp)[:500], **detail)
        for a, b in zip(got, exp):
            same = a == b and type(a) is type(b) or (X.is_num(a) and X.is_num(b) and (a == b or (a != a and b != b)))
            if not same: raise Violation('qquery(%r, %r): %r rather than %r' % (given[:200], expr, a, b), **detail)
        self.stats.count('from_source_' + type(given).__name__)
        self.stats.count('from_source_items', len(exp))
        self.stats.case((src, expr), bool(exp))

    def large(self, rng):
        """Long strings, long sequences, many arguments, positions far on, in large documents"""
        top, names, attr_names, strings, how = large(rng, self.tree)
        root, _ = X.model(top, self.tree)
        detail = dict(tree=top.xml_encode()[:600])
        table = {}
        def var(v):
            name = 'v%d' % len(table)
            table[name] = v
            return ('var', name)
        def long_str():
            n = gen.log_int(rng, 20, 5000)
            base = ''.join(rng.choice('ab 1\u00e9\U0001f600') for _ in range(rng.choice([3, 30, 300])))
            return (base * (n // len(base) + 1))[:n]
        def lit(s): return ('lit', s) if rng.random() < 0.5 else var(s)
        g = X.Gen(rng, names, attr_names, strings, weird=0.01)
        # Something with plenty in it
        every = [('abs', '//', ('step', 'child', t)) for t in [('*',), ('node',), ('name', rng.choice(names)), ('text',)]] + [('path', ('step', 'child', ('*',)), '/', ('step', 'child', ('node',))), ('abs', '//', ('step', 'attribute', ('*',)))]
        big = rng.choice(every)
        r = rng.random()
        if r < 0.04:
            # Beyond what a float holds exactly: in plain digits which stand for that number, at least
            digits = rng.choice('123456789') + ''.join(rng.choice('0123456789') if rng.random() < 0.6 else '0' for _ in range(rng.randint(16, 40)))
            spelt = rng.choice(['', '', '-']) + digits + rng.choice(['', '', '.', '.5', '.0'])
            how = rng.choice(['string(%s)', 'concat(%s)', 'string(number("%s"))', 'concat(number("%s"), "")', 'substring-before(concat(%s, "!"), "!")', 'string($v)'])
            expr = how.replace('%s', spelt)
            try: got = list(top.xml_xpath(expr, vars={'v': float(spelt)}))
            except Exception as ex: raise Violation('%s failed: %r' % (expr, ex), **detail)
            if len(got) != 1 or not isinstance(got[0], str) or not re.fullmatch('-?[1-9][0-9]*', got[0]) or float(got[0]) != float(spelt):
                raise Violation('%s is %r' % (expr, got), value=spelt, **detail)
            self.stats.count('huge_numbers')
            self.stats.case((expr, spelt), True)
            return
        if r < 0.08:
            # Two sequences or sets of nodes, all pairs
            def many():
                n = gen.log_int(rng, 30, 260)
                if rng.random() < 0.4: return rng.choice(every)
                lo = rng.choice([0, n, 2 * n])
                if rng.random() < 0.5: return ('seq', [('num', str(lo + k)) for k in rng.sample(range(n), n)])
                return ('seq', [('lit', 's%d' % (lo + k)) for k in range(n)])
            a, b = many(), many()
            if rng.random() < 0.3 and b[0] == 'seq': b = ('seq', b[1][:-1] + [a[1][-1] if a[0] == 'seq' else ('lit', 'x')])
            x = ('cmp', rng.choice(['=', '=', '!=', '<', '>=']), a, b)
            self.stats.count('many_to_many')
        elif r < 0.3:
            # Each predicate applies to the whole of what the one before left
            try: n = len(X.ev(big, X.Ctx(root)))
            except X.Avoid: return
            # One step's predicates would be by parent: they are not, here
            preds = []
            for _ in range(rng.choice([1, 1, 2])):
                if rng.random() < 0.7:
                    k = rng.choice([n, n - 1, n + 1, n // 2, rng.randint(1, n + 1)]) if n else 1
                    self.stats.maximum('position', k)
                    preds.append(('num', str(max(k, 0))) if rng.random() < 0.7 else var(k))
                else: preds.append(rng.choice([('dot',), ('call', 'name', []), ('cmp', '=', ('dot',), ('lit', 'x')), ('step', 'child', ('*',)), ('step', 'attribute', ('name', 'i')), ('call', 'not', [('step', 'following-sibling', ('*',))])]))
            if rng.random() < 0.4: rng.shuffle(preds)
            x = ('pred', ('seq', [big]) if rng.random() < 0.5 else big, preds)
        elif r < 0.4: x = ('call', rng.choice(['count', 'count', 'string', 'boolean', 'not', 'name', 'number']), [big])
        elif r < 0.5: x = ('call', 'concat', [rng.choice([lambda: lit(long_str()[:60]), g.num, lambda: ('call', 'true', [])])() for _ in range(gen.log_int(rng, 4, 80))])
        elif r < 0.7:
            s = long_str()
            i, j = sorted((rng.randint(0, len(s)), rng.randint(0, len(s))))
            t = rng.choice([s[i:j], s[i:j] + 'z', s[:i], s[j:], s[i:j][:200], s, s + 'a', ''])
            f = rng.choice(['contains', 'starts-with', 'substring-before', 'substring-after', 'substring', 'substring', 'string-length', 'cmp', 'cmp', 'number', 'string', 'boolean'])
            if f == 'cmp': x = ('cmp', rng.choice(['=', '!=', '<', '>=']), lit(s), lit(rng.choice([s, s[:-1], s[:-1] + 'b', t])))
            elif f == 'substring': x = ('call', f, [lit(s), ('num', str(rng.choice([i, j, i + 1, len(s), len(s) + 1]))), ('num', str(rng.choice([j - i, len(s), 1, 3, j])))][:rng.choice([2, 3, 3])])
            elif f in ('string-length', 'number', 'string', 'boolean'): x = ('call', f, [lit(s)])
            else: x = ('call', f, [lit(s), lit(t)])
        elif r < 0.85:
            n = gen.log_int(rng, 10, 500)
            one = lambda: rng.choice([lambda: ('num', str(rng.randint(0, n))), lambda: lit('s%d' % rng.randint(0, n)) if len(table) < 20 else ('lit', 's'), lambda: ('call', 'true', [])] if n < 100 or rng.random() < 0.1 else [lambda: ('num', str(rng.randint(0, n)))])()
            seq = ('seq', [one() for _ in range(n)])
            k = rng.randint(1, n)
            x = rng.choice([seq, ('pred', seq, [('num', str(k))]), ('call', 'count', [seq]), ('pred', seq, [('cmp', rng.choice(['=', '<', '>', '!=']), ('dot',), ('num', str(rng.randint(0, n))))]),
                            ('cmp', rng.choice(['=', '<', '>']), seq, ('num', str(rng.randint(0, n + 2)))), ('cmp', rng.choice(['=', '<', '>']), ('num', str(rng.randint(0, n + 2))), seq), ('call', 'for-each', [seq, ('lit', '. > %d' % k)])])
        elif r < 0.93:
            x = ('call', 'for-each', [big, ('lit', rng.choice(['name()', 'string()', 'count(*)', '.', '..', '*[1]', 'count(preceding-sibling::*) = 3', '@i', 'concat(name(), "-", string-length(.))', '(1, 2)']))])
        else: x = g.any(2)
        w = self.judge(x, root, rng, {k: v for k, v in table.items()} or None, table or None, False, detail)
        if w is not None:
            self.stats.count('large')
            self.stats.maximum('items', len(w))

    def run_case(self, kind, index, rng):
        if kind == 'large': return self.large(rng)
        if kind == 'source': return self.source(rng)
        top, root, nodes, g, vars, r_vars, funcs = self.scene(rng)
        detail = dict(tree=top.xml_encode()[:1500])
        node = root if rng.random() < 0.4 else rng.choice(nodes)
        if kind == 'random':
            x = g.any(rng.choice([1, 2, 2, 3, 3, 4]))
            if rng.random() < 0.05 and funcs: x = ('call', 'x-here', [])
            w = self.judge(x, node, rng, vars, r_vars, funcs, detail)
            if index < 20 and w: self.stats.sample([X.text(x), repr(w)[:100]], 3)
        elif kind == 'predicates':
            r = rng.random()
            if r < 0.6: x = g.location()
            elif r < 0.75: x = ('seq', [g.location() for _ in range(rng.randint(1, 3))])
            else: x = ('seq', [rng.choice([g.literal, g.num, g.location])() for _ in range(rng.randint(1, 6))])
            atomic = r >= 0.75
            for _ in range(rng.choice([1, 1, 2, 3])):
                preds = [g.atomic_pred(1) if atomic else g.pred(rng.choice([0, 1, 2])) for _ in range(rng.choice([1, 1, 2, 3]))]
                x = ('pred', x, preds)
                if not atomic and rng.random() < 0.3: x = ('path', x, rng.choice(['/', '/', '//']), g.step())
                elif rng.random() < 0.1: x = ('seq', [x])
            w = self.judge(x, node, rng, vars, r_vars, funcs, detail)
            if w and x[0] == 'pred' and x[2][-1][0] == 'num': self.stats.count('predicate_position_kept')
        else:
            # Operands: edge-case values of each type
            def operand():
                r = rng.random()
                if r < 0.4:
                    s = rng.choice(EDGE_STR)
                    return ('lit', s)
                if r < 0.6:
                    v = rng.choice(EDGE_NUM)
                    name = 'v%d' % len(table)
                    table[name] = v
                    return ('var', name)
                if r < 0.7: return ('call', rng.choice(['true', 'false']), [])
                if r < 0.75: return ('seq', [])
                if r < 0.85: return ('seq', [operand() for _ in range(rng.randint(1, 3))])
                name = 'v%d' % len(table)
                if r < 0.92:
                    table[name] = rng.choice(nodes[1:])
                    return ('var', name)
                # A node with a value of interest
                el = self.tree.element('e', {'i': 'x'})
                for _ in range(rng.choice([0, 1, 1, 2])): el.xml_append(rng.choice(EDGE_STR))
                keep.append(el)
                _, ids = X.model(el, self.tree)
                n = ids[id(el)]
                if n.kids and rng.random() < 0.4: n = rng.choice(n.kids)
                table[name] = n
                return ('var', name)
            table, keep = {}, []
            ops = ['=', '!=', '<', '<=', '>', '>=']
            forms = [('cmp', o) for o in ops] + [('and',), ('or',), ('neg',), ('call', 'string', 1), ('call', 'number', 1), ('call', 'boolean', 1), ('call', 'not', 1), ('call', 'string-length', 1), ('call', 'count', 1), ('call', 'name', 1),
                     ('call', 'starts-with', 2), ('call', 'contains', 2), ('call', 'substring-before', 2), ('call', 'substring-after', 2), ('call', 'substring', 3), ('call', 'lookup', 2), ('call', 'concat', 1), ('call', 'concat', 2), ('call', 'concat', 3),
                     ('call', 'substring', 3), ('call', 'string', 1), ('call', 'number', 1)]
            f = forms[index % len(forms)]
            if f[0] == 'cmp': x = ('cmp', f[1], operand(), operand())
            elif f[0] in ('and', 'or'): x = (f[0], operand(), operand())
            elif f[0] == 'neg': x = ('neg', operand())
            elif f[1] == 'substring':
                def n():
                    if rng.random() < 0.25: return operand()
                    name = 'v%d' % len(table)
                    table[name] = rng.choice([-3, -1, 0, 1, 2, 3, 4, 5, 10, 0.5, 1.5, 2.5, -0.5, 1.49, 2.6, math.nan, math.inf, -math.inf])
                    return ('var', name)
                x = ('call', 'substring', [('lit', rng.choice(['12345', 'abc', '', 'a\U0001f600b\u00e9c'])) if rng.random() < 0.8 else operand()] + [n() for _ in range(rng.choice([1, 2, 2]))])
            else: x = ('call', f[1], [operand() for _ in range(f[2])])
            r_vars = table or None
            vars = {k: v.obj if isinstance(v, X.N) else v for k, v in table.items()} or None
            self.judge(x, node, rng, vars, r_vars, False, detail)
