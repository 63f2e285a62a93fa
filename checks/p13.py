"""P13: MicroXPath parses by the grammar, serializes back, and reports errors"""
from vlib.common import BaseCheck, Violation, bounded
from vlib import gen, xpathref as X
from checks.p11 import xtree

INSERT = ['(', ')', '[', ']', '/', '//', '.', '..', '@', '::', ',', '$', '|', '=', '!=', '<', '<=', '>', '>=', '"', "'", '"x"', '1', '.5', 'a', 'or', 'and', 'div', 'text', 'node', 'child', 'self', 'ancestor', 'namespace', 'foo', 'text()', 'self::', '!', '&', ';', '#', '%', '^', '{', '}',
          '~', '`', '\\', '?', ':', '\x00', '\u2028', '\xd7', '\u037e', '-', '[]', '()', '::a', '@@', '///', '...', '==', '<>', '$$', 'a b', '1 2', '"x" "y"', 'a::b', 'child::child::a', '@child::a', 'child::@a', 'child::', 'child::.', '@..', 'f(', 'f(,)', 'f(1,)', '(1,)', '(,1)']


def same_results(a, b, tree):
    """None, or how two lists of actual results differ"""
    if len(a) != len(b): return '%d items & %d items' % (len(a), len(b))
    for i, (x, y) in enumerate(zip(a, b)):
        if isinstance(x, tree.node) and isinstance(y, tree.node):
            if x is y: continue
            if not isinstance(x, (tree.element, tree.text)) and x.xml_name == y.xml_name and x.xml_value == y.xml_value and x.xml_parent is y.xml_parent and not isinstance(y, (tree.element, tree.text)): continue
        elif isinstance(x, tree.node) or isinstance(y, tree.node): pass
        elif isinstance(x, bool) or isinstance(y, bool):
            if x is y: continue
        elif x == y or (x != x and y != y): continue
        return 'item %d: %r & %r' % (i + 1, x, y)
    return None


# Digits, spaces and symbols which are those of XPath, or only look the part
CHARS = list('0123456789.  \t\n()[]/@$|=!<>,"\'*-:_aZ;#&%^~`?\\{}') + list('\u0663\u096b\uff15\u0be7\U0001d7d9\xb2\xbd\u2160\xa0\u3000\u2003\x0b\x0c\x1c\x85\ufeff\u200b\xd7\u2212\u2264\uff0f\uff08\uff1d\xb7\u0300\u203f\xaa')


UNKNOWN = ['foo', 'counts', 'Count', 'string_length', 'or', 'nosuch', 'xml-value', 'xml-foo', 'ends-with', 'lower-case', 'upper-case', 'matches', 'for-eachs', 'foreach', 'sums', 'strings', 'exists', 'empty', 'string-joins', 'current', 'document', 'key', 'if', 'x', 'NAME', 'a-rather-long-name-for-a-function', '_f', '\xe9']


class Check(BaseCheck):
    id = 'P13'
    technique = 'differential monitor on parsed expressions vs. reference parser & evaluator; token-level fault injection'
    level_note = 'Each expression read is judged by what it computes on random trees vs. the AST it was written from, its fully parenthesized form & its serialization; corrupted expressions by the verdict of an independent parser. Trusts the reference.'
    rule = ('kind read: expressions mixing all operators, paths, predicates & names that look like operators, in random spelling, evaluated on several trees and contexts, compared with the reference, with the same fully parenthesized, & with serialize() parsed again. '
            'kind reject: tokens inserted, removed, doubled, replaced; characters removed, expressions cut off at each place; each must be rejected if the reference parser rejects it, & computed alike if not; after each rejection another expression has to be read right. '
            'Variables of odd names take part. kind long: tens of operands, levels, predicates, steps, hundreds of items, long literals & names. kind names: each character of the BMP & samples of the other planes as part & start of names of elements, attributes, variables & functions, evaluated & serialized; each which is none must be rejected. kind chain: long chains & all pairs of binary operators. Distinct by text; non-trivial: it was judged by a value or rejected.')
    quick = {'long': 2500, 'names': 320, 'read': 20000, 'chain': 6000, 'reject': 15000}
    boost = 2
    thorough = {'long': 60000, 'names': 2000, 'read': 500000, 'chain': 100000, 'reject': 500000}
    required = {'long': 2000, 'max_expression': 3000, 'max_nesting': 35, 'rejected': 10000, 'judged': 20000, 'serialized': 20000, 'operator_pairs': 60, 'corrupted_but_valid': 1000, 'weird_names': 2000, 'unknown_reported': 300, 'after_rejection': 8000, 'names': 50000, 'name_blocks': 257, 'non_names_rejected': 9000, 'with_variables': 700}
    assumptions = ['arithmetic operators are left out, as are arguments of text() & node()']

    def worker_setup(self):
        from amara3.uxml import tree, uxpath
        from amara3.uxml.uxpath import xast
        self.tree, self.uxpath, self.xast = tree, uxpath, xast
        self.vars, self.ref_vars = None, None

    def compute(self, expr, node):
        obj = node.kids[0].obj if node.kind == 'root' else node.obj
        return list(expr.compute(self.uxpath.context(obj, variables=self.vars, force_root=node.kind == 'root')))

    def scenes(self, rng, n):
        out = []
        for _ in range(n):
            top, names, attr_names, strings = xtree(rng, self.tree, rng.choice([2, 6, 12]))
            root, _ = X.model(top, self.tree)
            nodes = X.axis_nodes(root, 'descendant-or-self')
            out.append((top, root, [root] + [rng.choice(nodes) for _ in range(2)], names, attr_names, strings))
        return out

    def parse(self, src, detail):
        try:
            return self.uxpath.parse(src)
        except Exception as e:
            raise Violation('%s: rejected: %r' % (src, e), **detail)

    def judge(self, x, src, scenes, rng, extra=True):
        """Is src read as x"""
        detail = dict(expression=src)
        expr = self.parse(src, detail)
        others = []
        if extra:
            full = X.text(x, full=True)
            others.append(('with parentheses, %s' % full, self.parse(full, detail)))
            try:
                again = self.xast.serialize(expr)
            except Exception as e:
                raise Violation('%s: cannot be serialized: %r' % (src, e), **detail)
            if not isinstance(again, str): raise Violation('%s: serialization is %r' % (src, again), **detail)
            others.append(('serialized, %s' % again, self.parse(again, dict(detail, serialized=again))))
            self.stats.count('serialized')
        judged = False
        for top, root, nodes, *_ in scenes:
            for node in nodes:
                d = dict(detail, tree=top.xml_encode()[:1000], context=repr(node))
                error = False
                try:
                    want = X.ev(x, X.Ctx(node, self.ref_vars))
                except X.Avoid:
                    want = None
                except X.XError:
                    want, error = None, True
                try:
                    got = self.compute(expr, node)
                except Exception as e:
                    if error: self.stats.count('unknown_reported')
                    if want is None: continue
                    raise Violation('%s from %r: failed: %r' % (src, node, e), expected=repr(want)[:300], **d)
                if want is not None:
                    r = X.diff(got, want, self.tree)
                    if r: raise Violation('%s from %r: %s' % (src, node, r), got=repr(got)[:500], expected=repr(want)[:500], **d)
                    self.stats.count('judged')
                    judged = True
                for how, other in others:
                    try:
                        r = same_results(got, self.compute(other, node), self.tree)
                    except Exception as e:
                        r = 'fails: %r' % e
                    if r: raise Violation('%s from %r: differs %s: %s' % (src, node, how, r), got=repr(got)[:500], **d)
        return judged

    def small(self, g, rng):
        r = rng.random()
        if r < 0.35: return g.rel(1)
        if r < 0.5: return g.num()
        if r < 0.65: return ('lit', rng.choice(['', 'x', '1', '2', 'true']))
        if r < 0.75: return ('call', rng.choice(['true', 'false']), [])
        if r < 0.8: return ('abs', rng.choice(['/', '//']), g.rel(1))
        if r < 0.87: return ('pred', g.rel(1), [('num', rng.choice('12'))])
        if r < 0.92: return ('call', 'count', [g.rel(1)])
        if r < 0.96: return ('path', ('pred', g.rel(1), [('num', '1')]), rng.choice(['/', '//']), g.step())
        return ('seq', [g.num() for _ in range(rng.randint(0, 3))])

    def op(self, o, a, b):
        if o == '|': return ('union', a, b)
        return (o, a, b) if o in ('and', 'or') else ('cmp', o, a, b)

    OPS = ['|', 'and', 'or', '=', '!=', '<', '<=', '>', '>=']

    def names(self, index, rng):
        """Each character of the BMP (& samples of others) in names, or to be rejected"""
        if index < 256: chars = [chr(c) for c in range(index * 256, index * 256 + 256)]
        else:
            chars = [chr(rng.randrange(0x10000, 0x110000)) for _ in range(40)] + [chr(c) for p in range(1, 17) for c in (p << 16, (p << 16) + 1, (p << 16) + 0xfffe, (p << 16) + 0xffff)]
            chars = sorted(c for c in set(chars) if ord(c) & 0xfffe != 0xfffe)
        good = [c for c in chars if gen.is_namechar(c)]
        names = [n for c in good for n in ([c, 'a' + c] if gen.is_namestart(c) else ['a' + c])]
        el = self.tree.element
        def f(ctx): yield 'f'
        from amara3.uxml.uxpath.functions import BUILTIN_FUNCTIONS
        while names:
            some, names = names[:24], names[24:]
            top = el('\u00e9l', {n: 'value of ' + n for n in some})
            for n in some: top.xml_append(el(n))
            above = el('above')
            above.xml_append(top)
            ctx = self.uxpath.context(top, force_root=False, variables={n: n for n in some}, functions=dict(BUILTIN_FUNCTIONS, **{n: f for n in some}))
            forms = []
            for n in some:
                form = rng.choice(['%s', '@%s', '$%s', 'child::%s', '%s()' if n not in ('text', 'node') else '%s'])
                forms.append(form % n)
            src = rng.choice(['(', '( ']) + rng.choice([',', ', ', ' , ']).join(forms) + ')'
            detail = dict(expression=src, code_points=[['%04x' % ord(c) for c in n] for n in some])
            expr = self.parse(src, detail)
            try: again = self.xast.serialize(expr)
            except Exception as e: raise Violation('%s: cannot be serialized: %r' % (src, e), **detail)
            for what, e in (('', expr), ('serialized, ', self.parse(again, dict(detail, serialized=again)))):
                try: got = list(e.compute(ctx))
                except Exception as ex: raise Violation('%s%s failed: %r' % (what, src, ex), **detail)
                if len(got) != len(some): raise Violation('%s%s: %d items rather than %d' % (what, src, len(got), len(some)), **detail)
                for x, n, form, kid in zip(got, some, forms, top.xml_children):
                    if form[0] == '@': ok = isinstance(x, self.tree.node) and x.xml_name == n and x.xml_value == 'value of ' + n
                    elif form[0] == '$': ok = x == n
                    elif form[-1] == ')': ok = x == 'f'
                    else: ok = x is kid
                    if not ok: raise Violation('%s%s: %r for %s' % (what, src, x, form), **detail)
            self.stats.count('names', len(some))
        for c in chars:
            if ord(c) < 128: continue
            bad = []
            if not gen.is_namestart(c): bad += [c, c + 'a']
            if not gen.is_namechar(c): bad += ['a' + c, 'a%sb' % c, 'a %s b' % c][:rng.choice([1, 3])]
            # Nor is any beyond ASCII part of a number, or an operator
            odd = rng.choice(['1%s', '.%s', '1.%s', '.5%s', '(7%s)', 'a[2%s]', '12%s=1', '1%s2', '"x"%s', 'a/b]%s', 'a=1%s1']) % c
            srcs = [odd] + [rng.choice(['%s', '@%s', '$%s', 'child::%s', '(%s)', 'b/%s']) % b for b in bad]
            for src in srcs:
                try: expr = self.uxpath.parse(src)
                except Exception: self.stats.count('non_names_rejected')
                else: raise Violation('%r is accepted, as %r, though it is not an expression: U+%04X' % (src, self.show(expr), ord(c)), expression=src)
        self.stats.see('name_blocks', index if index < 256 else 'more')
        self.stats.case((index, len(good)), True)

    def long(self, g, rng):
        """An expression with a great number of something"""
        how = rng.choice(['chain', 'parens', 'calls', 'predicates', 'several predicates', 'path', 'literal', 'name', 'sequence', 'arguments', 'number', 'minus', 'union', 'variables'])
        n = gen.log_int(rng, 6, 50)
        x = self.small(g, rng)
        if how == 'chain':
            o = rng.choice([['and'], ['or'], ['and', 'or'], ['=', '!='], ['<', 'and', '=', 'or']])
            for _ in range(n): x = self.op(rng.choice(o), x, self.small(g, rng)) if rng.random() < 0.8 else self.op(rng.choice(o), self.small(g, rng), x)
        elif how == 'parens':
            for _ in range(n): x = ('seq', [x])
        elif how == 'calls':
            for _ in range(n): x = ('call', rng.choice(['not', 'boolean', 'string', 'number', 'count'] if rng.random() < 0.1 else ['not', 'string']), [x])
        elif how == 'predicates':
            x = g.rel(1)
            for _ in range(min(n, 12)): x = ('pred', g.rel(1), [x])
        elif how == 'several predicates':
            x = ('pred', ('abs', '//', ('step', 'child', ('node',))), [rng.choice([('call', 'true', []), ('dot',), ('call', 'not', [('call', 'false', [])]), ('dotdot',), ('cmp', '=', ('dot',), ('dot',))]) for _ in range(n)] + rng.choice([[], [('num', '1')]]))
        elif how == 'path':
            x = g.step(False)
            for _ in range(n): x = ('path', x, '/', rng.choice([('dot',), ('dotdot',), ('step', 'child', ('*',)), ('step', 'self', ('node',)), ('step', 'parent', ('*',)), ('step', 'child', ('node',))]))
            if rng.random() < 0.5: x = ('abs', '//', x)
        elif how == 'literal':
            k = gen.log_int(rng, 50, 20000)
            x = rng.choice([lambda y: y, lambda y: ('call', 'string-length', [y]), lambda y: ('seq', [('num', '1'), y, ('num', '2')]), lambda y: ('cmp', '=', y, x)])(('lit', ''.join(rng.choice('ab (]/"$\u00e9\n') for _ in range(k)) if rng.random() < 0.6 else rng.choice(['', 'a']) + rng.choice('xy ') * k + rng.choice(['"', '"a', "'", "'z", ''])))
        elif how == 'name':
            k = gen.log_int(rng, 30, 5000)
            name = ''.join(rng.choice('abcdiv-._019') for _ in range(20)) * (k // 20 + 1)
            x = ('union', ('step', 'child', ('name', 'n' + name)), g.rel(1))
            if rng.random() < 0.5: x = ('path', ('abs', '/', None), '/', x[1]) if False else ('abs', '//', x[1])
        elif how in ('sequence', 'variables'):
            x = ('seq', [self.small(g, rng) if rng.random() < 0.5 else g.num() for _ in range(gen.log_int(rng, 10, 300))])
        elif how == 'arguments': x = ('call', 'concat', [('lit', rng.choice(['', 'x', 'yz'])) if rng.random() < 0.7 else g.num() for _ in range(n)])
        elif how == 'number': x = ('num', ''.join(rng.choice('0123456789') for _ in range(rng.choice([5, 12, 17, 25]))) + rng.choice(['', '.', '.5', '.' + '125' * rng.choice([1, 6, 30])]))
        elif how == 'minus':
            for _ in range(n): x = ('neg', x)
        else:
            x = g.rel(1)
            for _ in range(min(n, 25)): x = ('union', x, g.rel(1))
        self.stats.maximum('nesting', n if how in ('parens', 'calls', 'minus') else 0)
        self.stats.see('long_by', how)
        return x

    def run_case(self, kind, index, rng):
        if kind == 'names': return self.names(index, rng)
        scenes = self.scenes(rng, rng.choice([1, 2]))
        names, attr_names, strings = scenes[0][3:6]
        weird = rng.choice([0, 0.05, 0.5])
        # Variables, the names of which look like operators &c. now and then
        self.vars = self.ref_vars = None
        kinds = []
        if rng.random() < 0.4:
            pool = rng.sample(['n', 's', 'b', 'and', 'div', 'text', 'self', 'a', 'e-1', 'x.y', '\xe9'], 4)
            kinds = list(zip(pool, ['number', 'string', 'boolean', 'node']))
            node = rng.choice(X.axis_nodes(scenes[0][1], 'descendant'))
            if node.kind not in ('elem', 'text'): node = scenes[0][1].kids[0]
            values = [rng.choice([0, 1, 2, 1.5, -1]), rng.choice(['', 'x', '1', 'a b']), rng.random() < 0.5, node]
            self.ref_vars = dict(zip(pool, values))
            self.vars = dict(zip(pool, values[:3] + [node.obj]))
        g = X.Gen(rng, names, attr_names, strings, weird=weird, vars=kinds)
        if kind == 'long':
            x = self.long(g, rng)
            src = X.text(x, rng) if rng.random() < 0.8 else X.text(x, rng, p=0.9)
            if rng.random() < 0.1: src = ' ' * gen.log_int(rng, 5, 3000) + src + '\n' * gen.log_int(rng, 5, 3000)
            ok = self.judge(x, src, scenes, rng)
            self.stats.count('long')
            self.stats.maximum('expression', len(src))
            self.stats.case(src, ok)
        elif kind == 'read':
            x = g.any(rng.choice([1, 2, 3, 3, 4]))
            if rng.random() < 0.04:
                bad = rng.choice([('call', rng.choice(UNKNOWN), []), ('call', rng.choice(UNKNOWN), [g.any(1) for _ in range(rng.randint(1, 3))]), ('var', rng.choice(['v', 'or', 'x', 'nn', 'some-long-name', 'a.b.c', 'X', '_', '\xe9t\xe9', 'position', 'n' * 40]))])
                x = bad if rng.random() < 0.5 else ('seq', [('lit', ''), bad])
            src = X.text(x, rng)
            if weird > 0.1: self.stats.count('weird_names')
            ok = self.judge(x, src, scenes, rng)
            self.unknown(x, src, scenes)
            self.stats.count('with_variables', 'var' in X.features(x) and self.vars is not None)
            self.stats.case(src, ok)
            if index < 10: self.stats.sample(src, 4)
        elif kind == 'chain':
            # a op b op c ..., as a tree by precedence: left to the reference parser, which knows no other way to be told
            ops = [self.OPS[index % 9], self.OPS[index // 9 % 9]] + [rng.choice(self.OPS) for _ in range(rng.choice([0, 0, 1, 3, 6]))]
            parts = []
            for i in range(len(ops) + 1):
                neighbours = ops[max(0, i - 1):i + 1]
                if '|' in neighbours: a = rng.choice([g.rel(1), g.rel(1), ('pred', g.rel(1), [('num', '1')]), ('abs', '//', g.rel(1)), ('seq', [g.rel(1)]), ('path', ('seq', [g.location()]), '/', g.step())])
                else: a = self.small(g, rng)
                t = X.text(a, rng)
                if t.rstrip().endswith('/'): t = '(' + t + ')'
                if rng.random() < 0.2 and not (i > 0 and ops[i - 1] == '|'): t = rng.choice(['-', '- ', '--']) + t
                parts.append(t)
            src = parts[0] + ''.join(' ' + o + rng.choice([' ', '  ', '\n']) + p for o, p in zip(ops, parts[1:]))
            try: x = X.parse(src)
            except X.Reject as e: raise AssertionError((src, e))
            ok = self.judge(x, src, scenes, rng)
            self.stats.see('operator_pairs', tuple(ops[:2]))
            self.stats.case(src, ok)
        else:
            x = g.any(rng.choice([1, 2, 2, 3]))
            toks = X.tokens(x, rng)
            src = None
            r = rng.random()
            i = rng.randrange(len(toks))
            if r < 0.25: toks.insert(rng.randint(0, len(toks)), rng.choice(INSERT))
            elif r < 0.4: toks.pop(i)
            elif r < 0.5: toks.insert(i, toks[i])
            elif r < 0.65: toks[i] = rng.choice(INSERT)
            elif r < 0.75: toks = toks[:i]
            elif r < 0.8: toks = toks[i:]
            elif r < 0.85: toks = toks + rng.choice([[')'], [']'], ['x'], ['1'], ['"'], ['/'], ['//'], ['|'], ['='], ['and'], ['-'], ['@'], ['$'], ['::'], ['('], ['[']])
            elif r < 0.93:
                s = X.text(x, rng)
                j = rng.randrange(len(s))
                c = rng.random()
                # Cut off there, or a character left out, put in or replaced
                if c < 0.3: src = s[:j]
                elif c < 0.55: src = s[:j] + s[j + 1:]
                else: src = s[:j] + rng.choice(CHARS) + s[j + (c < 0.75):]
            else:
                j = rng.randrange(len(toks))
                toks[i], toks[j] = toks[j], toks[i]
            if src is None: src = ' '.join(toks) if rng.random() < 0.5 else self.join(toks)
            try:
                y = X.parse(src)
            except X.Reject as e:
                why = str(e)
                y = None
            try:
                lexed = X.lex(src)
            except X.Reject:
                lexed = []
            ops = [t for k, t in lexed if k == 'op']
            if '+' in ops: return
            for n, (k, t) in enumerate(lexed):
                # Outside of the property: text(...) with arguments, functions as node tests are at the grammar's discretion
                if k == 'name' and t in ('text', 'node') and n + 2 < len(lexed) and lexed[n + 1] == ('op', '(') and lexed[n + 2] != ('op', ')'): return
            if y is None:
                try:
                    expr = bounded(lambda: self.uxpath.parse(src), len(src), 'parsing', expression=src)
                except Exception:
                    self.stats.count('rejected')
                else:
                    raise Violation('%r is accepted, as %r, though it is not an expression (%s)' % (src, self.show(expr), why), expression=src)
                # No consequences
                x = self.small(g, rng)
                self.judge(x, X.text(x, rng), scenes[:1], rng, extra=False)
                self.stats.count('after_rejection')
                self.stats.case(src, True)
            else:
                ok = self.judge(y, src, scenes, rng, extra=False)
                self.stats.count('corrupted_but_valid')
                self.stats.case(src, ok)

    def unknown(self, x, src, scenes):
        """Unknown functions and variables at the top of an expression are certainly evaluated"""
        y = x[1][-1] if x[0] == 'seq' and len(x[1]) == 2 and x[1][0] == ('lit', '') else x
        if (y[0] == 'var' and y[1] not in (self.vars or ())) or (y[0] == 'call' and y[1] in UNKNOWN):
            try:
                got = self.compute(self.uxpath.parse(src), scenes[0][1])
            except Exception:
                return
            raise Violation('%s: no exception for an unknown function or variable, but %r' % (src, got), expression=src)

    def show(self, expr):
        try: return self.xast.serialize(expr)
        except Exception: return '?'

    def join(self, toks):
        out = ''
        for t in toks:
            if out and X.wordy(out[-1]) and X.wordy(t[0]): out += ' '
            out += t
        return out
