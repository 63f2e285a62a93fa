"""
MicroXPath by the book: a node model, expressions as tuples with a reference evaluation, a renderer, a parser of its own, and generators.

Expressions:
('step', axis, test)  test: ('name', n), ('*',), ('text',), ('node',)        ('dot',)  ('dotdot',)
('path', left, op, step)  op '/' or '//'    ('abs', op, relative or None)
('pred', expr, [expr])  ('union', a, b)  ('cmp', op, a, b)  ('and', a, b)  ('or', a, b)  ('neg', a)  ('arith', op, a, b)
('lit', s)  ('num', text)  ('var', name)  ('call', name, [args])  ('seq', [exprs])
"""
import math, re
from decimal import Decimal


class Avoid(Exception):
    """What the expression means here is not something the properties speak of"""


class XError(Exception):
    """An error is due: unknown function or variable"""


# --- Nodes --------------------------------------------------------------------------------------

class N:
    __slots__ = ('kind', 'name', 'text', 'attrs', 'kids', 'parent', 'obj', 'order', 'root')
    def __init__(self, kind, name, obj=None, parent=None, text=None):
        self.kind, self.name, self.obj, self.parent, self.text = kind, name, obj, parent, text
        self.attrs, self.kids = [], []

    def __repr__(self):
        return '<%s %s%s>' % (self.kind, self.name, '' if self.text is None else ' %r' % self.text[:20])


def model(top, tree):
    """Root node for the amara tree with the given top, as it is now; also a mapping of id of object to node"""
    root = N('root', '')
    root.root = root
    ids = {}
    stack = [(top, root)]
    n = 0
    root.order = 0
    while stack:
        obj, parent = stack.pop()
        n += 1
        if isinstance(obj, tree.element):
            x = N('elem', obj.xml_name, obj, parent)
            x.order = n
            for k, v in obj.xml_attributes.items():
                a = N('attr', k, None, x, v)
                n += 1
                a.order, a.root = n, root
                x.attrs.append(a)
            stack.extend((k, x) for k in reversed(obj.xml_children))
        else:
            x = N('text', '#text', obj, parent, str.__str__(obj))
            x.order = n
        x.root = root
        parent.kids.append(x)
        ids[id(obj)] = x
    return root, ids


def string_value(n):
    if n.kind in ('text', 'attr'): return n.text
    out, stack = [], [n]
    while stack:
        x = stack.pop()
        if x.kind == 'text': out.append(x.text)
        else: stack.extend(reversed(x.kids))
    return ''.join(out)


def preorder(n):
    """Descendants, in document order"""
    out, stack = [], list(reversed(n.kids))
    while stack:
        x = stack.pop()
        out.append(x)
        stack.extend(reversed(x.kids))
    return out


def axis_nodes(n, axis):
    if axis == 'self': return [n]
    if axis == 'child': return list(n.kids)
    if axis == 'attribute': return list(n.attrs)
    if axis == 'parent': return [n.parent] if n.parent else []
    if axis == 'descendant': return preorder(n)
    if axis == 'descendant-or-self': return [n] + preorder(n)
    if axis in ('ancestor', 'ancestor-or-self'):
        out = [n] if axis == 'ancestor-or-self' else []
        while n.parent:
            n = n.parent
            out.append(n)
        return out
    if axis in ('following-sibling', 'preceding-sibling'):
        if n.kind == 'attr' or not n.parent: return []
        sibs = n.parent.kids
        i = next(i for i, s in enumerate(sibs) if s is n)
        return sibs[i + 1:] if axis == 'following-sibling' else sibs[:i][::-1]
    # By document order: what is after (before) the node & is neither a descendant (ancestor)
    everything = preorder(n.root)
    if axis == 'following':
        below = set(map(id, preorder(n)))
        return [x for x in everything if x.order > n.order and id(x) not in below]
    if axis == 'preceding':
        above = set(map(id, axis_nodes(n, 'ancestor')))
        return [x for x in everything if x.order < n.order and id(x) not in above][::-1]
    raise AssertionError(axis)


AXES = ['self', 'child', 'descendant', 'descendant-or-self', 'parent', 'ancestor', 'ancestor-or-self', 'following-sibling', 'preceding-sibling', 'following', 'preceding', 'attribute']


def passes(n, axis, test):
    kind = test[0]
    if kind == 'node': return True
    if kind == 'text': return n.kind == 'text'
    if n.kind != ('attr' if axis == 'attribute' else 'elem'): return False
    return kind == '*' or n.name == test[1]


# --- Values -------------------------------------------------------------------------------------

def is_num(x): return isinstance(x, (int, float)) and not isinstance(x, bool)

NUM = re.compile(r'[ \t\r\n]*-?([0-9]+(\.[0-9]*)?|\.[0-9]+)[ \t\r\n]*\Z')

def to_num(x):
    if isinstance(x, N): x = string_value(x)
    if isinstance(x, bool): return 1 if x else 0
    if isinstance(x, str): return float(x) if NUM.match(x) else math.nan
    return x


def num_str(x):
    if x != x: return 'NaN'
    if x in (math.inf, -math.inf): return 'Infinity' if x > 0 else '-Infinity'
    if abs(x) >= 2 ** 53: raise Avoid('string of a huge number')
    if x == int(x): return str(int(x))
    sign, digits, exp = Decimal(repr(x)).as_tuple()
    digits = ''.join(map(str, digits))
    if exp >= 0: raise AssertionError(x)
    digits = digits.rjust(-exp + 1, '0')
    return ('-' if sign else '') + digits[:exp] + '.' + digits[exp:]


def to_str(x):
    if isinstance(x, N): return string_value(x)
    if isinstance(x, bool): return 'true' if x else 'false'
    if is_num(x): return num_str(x)
    return x


def to_bool(x):
    if isinstance(x, N): return True
    if isinstance(x, bool): return x
    if is_num(x): return x == x and x != 0
    return x != ''


OPS = {'=': lambda a, b: a == b, '!=': lambda a, b: a != b, '<': lambda a, b: a < b, '<=': lambda a, b: a <= b, '>': lambda a, b: a > b, '>=': lambda a, b: a >= b}

def compare(op, a, b):
    if op in ('=', '!='):
        if isinstance(a, bool) or isinstance(b, bool): return OPS[op](to_bool(a), to_bool(b))
        if is_num(a) or is_num(b): return OPS[op](to_num(a), to_num(b))
        return OPS[op](to_str(a), to_str(b))
    if isinstance(a, bool) and isinstance(b, N): b = True
    if isinstance(b, bool) and isinstance(a, N): a = True
    return OPS[op](to_num(a), to_num(b))


def ebv(items):
    return to_bool(items[0]) if items else False


# --- Evaluation ---------------------------------------------------------------------------------

class Ctx:
    def __init__(self, item, vars=None, funcs=None, tables=None):
        self.item, self.vars, self.funcs, self.tables, self.fuel = item, vars or {}, funcs or {}, tables or {}, [60000]

    def at(self, item):
        c = Ctx(item, self.vars, self.funcs, self.tables)
        c.fuel = self.fuel
        return c


def burn(ctx, n):
    ctx.fuel[0] -= n + 1
    if ctx.fuel[0] < 0: raise Avoid('too much to compute')


def ev(x, ctx):
    out = ev_(x, ctx)
    burn(ctx, len(out))
    return out


def node_of(ctx):
    if not isinstance(ctx.item, N): raise Avoid('step from something which is not a node')
    return ctx.item


def ev_(x, ctx):
    k = x[0]
    if k == 'step':
        nodes = axis_nodes(node_of(ctx), x[1])
        burn(ctx, len(nodes))
        return [n for n in nodes if passes(n, x[1], x[2])]
    if k == 'dot': return [ctx.item]
    if k == 'dotdot': return axis_nodes(node_of(ctx), 'parent')
    if k == 'path':
        left = ev(x[1], ctx)
        out = []
        if x[2] == '/':
            for i in left: out += ev(x[3], ctx.at(i))
        else:
            right = x[3]
            child = right[0] == 'step' and right[1] == 'child'
            for i in left:
                if not isinstance(i, N): raise Avoid('step from something which is not a node')
                if child:
                    out += ev(('step', 'descendant', right[2]), ctx.at(i))
                else:
                    for d in axis_nodes(i, 'descendant-or-self'): out += ev(right, ctx.at(d))
        return out
    if k == 'abs':
        root = node_of(ctx).root
        if x[2] is None: return [root]
        out = [root] if x[2] == ('step', 'child', ('node',)) else []
        for d in ([root] if x[1] == '/' else [root] + preorder(root)):
            out += ev(x[2], ctx.at(d))
        return out
    if k == 'pred':
        items = ev(x[1], ctx)
        for p in x[2]:
            kept = []
            for pos, i in enumerate(items, 1):
                v = ev(p, ctx.at(i))
                if v and is_num(v[0]):
                    if len(v) > 1: raise Avoid('several numbers as predicate')
                    if v[0] == pos: kept.append(i)
                elif ebv(v): kept.append(i)
            items = kept
        return items
    if k == 'union':
        nodes = ev(x[1], ctx) + ev(x[2], ctx)
        if not all(isinstance(n, N) for n in nodes): raise Avoid('union of what is not nodes')
        if len({id(n.root) for n in nodes}) > 1: raise Avoid('union across trees')
        return [n for _, n in sorted({n.order: n for n in nodes}.items())]
    if k == 'cmp':
        a, b = ev(x[2], ctx), ev(x[3], ctx)
        if (not a and any(isinstance(i, bool) for i in b)) or (not b and any(isinstance(i, bool) for i in a)): raise Avoid('empty and boolean')
        return [any([compare(x[1], i, j) for i in a for j in b])]
    if k == 'and':
        a, b = ev(x[1], ctx), ev(x[2], ctx)
        return [ebv(a) and ebv(b)]
    if k == 'or':
        a, b = ev(x[1], ctx), ev(x[2], ctx)
        return [ebv(a) or ebv(b)]
    if k == 'neg':
        v = ev(x[1], ctx)
        return [-to_num(v[0]) if v else math.nan]
    if k == 'arith': raise Avoid('arithmetic')
    if k == 'lit': return [x[1]]
    if k == 'num': return [float(x[1]) if '.' in x[1] else int(x[1])]
    if k == 'var':
        if x[1] not in ctx.vars: raise XError('variable')
        return [ctx.vars[x[1]]]
    if k == 'seq':
        return [i for e in x[1] for i in ev(e, ctx)]
    if k == 'call':
        return call(x[1], x[2], ctx)
    raise AssertionError(x)


def first_of_several(items, concat=False):
    """For functions which take one value: the first, where it is beyond doubt which that is: of nodes, that in document order too"""
    nodes = [i for i in items if isinstance(i, N)]
    if concat or (nodes and (len(nodes) < len(items) or any(i.root is not nodes[0].root or i.order < nodes[0].order for i in nodes))): raise Avoid('several items as one value')


def first_str(items, several=False):
    if len(items) > 1 and not several: first_of_several(items)
    return to_str(items[0]) if items else ''


def call(name, args, ctx):
    if name in ctx.funcs: return ctx.funcs[name](ctx, args)
    if name == 'for-each':
        if len(args) != 2: raise Avoid('number of arguments')
        seq = ev(args[0], ctx)
        src = first_str(ev(args[1], ctx))
        try:
            inner = parse(src)
        except Reject:
            raise Avoid('for-each of nonsense')
        return [i for s in seq for i in ev(inner, ctx.at(s))]
    known = {'name', 'count', 'string', 'concat', 'starts-with', 'contains', 'substring-before', 'substring-after', 'substring', 'string-length', 'boolean', 'not', 'true', 'false', 'number', 'lookup'}
    if name in ('last', 'normalize-space', 'translate', 'same-lang', 'sum', 'floor', 'ceiling', 'round'): raise Avoid('function')
    if name not in known: raise XError('function')
    a = [ev(e, ctx) for e in args]
    n = len(a)
    def arity(*ok):
        if n not in ok: raise Avoid('number of arguments')
    if name == 'name':
        arity(0, 1)
        i = ctx.item if n == 0 else (a[0][0] if a[0] else None)
        return [i.name if isinstance(i, N) else '']
    if name == 'count': arity(1); return [len(a[0])]
    if name == 'string':
        arity(0, 1)
        return [to_str(ctx.item) if n == 0 else first_str(a[0], True)]
    if name == 'concat':
        # Takes all of them
        if any(len(s) > 1 for s in a): raise Avoid('several items in concat()')
        return [''.join(first_str(s) for s in a)]
    if name == 'lookup':
        arity(2)
        table = ctx.tables.get(first_str(a[0]), {})
        key = first_str(a[1])
        return [table[key]] if key in table else []
    if name == 'starts-with': arity(2); s, t = map(first_str, a); return [s[:len(t)] == t]
    if name == 'contains': arity(2); s, t = map(first_str, a); return [s.find(t) >= 0]
    if name == 'substring-before': arity(2); s, t = map(first_str, a); i = s.find(t); return [s[:i] if i >= 0 else '']
    if name == 'substring-after': arity(2); s, t = map(first_str, a); i = s.find(t); return [s[i + len(t):] if i >= 0 else '']
    if name == 'substring':
        arity(2, 3)
        s = first_str(a[0])
        def rnd(items):
            if len(items) > 1: first_of_several(items)
            v = to_num(items[0]) if items else math.nan
            return math.floor(v + 0.5) if math.isfinite(v) else v
        start = rnd(a[1])
        if n == 2: return [''.join(c for i, c in enumerate(s, 1) if i >= start)]
        length = rnd(a[2])
        return [''.join(c for i, c in enumerate(s, 1) if i >= start and i < start + length)]
    if name == 'string-length':
        arity(0, 1)
        return [len(to_str(ctx.item) if n == 0 else first_str(a[0]))]
    if name == 'boolean': arity(1); return [ebv(a[0])]
    if name == 'not': arity(1); return [not ebv(a[0])]
    if name == 'true': arity(0); return [True]
    if name == 'false': arity(0); return [False]
    if name == 'number':
        arity(0, 1)
        if n == 0: return [to_num(ctx.item)]
        return [to_num(a[0][0]) if a[0] else math.nan]
    raise AssertionError(name)


# --- Comparing with what the code under test yields -----------------------------------------------

def same(got, want, tree):
    """None, or how the item got differs from that expected"""
    if isinstance(want, N):
        if want.kind in ('elem', 'text'):
            return None if got is want.obj else 'got %r rather than the node %r' % (got, want)
        if want.kind == 'attr':
            ok = isinstance(got, tree.node) and not isinstance(got, (tree.element, str)) and got.xml_name == want.name and got.xml_value == want.text and got.xml_parent is want.parent.obj
            return None if ok else 'got %r rather than attribute %r of %r' % (got, want, want.parent)
        ok = isinstance(got, tree.node) and not isinstance(got, (tree.element, str)) and got.xml_name == '' and len(got.xml_children) == len(want.kids) and \
            all(g is w.obj for g, w in zip(got.xml_children, want.kids)) and got.xml_parent is None
        return None if ok else 'got %r rather than the root node' % (got,)
    if isinstance(want, bool):
        return None if isinstance(got, bool) and got == want else 'got %r rather than %r' % (got, want)
    if is_num(want):
        return None if is_num(got) and (got == want or (got != got and want != want)) else 'got %r rather than %r' % (got, want)
    if isinstance(got, str) and not isinstance(got, tree.node) and str(got) == want: return None
    return 'got %r rather than %r' % (got, want)


def diff(got, want, tree):
    for i, (g, w) in enumerate(zip(got, want)):
        d = same(g, w, tree)
        if d: return 'item %d of %d: %s' % (i + 1, len(want), d)
    if len(got) != len(want): return '%d items rather than %d; %s' % (len(got), len(want), ('surplus %r' % (got[len(want)],)) if len(got) > len(want) else ('missing %r' % (want[len(got)],)))
    return None


# --- Text ---------------------------------------------------------------------------------------

LEVEL = {'or': 1, 'and': 2, 'eq': 3, 'rel': 4, 'add': 5, 'mul': 6, 'neg': 7, 'union': 8, 'path': 9, 'prim': 10}

def level(x):
    k = x[0]
    if k == 'cmp': return LEVEL['eq' if x[1] in ('=', '!=') else 'rel']
    if k == 'arith': return LEVEL['add' if x[1] in '+-' else 'mul']
    if k in LEVEL: return LEVEL[k]
    if k in ('step', 'dot', 'dotdot', 'path', 'abs', 'pred'): return 9
    return 10


def is_rel(x):
    """A relative location path"""
    return x[0] in ('step', 'dot', 'dotdot') or (x[0] == 'path' and is_rel(x[1]) and x[3][0] in ('step', 'dot', 'dotdot'))


def tokens(x, rng=None, full=False):
    """rng: spell it in a random way; full: parentheses around everything"""
    r = rng.random if rng else (lambda: 1.0)
    def sub(y, need):
        t = tokens(y, rng, full)
        if level(y) < need or (full and level(y) < 9) or r() < 0.04: return ['('] + t + [')']
        return t
    k = x[0]
    if k == 'step':
        axis, test = x[1], x[2]
        t = [test[1]] if test[0] == 'name' else ['*'] if test[0] == '*' else [test[0], '(', ')']
        if axis == 'child' and r() < 0.8: return t
        if axis == 'attribute' and r() < 0.8: return ['@'] + t
        return [axis, '::'] + t
    if k == 'dot': return ['.']
    if k == 'dotdot': return ['..']
    if k == 'path':
        left = x[1]
        if left[0] == 'abs' or level(left) < 9: t = ['('] + tokens(left, rng, full) + [')']
        else: t = tokens(left, rng, full)
        return t + [x[2]] + tokens(x[3], rng, full)
    if k == 'abs': return [x[1]] + (tokens(x[2], rng, full) if x[2] is not None else [])
    if k == 'pred':
        if x[1] == ('abs', '/', None): t = ['(', '/', ')']
        else: t = sub(x[1], 9)
        for p in x[2]: t = t + ['['] + tokens(p, rng, full) + [']']
        return t
    if k == 'neg': return ['-'] + sub(x[1], 7)
    if k in ('union', 'cmp', 'and', 'or', 'arith'):
        op = {'union': '|', 'and': 'and', 'or': 'or'}.get(k) or x[1]
        a, b = x[-2], x[-1]
        n = level(x)
        ta = sub(a, n)
        if ta[-1] in ('/',): ta = ['('] + ta + [')']
        return ta + [op] + sub(b, n + 1)
    if k == 'lit':
        if '"' in x[1] or ("'" not in x[1] and r() < 0.5): return ["'" + x[1] + "'"]
        return ['"' + x[1] + '"']
    if k == 'num': return [x[1]]
    if k == 'var': return ['$', x[1]]
    if k == 'call':
        t = [x[1], '(']
        for i, a in enumerate(x[2]):
            if i: t.append(',')
            t += tokens(a, rng, full)
        return t + [')']
    if k == 'seq':
        t = ['(']
        for i, a in enumerate(x[1]):
            if i: t.append(',')
            t += tokens(a, rng, full)
        return t + [')']
    raise AssertionError(x)


def wordy(c): return c.isalnum() or c in '_-.' or ord(c) > 127

def text(x, rng=None, full=False, p=0.15):
    out = ''
    for t in tokens(x, rng, full):
        if out and ((wordy(out[-1]) and wordy(t[0])) or (out[-1] in '/:<>!=.' and t[0] in '/:=.')): out += ' '
        elif rng and rng.random() < p: out += rng.choice([' ', '  ', '\n', '\t', ' \r\n'])
        out += t
    if rng and rng.random() < 0.1: out = rng.choice([' ', '\n']) + out + rng.choice(['', ' '])
    return out


# --- Parser -------------------------------------------------------------------------------------

class Reject(Exception): pass

NS = 'A-Z_a-z\xc0-\xd6\xd8-\xf6\xf8-\u02ff\u0370-\u037d\u037f-\u1fff\u200c-\u200d\u2070-\u218f\u2c00-\u2fef\u3001-\ud7ff\uf900-\ufdcf\ufdf0-\ufffd\U00010000-\U000effff'
TOKEN = re.compile('(?P<ws>[ \t\r\n]+)|(?P<name>[%s][%s\\-.0-9\xb7\u0300-\u036f\u203f-\u2040]*)|(?P<lit>"[^"]*"|\'[^\']*\')|(?P<num>[0-9]+\\.[0-9]*|\\.[0-9]+|[0-9]+)|(?P<op>//|\\.\\.|::|!=|<=|>=|[/.@()\\[\\]|=<>+\\-*,$])' % (NS, NS))

def lex(s):
    at, out = 0, []
    while at < len(s):
        m = TOKEN.match(s, at)
        if not m: raise Reject('character %r' % s[at])
        if m.lastgroup != 'ws': out.append((m.lastgroup, m.group()))
        at = m.end()
    return out + [('end', '')]


class Parser:
    def __init__(self, s):
        self.t = lex(s)
        self.i = 0

    @property
    def kind(self): return self.t[self.i][0]
    @property
    def tok(self): return self.t[self.i][1]
    def ahead(self, n=1): return self.t[min(self.i + n, len(self.t) - 1)]
    def isop(self, *ops): return self.kind == 'op' and self.tok in ops
    def take(self):
        self.i += 1
        return self.t[self.i - 1][1]
    def need(self, op):
        if not self.isop(op): raise Reject('%r rather than %r' % (self.tok, op))
        self.i += 1

    BIN = {'or': 1, 'and': 2, '=': 3, '!=': 3, '<': 4, '<=': 4, '>': 4, '>=': 4, '+': 5, '-': 5, 'div': 6, 'mod': 6, '|': 8}
    def expr(self, least=1):
        if self.isop('-'):
            self.take()
            left = ('neg', self.expr(7))
        else:
            left = self.postfix()
        while self.kind in ('op', 'name') and self.tok in self.BIN and self.BIN[self.tok] >= least:
            op = self.take()
            right = self.expr(self.BIN[op] + 1)
            if op == '|': left = ('union', left, right)
            elif op in ('or', 'and'): left = (op, left, right)
            elif op in OPS: left = ('cmp', op, left, right)
            else: left = ('arith', op, left, right)
        return left

    def starts_step(self):
        return self.kind == 'name' or self.isop('.', '..', '@', '*')

    def postfix(self):
        x = self.primary()
        while True:
            if self.isop('['):
                preds = []
                while self.isop('['):
                    self.take()
                    preds.append(self.expr())
                    self.need(']')
                x = ('pred', x, preds)
            elif self.isop('/', '//'):
                op = self.take()
                x = ('path', x, op, self.step())
            else:
                return x

    def relative(self):
        x = self.step()
        while self.isop('/', '//'):
            op = self.take()
            x = ('path', x, op, self.step())
        return x

    def test(self):
        if self.isop('*'):
            self.take()
            return ('*',)
        if self.kind != 'name': raise Reject('no node test at %r' % self.tok)
        name = self.take()
        if self.isop('('):
            if name not in ('text', 'node'): raise Reject('function as node test')
            self.take()
            self.need(')')
            return (name,)
        return ('name', name)

    def step(self):
        if self.isop('.'): self.take(); return ('dot',)
        if self.isop('..'): self.take(); return ('dotdot',)
        axis = 'child'
        if self.isop('@'): self.take(); axis = 'attribute'
        elif self.kind == 'name' and self.ahead() == ('op', '::'):
            axis = self.take()
            self.take()
            if axis not in AXES: raise Reject('axis')
        return ('step', axis, self.test())

    def primary(self):
        if self.kind == 'lit': return ('lit', self.take()[1:-1])
        if self.kind == 'num': return ('num', self.take())
        if self.isop('$'):
            self.take()
            if self.kind != 'name': raise Reject('variable name')
            return ('var', self.take())
        if self.isop('('):
            self.take()
            items = []
            if not self.isop(')'):
                items.append(self.expr())
                while self.isop(','):
                    self.take()
                    items.append(self.expr())
            self.need(')')
            return ('seq', items)
        if self.isop('/'):
            self.take()
            return ('abs', '/', self.relative() if self.starts_step() else None)
        if self.isop('//'):
            self.take()
            return ('abs', '//', self.relative())
        if self.kind == 'name' and self.ahead() == ('op', '(') and self.tok not in ('text', 'node'):
            name = self.take()
            self.take()
            args = []
            if not self.isop(')'):
                args.append(self.expr())
                while self.isop(','):
                    self.take()
                    args.append(self.expr())
            self.need(')')
            return ('call', name, args)
        if self.starts_step(): return self.relative()
        raise Reject('no expression at %r' % self.tok)


def parse(s):
    p = Parser(s)
    x = p.expr()
    if p.kind != 'end': raise Reject('trailing %r' % p.tok)
    return x


# --- Generators ---------------------------------------------------------------------------------

class Gen:
    """Expressions over given element & attribute names"""
    def __init__(self, rng, names, attr_names, strings, vars=(), funcs=(), weird=0.1, tables=()):
        self.tables = list(tables)
        self.rng, self.names, self.attr_names, self.strings, self.vars, self.funcs, self.weird = rng, list(names), list(attr_names) or ['i'], list(strings) or ['x'], list(vars), list(funcs), weird

    WEIRD = ['or', 'and', 'div', 'mod', 'text', 'node', 'self', 'child', 'count', 'name', 'not', 'ancestor-or-self', 'for-each', 'a.b', 'a-b', '\xe9', '_']

    def name(self, attr=False):
        rng = self.rng
        if rng.random() < self.weird: return rng.choice(self.WEIRD)
        return rng.choice(self.attr_names if attr else self.names)

    def test(self, axis):
        r = self.rng.random()
        if axis == 'attribute': return ('name', self.name(True)) if r < 0.6 else ('*',) if r < 0.85 else ('node',)
        return ('name', self.name()) if r < 0.5 else ('*',) if r < 0.72 else ('node',) if r < 0.87 else ('text',)

    def step(self, last=True):
        rng = self.rng
        r = rng.random()
        if r < 0.06: return ('dot',)
        if r < 0.13: return ('dotdot',)
        axis = 'child' if r < 0.5 else rng.choice(AXES)
        if axis == 'attribute' and not last and rng.random() < 0.7: axis = 'child'
        return ('step', axis, self.test(axis))

    def rel(self, n=None):
        rng = self.rng
        n = n or rng.choice([1, 1, 1, 2, 2, 3, 4])
        x = self.step(n == 1)
        for i in range(n - 1):
            x = ('path', x, '//' if rng.random() < 0.2 else '/', self.step(i == n - 2))
        return x

    def location(self):
        rng = self.rng
        r = rng.random()
        if r < 0.62: return self.rel()
        if r < 0.65: return ('abs', '/', None)
        return ('abs', '/' if r < 0.8 else '//', self.rel())

    def nodes(self, d):
        """An expression for nodes"""
        rng = self.rng
        r = rng.random()
        if d <= 0 or r < 0.45: return self.location()
        if r < 0.65: return ('pred', self.nodes(d - 1), [self.pred(d - 1) for _ in range(rng.choice([1, 1, 1, 2]))])
        if r < 0.78: return ('union', self.nodes(d - 1), self.nodes(d - 1))
        if r < 0.86: return ('seq', [self.nodes(d - 1) for _ in range(rng.choice([1, 1, 2, 3]))])
        left = self.nodes(d - 1)
        if left[0] not in ('pred', 'seq'): left = ('seq', [left])
        for _ in range(rng.choice([1, 1, 2, 3])):
            left = ('path', left, '//' if rng.random() < 0.25 else '/', self.step())
        return left

    def pred(self, d):
        rng = self.rng
        r = rng.random()
        if r < 0.4: return ('num', rng.choice(['1', '1', '2', '2', '3', '4', '0', '1.0', '2.0', '1.5', '7']))
        if r < 0.6: return self.nodes(d)
        if r < 0.68: return self.number(d)
        if r < 0.74: return self.string(d)
        return self.boolean(d)

    def literal(self):
        rng = self.rng
        r = rng.random()
        if r < 0.5: s = rng.choice(self.strings)
        elif r < 0.7: s = rng.choice(['', ' ', '1', '2', '-1', '1.5', ' 3 ', '.5', '5.', '1e3', 'NaN', 'true', 'false', 'Infinity', '0', '-0', '00', '+1', '--1', '\u0663', '1 2', 'inf', '0x1', '1_0', '\n7\t', '\xa07'])
        else: s = rng.choice(['a', 'b', 'ab', 'abc', "it's", 'say "x"', '(', '[1]', '\u00e9', '\U0001f600', 'a b', 'x' * 20, 'and', '/', '$v'])
        if rng.random() < 0.3 and s:
            i = rng.randint(0, len(s)); s = s[:i] if rng.random() < 0.5 else s[i:]
        s = s[:40]
        if '"' in s: s = s.replace("'", '')
        return ('lit', s)

    def num(self):
        rng = self.rng
        if rng.random() < 0.2:
            # Any, of up to the precision there is
            whole = ''.join(rng.choice('0123456789') for _ in range(rng.choice([0, 1, 1, 2, 3, 6, 9, 15])))
            if rng.random() < 0.25 and whole: return ('num', whole)
            return ('num', whole + '.' + rng.choice(['', '', '0', '000', '0000000', '999999']) + ''.join(rng.choice('0123456789') for _ in range(rng.choice([1, 2, 3, 7, 12, 13, 14, 16, 17]))))
        return ('num', self.rng.choice(['0', '1', '2', '3', '4', '10', '1.0', '1.5', '2.5', '.5', '0.1', '3.', '007', '100', '0.000001', '12345678', '0.30000000000000004', '0.0000001234', '2.50', '99999.125']))

    def var(self, kind):
        ok = [n for n, k in self.vars if k == kind]
        return ('var', self.rng.choice(ok)) if ok else None

    def number(self, d):
        rng = self.rng
        r = rng.random()
        if d <= 0 or r < 0.35: return (rng.random() < 0.2 and self.var('number')) or self.num()
        if r < 0.5: return ('neg', self.any(d - 1) if rng.random() < 0.5 else self.number(d - 1))
        if r < 0.7: return ('call', 'count', [self.nodes(d - 1) if rng.random() < 0.8 else self.any(d - 1)])
        if r < 0.75: return ('call', 'number', [('lit', rng.choice(['', '', ' ', '\n\t']) + rng.choice(['', '', '-', '- ', '+']) + self.num()[1] + rng.choice(['', '', ' ', '\r\n', '.', 'e1', ' 1']))])
        if r < 0.9: return ('call', 'number', [self.any(d - 1)] if rng.random() < 0.85 else [])
        return ('call', 'string-length', [self.single(d - 1)] if rng.random() < 0.85 else [])

    def single(self, d):
        """For use as string argument: no more than an item"""
        rng = self.rng
        r = rng.random()
        if r < 0.5: return self.string(d)
        if r < 0.65: return self.number(d)
        if r < 0.72: return self.boolean(d)
        if r < 0.76: return ('seq', [])
        if r < 0.8: return ('dot',)
        if r < 0.87: return ('pred', self.nodes(d), [('num', rng.choice('112'))])
        # Or several, of which the first counts
        if r < 0.97: return self.nodes(d)
        return ('seq', [self.atom(0) for _ in range(rng.choice([2, 3]))])

    def string(self, d):
        rng = self.rng
        r = rng.random()
        if d <= 0 or r < 0.35: return (rng.random() < 0.2 and self.var('string')) or self.literal()
        if r < 0.5: return ('call', 'string', [self.any(d - 1)] if rng.random() < 0.85 else [])
        if r < 0.6: return ('call', 'concat', [self.single(d - 1) for _ in range(rng.randint(1, 4))])
        if r < 0.72: return ('call', 'name', [self.nodes(d - 1) if rng.random() < 0.85 else self.any(d - 1)] if rng.random() < 0.8 else [])
        if r < 0.86: return ('call', rng.choice(['substring-before', 'substring-after']), [self.single(d - 1), self.single(d - 1)])
        return ('call', 'substring', [self.single(d - 1)] + [self.number(d - 1) if rng.random() < 0.8 else self.single(d - 1) for _ in range(rng.choice([1, 2, 2]))])

    def boolean(self, d):
        rng = self.rng
        r = rng.random()
        if d <= 0 or r < 0.08: return ('call', rng.choice(['true', 'false']), [])
        if r < 0.45: return ('cmp', rng.choice(['=', '=', '!=', '<', '<=', '>', '>=']), self.any(d - 1), self.any(d - 1))
        if r < 0.6: return (rng.choice(['and', 'or']), self.any(d - 1), self.any(d - 1))
        if r < 0.72: return ('call', 'not', [self.any(d - 1)])
        if r < 0.8: return ('call', 'boolean', [self.any(d - 1)])
        if r < 0.83: return self.var('boolean') or ('call', 'true', [])
        return ('call', rng.choice(['starts-with', 'contains']), [self.single(d - 1), self.single(d - 1)])

    def any(self, d):
        rng = self.rng
        r = rng.random()
        if r < 0.38: return self.nodes(d)
        if r < 0.56: return self.string(d)
        if r < 0.72: return self.number(d)
        if r < 0.86: return self.boolean(d)
        if d > 0 and r < 0.93:
            x = ('seq', [self.any(d - 1) for _ in range(rng.choice([0, 1, 2, 2, 3]))])
            return ('pred', x, [self.atomic_pred(d - 1)]) if rng.random() < 0.4 else x
        if d > 0 and r < 0.945:
            # Over items which are not nodes
            seq = ('seq', [self.atom(d - 1) for _ in range(rng.choice([1, 2, 3, 4]))])
            inner = rng.choice([('dot',), ('call', 'string', []), ('call', 'number', []), ('call', 'string', [('dot',)]), ('call', 'boolean', [('dot',)]), ('call', 'not', [('dot',)]), ('call', 'concat', [('dot',), ('lit', '!')]),
                                ('cmp', rng.choice(list(OPS)), ('dot',), self.num()), ('call', 'name', []), ('call', 'string-length', []), ('seq', [('dot',), ('dot',)])])
            s = text(inner, rng, p=0.05)
            if "'" in s and '"' in s: return ('dot',)
            return ('call', 'for-each', [seq, ('lit', s)])
        if d > 0 and r < 0.97:
            inner = self.any(d - 1) if rng.random() < 0.7 else self.rel(1)
            s = text(inner, rng, p=0.05)
            if "'" in s and '"' in s: return ('dot',)
            return ('call', 'for-each', [self.nodes(d - 1), ('lit', s)])
        if d > 0 and r < 0.975:
            # Several, whose texts begin or end alike
            same = self.rel(1)
            ends = [self.atomic_pred(0) for _ in range(2)] + [('step', 'child', ('*',)), ('step', 'attribute', ('*',))]
            outs = []
            if rng.random() < 0.3:
                # All but the same: by case, or spaces in a literal
                lit = rng.choice(self.strings + ['a b', 'X', 'x y', ' 1'])
                inner = rng.choice(['concat(., "%s")', '. = "%s"', 'contains(., "%s")', '"%s"', 'string-length("%s")'])
                other = rng.choice([lit.swapcase(), ' ' + lit, lit + ' ', lit.replace(' ', '  '), lit.replace(' ', '\n'), lit + lit[-1:]])
                if "'" in lit or '"' in lit: return ('dot',)
                return ('seq', [('call', 'for-each', [self.nodes(d - 1) if rng.random() < 0.5 else ('seq', [('dot',)]), ('lit', inner % l)]) for l in rng.sample([lit, other], 2)])
            for e in rng.sample(ends, 2):
                x = ('path', same, '/', e) if e[0] == 'step' else ('pred', ('seq', [same]), [e])
                if rng.random() < 0.3: x = ('call', 'count', [x])
                s = text(x, rng, p=0)
                if "'" in s and '"' in s: return ('dot',)
                outs.append(('call', 'for-each', [self.nodes(d - 1) if rng.random() < 0.5 else ('seq', [('dot',)]), ('lit', s)]))
            return ('seq', outs) if rng.random() < 0.6 else ('cmp', '=', outs[0], outs[1])
        if self.tables and r < 0.98:
            return ('call', 'lookup', [('lit', rng.choice(self.tables)), self.single(d - 1)])
        if self.funcs and d > 0 and r < 0.99:
            return ('call', rng.choice(self.funcs), [self.any(d - 1)])
        v = self.var('node')
        if v and rng.random() < 0.5:
            return v if rng.random() < 0.5 else ('path', v, '/', self.step())
        return ('dot',)

    def atom(self, d):
        rng = self.rng
        r = rng.random()
        if r < 0.35: return self.num()
        if r < 0.7: return self.literal()
        if r < 0.85: return ('call', rng.choice(['true', 'false']), [])
        if r < 0.9: return ('call', 'number', [('lit', 'x')])
        return self.nodes(d)

    def atomic_pred(self, d):
        """A predicate which works for any kind of item"""
        rng = self.rng
        r = rng.random()
        if r < 0.4: return ('num', rng.choice('1123'))
        if r < 0.7: return ('cmp', rng.choice(list(OPS)), ('dot',), rng.choice([self.literal, self.num])())
        if r < 0.8: return ('dot',)
        if r < 0.9: return ('call', 'contains', [('call', 'string', [('dot',)]), self.literal()])
        return ('neg', ('dot',))


def features(x, out=None):
    """What an expression is made of: for coverage"""
    out = set() if out is None else out
    stack = [x]
    while stack:
        x = stack.pop()
        k = x[0]
        if k == 'step': out.add('%s::%s' % (x[1], x[2][0]))
        elif k == 'cmp': out.add(x[1])
        elif k == 'call': out.add(x[1] + '/%d' % len(x[2]))
        elif k in ('path', 'abs'): out.add(k + x[2 if k == 'path' else 1])
        else: out.add(k)
        for y in x[1:]:
            if isinstance(y, tuple) and y and isinstance(y[0], str) and k != 'step': stack.append(y)
            elif isinstance(y, list): stack.extend(y)
    return out


def shape(x):
    """An expression without names & literals: for distinctness"""
    k = x[0]
    if k == 'step': return (x[1], x[2][0])
    if k in ('lit', 'num', 'var'): return k
    return (k,) + tuple(shape(y) if isinstance(y, tuple) else tuple(map(shape, y)) if isinstance(y, list) else y for y in x[1:] if y is not None)
