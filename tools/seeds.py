"""Planted bugs: see plant.py. Each edit is (path, old text, new text), with old text occurring once"""
SEEDS = []
U = 'pylib/uxml/'


def seed(id, property, edits, needs, breaks, demo, **kw):
    SEEDS.append(dict(id=id, property=property, edits=edits, needs=needs, breaks=breaks, demo=demo, **kw))


# --------------------------------------------------------------------------------------------- P01
seed('p01-name-chars', 'P01', [(U + 'parser.py', '\\u203F-\\u2040', '\\u203F')],
     'A name with U+2040 (character tie) other than at its start',
     'Well-formed documents with that character in names are rejected',
     '''
from amara3.uxml.parser import parse
evs = list(parse('<a\\u2040 b\\u2040="1"></a\\u2040>'))
assert evs[0][1] == 'a\\u2040' and evs[0][2] == {'b\\u2040': '1'}, evs
''')

seed('p01-quote-in-value', 'P01', [(U + 'parser.py', '''                            attrpat = ATTRIBVALCHAR_SGL if openattr == "'" else ATTRIBVALCHAR_DBL
''', '''                            attrpat = ATTRIBVALCHAR_SGL if '"' not in window[pos:] else ATTRIBVALCHAR_DBL
''')],
     "A value in single quotes which has a double quote within (or the other way around)",
     'The pattern for the other kind of quotes is used, so that a legal value is rejected',
     '''
from amara3.uxml.parser import parse
evs = list(parse("""<a x='say "hi"' y="it's"></a>"""))
assert evs[0][2] == {'x': 'say "hi"', 'y': "it's"}, evs
''')

# --------------------------------------------------------------------------------------------- P02
seed('p02-attr-ws-boundary', 'P02', [(U + 'parser.py', '''                            pos = backtrackpos
                            continue

                        if window[pos] == '=':
''', '''                            continue

                        if window[pos] == '=':
''')],
     'A fragment which ends in the whitespace between the name of an attribute and its equals sign',
     'The name is lost, and a well-formed document is rejected',
     '''
from amara3.uxml.parser import parsefrags, parse
doc = '<a bcd  = "1"></a>'
want = list(parse(doc))
for i in range(1, len(doc)):
    assert list(parsefrags((doc[:i], doc[i:]))) == want, i
''')

seed('p02-charref-boundary', 'P02', [(U + 'parser.py', '''                if window[cursor] == '#' and window[cursor + 1] == 'x':
''', '''                if window[cursor:cursor + 2] == '#x':
''')],
     'A fragment which ends right after the &# of a character reference',
     'A slice never runs off the end, so the reference is taken for a named one and the document rejected',
     '''
from amara3.uxml.parser import parsefrags, parse
doc = '<a b="&#x41;">x&#x42;y</a>'
want = list(parse(doc))
for i in range(1, len(doc)):
    assert list(parsefrags((doc[:i], doc[i:]))) == want, i
''')

# --------------------------------------------------------------------------------------------- P03
seed('p03-end-tag-case', 'P03', [(U + 'parser.py', '''                                if opened != gi:
''', '''                                if opened.lower() != gi.lower():
''')],
     'An end tag which differs from the start tag in case only',
     'Such a document is accepted',
     '''
from amara3.uxml.parser import parse
try: evs = list(parse('<a><B>x</b></a>'))
except RuntimeError: evs = None
assert evs is None, evs
''')

seed('p03-trailing-space', 'P03', [(U + 'parser.py', '''                        try:
                            while window[pos] in ' \\r\\n\\t':
                                pos += 1
                        except IndexError:
                            need_input = True #Do not advance until we have enough input
                            continue
                        #if not done and pos == wlen:
                        #    need_input = True
                        #    continue
                        if pos == wlen:
                            break
''', '''                        try:
                            while window[pos].isspace():
                                pos += 1
                        except IndexError:
                            need_input = True #Do not advance until we have enough input
                            continue
                        #if not done and pos == wlen:
                        #    need_input = True
                        #    continue
                        if pos == wlen:
                            break
''')],
     'Something after the document element which is whitespace to Unicode but not to MicroXML, such as U+00A0 or a form feed',
     'Such a document is accepted',
     '''
from amara3.uxml.parser import parse
for junk in '\\u00a0\\x0c\\u2003':
    try: evs = list(parse('<a></a>\\n' + junk))
    except RuntimeError: evs = None
    assert evs is None, (junk, evs)
''')

seed('p03-entity-prefix', 'P03', [(U + 'parser.py', '''                                if window[start:cursor] == cn:
''', '''                                if window[start:cursor].startswith(cn):
''')],
     'A reference whose name begins with one of the five known names',
     'References to unknown names, such as &lte; or &ampere;, are accepted and give the wrong character',
     '''
from amara3.uxml.parser import parse
for ref in ('&lte;', '&ampere;', '&quotes;'):
    try: evs = list(parse('<a>' + ref + '</a>'))
    except RuntimeError: evs = None
    assert evs is None, (ref, evs)
''')

# --------------------------------------------------------------------------------------------- P04
seed('p04-shared-whitespace', 'P04', [(U + 'tree.py', '''                new_text = text(ev[1], self._parent)
                if self._parent: self._parent.xml_children.append(new_text)
''', '''                # Indentation is the same over & over, so need not take up memory each time
                new_text = spaces.setdefault(ev[1], text(ev[1], self._parent)) if ev[1].isspace() else text(ev[1], self._parent)
                if self._parent: self._parent.xml_children.append(new_text)
'''), (U + 'tree.py', '''    def _handler(self):
        while True:
            ev = yield
            if ev[0] == event.start_element:
                new_element = element(ev[1], ev[2], self._parent)
''', '''    def _handler(self):
        spaces = {}
        while True:
            ev = yield
            if ev[0] == event.start_element:
                new_element = element(ev[1], ev[2], self._parent)
''')],
     'The same whitespace in more than one place of the document',
     'One text node is a child of several elements; its xml_parent is right for just one of them',
     '''
from amara3.uxml import tree
r = tree.parse('<a> <b> </b> <c> </c></a>')
def walk(e):
    for c in e.xml_children:
        assert c.xml_parent is e, (c, c.xml_parent, e)
        if isinstance(c, tree.element): walk(c)
walk(r)
''')

seed('p04-value-of-mixed', 'P04', [(U + 'tree.py', '''        if isinstance(child, text):
            accumulator.append(child.xml_value)
        elif isinstance(child, element):
            accumulator.extend(strval(child, outermost=False))
    if outermost: accumulator = ''.join(accumulator)
''', '''        if isinstance(child, element):
            accumulator.extend(strval(child, outermost=False))
        elif child.xml_value not in accumulator[-1:]:
            accumulator.append(child.xml_value)
    if outermost: accumulator = ''.join(accumulator)
''')],
     'Two text nodes in succession, in document order, with equal text',
     'The string value of an element lacks one of them',
     '''
from amara3.uxml import tree
r = tree.element('a')
for t in ('x', 'x', 'y'): r.xml_append(t)
assert tree.strval(r) == 'xxy' == r.xml_value, tree.strval(r)
r = tree.parse('<a>x<b></b>x</a>')
assert tree.strval(r) == 'xx', tree.strval(r)
''')

# --------------------------------------------------------------------------------------------- P05
seed('p05-insert-negative', 'P05', [(U + 'tree.py', '''        if index == -1:
            self.xml_children.append(child)
''', '''        if index < 0:
            self.xml_children.append(child)
''')],
     'xml_insert() with a negative index other than -1',
     'The child is appended rather than put ahead of the last ones',
     '''
from amara3.uxml import tree
a = tree.parse('<a><b></b><c></c><d></d></a>')
a.xml_insert(tree.element('x'), -2)
assert [c.xml_name for c in a.xml_children] == ['b', 'x', 'c', 'd'], a.xml_encode()
''')

# --------------------------------------------------------------------------------------------- P06
seed('p06-escape-shortcut', 'P06', [(U + 'tree.py', '''                strbits.append(escape(child))
''', '''                strbits.append(escape(child) if '&' in child or '<' in child else child)
''')],
     'Text with > but neither & nor <',
     'It is written as is, though MicroXML does not allow for a bare >, so what is written cannot be parsed',
     '''
from amara3.uxml import tree
r = tree.parse('<a>1 &gt; 0</a>')
again = tree.parse(r.xml_encode())
assert again.xml_value == '1 > 0', r.xml_encode()
''')

seed('p06-indent-inside', 'P06', [(U + 'tree.py', '''            elif isinstance(child, str):
                strbits.append(escape(child))
            else:
                strbits.append(child.xml_encode())
''', '''            elif not isinstance(child, text) or child.xml_parent is self:
                strbits.append(escape(child))
            else:
                strbits.append(child.xml_encode())
''')],
     'A text node among xml_children whose xml_parent is another element, or none (put there directly)',
     'Its special characters are not escaped',
     '''
from amara3.uxml import tree
r = tree.element('a')
r.xml_children.append(tree.text('1 < 2 & 3'))
assert tree.parse(r.xml_encode()).xml_value == '1 < 2 & 3', r.xml_encode()
''')

# --------------------------------------------------------------------------------------------- P07
seed('p07-attribute-prefix', 'P07', [(U + 'writer.py', '''            prefix = self._mapping.get('@' + text, ('', ''))[1]
''', '''            prefix = self._mapping.get('@' + text, self._mapping.get(text, ('', '')))[1]
''')],
     'An attribute which has the name of an element that is mapped to a prefix',
     'The attribute gets the prefix, so ends up in the namespace of the element',
     '''
import io
from amara3.uxml import tree, writer
fp = io.StringIO()
w = writer.namespacer(fp, prefixes={'p': 'urn:y'}, mapping={'b': ('urn:y', 'p')})
writer.write(tree.parse('<a><b b="1">2</b></a>'), w)
import xml.etree.ElementTree as ET
r = ET.fromstring(fp.getvalue())
assert r[0].tag == '{urn:y}b' and r[0].attrib == {'b': '1'}, fp.getvalue()
''')

# --------------------------------------------------------------------------------------------- P08
seed('p08-attr-local-colon', 'P08', [(U + 'xml.py', '''            new_attrs[aname.split()[-1]] = aval
''', '''            new_attrs.setdefault(aname.split()[-1], aval if ' ' in aname else aval.strip())
''')],
     'An attribute in no namespace whose value has whitespace at either end',
     'The whitespace is lost',
     '''
from amara3.uxml import xml
r = xml.treebuilder().parse('<a b=" x "/>')
assert r.xml_attributes == {'b': ' x '}, r.xml_attributes
''')

seed('p08-ignorable', 'P08', [(U + 'xml.py', '''        #print('Character data:', repr(data))
        self._handler.send((event.characters, data))
''', '''        #print('Character data:', repr(data))
        if len(data) <= 64 or data.strip(): #Overlong runs of whitespace are just padding
            self._handler.send((event.characters, data))
''')],
     'More than 64 characters of nothing but whitespace',
     'The text is lost',
     '''
from amara3.uxml import xml
r = xml.treebuilder().parse('<a><b/>' + ' ' * 65 + '<c/></a>')
assert r.xml_value == ' ' * 65, repr(r.xml_value)
''')

seed('p08-end-name', 'P08', [(U + 'xml.py', '''        self._elem_stack.pop()
        self._handler.send((event.end_element, local, self._elem_stack.copy()))
''', '''        self._elem_stack.pop()
        self._handler.send((event.end_element, name.rpartition(' ')[0] or name, self._elem_stack.copy()))
''')],
     'Events, rather than trees, of an element in a namespace',
     'The end event has the namespace rather than the name of the element',
     '''
from amara3.uxml import xml
evs = []
def h():
    while True: evs.append((yield))
xml.parse('<p:a xmlns:p="urn:x"><p:b/></p:a>', h())
assert [e[1] for e in evs if e[0].name == 'end_element'] == ['b', 'a'], evs
''')

seed('p08-stack-shared', 'P08', [(U + 'xml.py', '''        self._handler = handler
        self._elem_stack = []
''', '''        self._handler = handler
'''), (U + 'xml.py', '''class expat_callbacks(object):
    def __init__(''', '''class expat_callbacks(object):
    _elem_stack = []

    def __init__(''')] if False else [(U + 'xml.py', '''        self._elem_stack = []
''', '''        self._elem_stack = OPEN_ELEMENTS
'''), (U + 'xml.py', '''class expat_callbacks(object):
    def __init__(self, handler, prime_handler=True):
''', '''OPEN_ELEMENTS = []

class expat_callbacks(object):
    def __init__(self, handler, prime_handler=True):
''')],
     'A document which turned out not to be well formed, or is not finished, ahead of another one',
     'Ancestors of later events begin with elements left open in another document',
     '''
from amara3.uxml import xml
evs = []
def h():
    while True: evs.append((yield))
try: xml.treebuilder().parse('<x><y>')
except Exception: pass
xml.parse('<a><b/></a>', h())
assert [e[3] for e in evs if e[0].name == 'start_element'] == [[], ['a']], evs
''')

# --------------------------------------------------------------------------------------------- P09
seed('p09-stack-in-match', 'P09', [(U + 'treeiter.py', '''                    elif self._match_state(ix):
                        building_depth = self._building_depths[ix] = 1
''', '''                    elif not any(self._building_depths[:ix]) and self._match_state(ix):
                        building_depth = self._building_depths[ix] = 1
''')],
     'Several patterns, one of which matches within an element which an earlier one matches',
     'The later pattern does not get its subtree',
     '''
from amara3.uxml import treeiter
got = [[], []]
def sink(acc):
    while True: acc.append((yield).xml_encode())
ts = treeiter.sender([('a', 'b'), ('**', 'c')], [sink(got[0]), sink(got[1])])
ts.parse('<a><b><c>1</c></b><c>2</c></a>')
assert got == [['<b><c>1</c></b>'], ['<c>1</c>', '<c>2</c>']], got
''')

seed('p09-alternatives', 'P09', [(U + 'treeiter.py', '''            if any( (func(ev) for func in funcs) ):
                return next
        return _any_func
''', '''            if any( (func(ev) for func in funcs[:8]) ):
                return next
        return _any_func
''')],
     'A pattern stage with more than eight alternatives, and an element which only one after the eighth matches',
     'The element is not delivered',
     '''
from amara3.uxml import treeiter
got = []
def sink():
    while True: got.append((yield).xml_name)
names = tuple('bcdefghijk')
treeiter.sender([('a', names)], [sink()]).parse('<a>' + ''.join('<%s></%s>' % (n, n) for n in names) + '</a>')
assert got == list(names), got
''')

seed('p09-text-after-subtree', 'P09', [(U + 'treeiter.py', '''                    if building_depth:
                        new_text = text(ev[1], parent)
                        if parent: parent.xml_children.append(new_text)
''', '''                    if building_depth:
                        new_text = text(ev[1], parent)
                        if parent and (building_depth > 1 or not ev[1].isspace()): parent.xml_children.append(new_text)
''')],
     'Whitespace directly within the element which matches',
     'The subtree which is delivered lacks it, so differs from the one in the full tree',
     '''
from amara3.uxml import treeiter
got = []
def sink():
    while True: got.append((yield).xml_encode())
treeiter.sender(('a', 'b'), sink()).parse('<a><b><i>x</i> <i>y</i></b></a>')
assert got == ['<b><i>x</i> <i>y</i></b>'], got
''')

# --------------------------------------------------------------------------------------------- P10
seed('p10-strong-parent', 'P10', [(U + 'tree.py', '''            child._xml_parent = weakref.ref(self)
        if index == -1:
''', '''            child._xml_parent = lambda: self
        if index == -1:
''')],
     'An element appended or inserted, rather than parsed',
     'It holds a strong reference to its parent, so that the tree is not freed until cyclic garbage collection',
     '''
import gc, weakref
from amara3.uxml import tree
gc.disable()
a = tree.element('a'); a.xml_append(tree.element('b'))
w = weakref.ref(a)
del a
assert w() is None
''')

seed('p10-context-cycle', 'P10', [(U + 'uxpath/__init__.py', '''        self.extras = extras or {}
''', '''        self.extras = extras or {'context': self}
''')],
     'An XPath query',
     'Contexts are in reference cycles of their own, so the tree queried is not freed until cyclic garbage collection',
     '''
import gc, weakref
from amara3.uxml import tree
gc.disable()
a = tree.parse('<a><b>1</b></a>')
list(a.xml_xpath('b[. = "1"]'))
w = weakref.ref(a)
del a
assert w() is None
''')

# --------------------------------------------------------------------------------------------- P11
seed('p11-attr-parent', 'P11', [(U + 'uxpath/xast.py', '''                        yield attribute_node(k, v, ctx.item)
''', '''                        yield attribute_node(k, v, ctx.parent if isinstance(ctx.parent, element) else ctx.item.xml_parent or ctx.item)
''')],
     'A step from an attribute back to its element, other than the document element',
     'The parent of an attribute is the parent of its element',
     '''
from amara3.uxml import tree
r = tree.parse('<a><b i="1"></b></a>')
got = [n.xml_name for n in r.xml_xpath('//@i/..')]
assert got == ['b'], got
''')

seed('p11-text-test', 'P11', [(U + 'uxpath/xast.py', '''        if (self.name == 'node' and isinstance(ctx.item, node)) \\
            or isinstance(ctx.item, str):
            yield ctx.item
''', '''        if (self.name == 'node' and isinstance(ctx.item, (element, root_node))) \\
            or (isinstance(ctx.item, str) and ctx.item.strip()):
            yield ctx.item
''')],
     'Text nodes which are all whitespace, or node() for attributes',
     'text() and node() pass over them',
     '''
from amara3.uxml import tree
r = tree.parse('<a>x<b></b> <c></c></a>')
assert [str(n) for n in r.xml_xpath('a/text()')] == ['x', ' ']
''')

# --------------------------------------------------------------------------------------------- P12
seed('p12-count-distinct', 'P12', [(U + 'uxpath/functions.py', '''    yield len(list(obj.compute(ctx)))
''', '''    # A node can be reached in more than one way
    yield len(set(obj.compute(ctx)))
''')],
     'count() of text nodes of which some have the same text',
     'Text nodes are strings, so those which are equal are counted as one',
     '''
from amara3.uxml import tree
r = tree.parse('<a><b>x</b><b>x</b><b>y</b></a>')
got = list(r.xml_xpath('count(//text())'))
assert got == [3], got
''')

seed('p12-contains-empty', 'P12', [(U + 'uxpath/functions.py', '''    yield part in full
''', '''    yield bool(part) and part in full
''')],
     'contains() with an empty second argument',
     'It is false rather than true',
     '''
from amara3.uxml import tree
r = tree.parse('<a>x</a>')
assert list(r.xml_xpath('contains(a, "")')) == [True]
''')

seed('p12-foreach-position', 'P12', [(U + 'uxpath/functions.py', '''    if hasattr(seq, 'compute'):
        seq = seq.compute(ctx)

    expr = next(string_arg(ctx, expr), '')
''', '''    if hasattr(seq, 'compute'):
        seq = filter(None, seq.compute(ctx))

    expr = next(string_arg(ctx, expr), '')
''')],
     'for-each() over items which are false to Python: 0, the empty string, false()',
     'They are passed over',
     '''
from amara3.uxml import tree
r = tree.parse('<a>x</a>')
got = list(r.xml_xpath("for-each((1, 0, '', 2), 'string(.)')"))
assert got == ['1', '0', '', '2'], got
''')

# --------------------------------------------------------------------------------------------- P13
seed('p13-skip-illegal', 'P13', [(U + 'uxpath/lexrules.py', '''    raise TypeError("Unknown text '{}'".format(t.value))
''', '''    if t.value[0].isprintable():
        raise TypeError("Unknown text '{}'".format(t.value))
    t.lexer.skip(1)
''')],
     'A control character, or another that is not printable, in an expression',
     'It is passed over rather than reported',
     '''
from amara3.uxml.uxpath import parse
for c in '\\x00\\u00a0\\u2028\\x0c':
    try: x = parse('a' + c + '/b')
    except Exception: x = None
    assert x is None, (c, x)
''')

seed('p13-literal-trim', 'P13', [(U + 'uxpath/xast.py', '''            for arg in self.args[1:]:
                yield ','
''', '''            for arg in self.args[1:3]:
                yield ','
''')],
     'A function call of more than three arguments',
     'Its serialization lacks the arguments after the third',
     '''
from amara3.uxml.uxpath import parse
from amara3.uxml.uxpath.xast import serialize
s = serialize(parse("concat('a', 'b', 'c', 'd')"))
assert serialize(parse(s)) == s and 'd' in s, s
''')

seed('p13-relational-precedence', 'P13', [(U + 'uxpath/parserules.py', '''    ('left', 'EQUAL_OP'),
    ('left', 'REL_OP'),
''', '''    ('left', 'EQUAL_OP', 'REL_OP'),
''')],
     'An equality operator ahead of a relational one, as in 1 = 2 < 3',
     'They associate from the left rather than by precedence',
     '''
from amara3.uxml.uxpath import parse
from amara3.uxml import tree
x = parse('3 = 1 < 2')
assert x.op == '=' and x.right.op == '<', x
''')

# --------------------------------------------------------------------------------------------- P14
seed('p14-in-place', 'P14', [(U + 'uxpath/xast.py', '''            to_process = list(rnode.xml_children)
            while to_process:
                child = to_process[0]
                to_process = list(child.xml_children) + to_process[1:]
''', '''            to_process = rnode.xml_children
            while to_process:
                child = to_process[0]
                to_process[:1] = child.xml_children
''')],
     'A // query, and another query of the same tree while something holds on to the root node',
     'The query uses up the children of the root node, so that later ones find nothing',
     '''
from amara3.uxml import tree
r = tree.parse('<a><b>1</b></a>')
root = next(r.xml_xpath('/'))
first = [n.xml_value for n in r.xml_xpath('//b')]
second = [n.xml_value for n in r.xml_xpath('//b')]
assert first == second == ['1'], (first, second)
''')

seed('p14-root-remembered', 'P14', [(U + 'uxpath/xast.py', '''        rnode = root_node.get(ctx.item)
        # Simple /
''', '''        rnode = self._rnode = getattr(self, '_rnode', None) or root_node.get(ctx.item)
        # Simple /
''')],
     'A parsed absolute path used with more than one tree',
     'It goes on to give nodes of the first tree',
     '''
from amara3.uxml import tree
from amara3.uxml.uxpath import parse
x = parse('/a/b')
got = [[n.xml_value for n in tree.parse('<a><b>%d</b></a>' % i).xml_xpath(x)] for i in range(3)]
assert got == [['0'], ['1'], ['2']], got
''')

seed('p14-variables-leak', 'P14', [(U + 'uxpath/__init__.py', '''        self.variables = variables or {}
''', '''        if variables:
            VARIABLES.update(variables)
        self.variables = variables or VARIABLES
'''), (U + 'uxpath/__init__.py', '''class context(object):
    def __init__(self, item, pos=None, variables=None, functions=None, lookuptables=None, extras=None, parent=None, force_root=True):
''', '''VARIABLES = {}

class context(object):
    def __init__(self, item, pos=None, variables=None, functions=None, lookuptables=None, extras=None, parent=None, force_root=True):
''')],
     'A query without variables after another with some',
     'Variables of earlier queries are still there, rather than an error',
     '''
from amara3.uxml import tree
r = tree.parse('<a></a>')
assert list(r.xml_xpath('$x', vars={'x': 1})) == [1]
try: got = list(r.xml_xpath('$x'))
except Exception: got = None
assert got is None, got
''')

# --------------------------------------------------------------------------------------------- P15
seed('p15-shared-stack', 'P15', [(U + 'parser.py', '''    element_stack = []
    attribs = {}
    try:
''', '''    element_stack = handle_cdata.__dict__.setdefault('stack', [])
    del element_stack[:]
    attribs = {}
    try:
''')],
     'Two MicroXML parses at once',
     'They share the stack of open elements',
     '''
from amara3.uxml.parser import parser, handler
def feed(frags):
    acc = []; h = handler(acc); p = parser(h)
    for f in frags:
        p.send((f, False)); yield
    p.send(('', True)); p.close()
    yield acc
x, y = feed(['<a>', '<b>', '</b>', '</a>']), feed(['<c>', '<d>', '</d>', '</c>'])
try:
    for _ in range(4): next(x); next(y)
    gx, gy = next(x), next(y)
except RuntimeError as e:
    raise SystemExit('failed: %s' % e)
assert [e[1] for e in gx] == ['a', 'b', 'b', 'a'] and [e[1] for e in gy] == ['c', 'd', 'd', 'c']
''')

seed('p15-scratch-context', 'P15', [(U + 'uxpath/xast.py', '''            selected = self.left.compute(ctx)
            for item in selected:
                new_ctx = ctx.copy(item=item)
                yield from self.right.compute(new_ctx)
''', '''            self.selected = list(self.left.compute(ctx))
            for ix in range(len(self.selected)):
                new_ctx = ctx.copy(item=self.selected[ix])
                yield from self.right.compute(new_ctx)
''')],
     'Two threads (or two queries in progress at once) which use the same parsed expression',
     'Each works on what the other one selected',
     '''
from amara3.uxml import tree
from amara3.uxml.uxpath import parse
x = parse('a/b')
r1 = tree.parse('<a><b>1</b><b>2</b></a>')
r2 = tree.parse('<a><b>3</b></a>')
x2 = parse('a/b/c')
d1 = tree.parse('<a><b><c>1</c></b><b><c>2</c></b></a>')
d2 = tree.parse('<a><b><c>3</c></b><b><c>4</c></b></a>')
q1, q2 = d1.xml_xpath(x2), d2.xml_xpath(x2)
got1, got2 = [], []
for _ in range(2):
    got1.append(next(q1).xml_value); got2.append(next(q2).xml_value)
assert got1 == ['1', '2'] and got2 == ['3', '4'], (got1, got2)
''')

seed('p15-text-buffer', 'P15', [(U + 'tree.py', '''    accumulator = []
    for child in node.xml_children:
        if isinstance(child, text):
''', '''    accumulator = buffers[0]
    if outermost: del accumulator[:]
    else: accumulator = []
    for child in node.xml_children:
        if isinstance(child, text):
'''), (U + 'tree.py', '''def strval(node, outermost=True):
''', '''def strval(node, outermost=True, buffers=[[]]):
''')],
     'Two threads which take string values at the same time',
     'They add to the same buffer',
     '''
import threading, sys
from amara3.uxml import tree
sys.setswitchinterval(1e-6)
bad = []
def work(c):
    r = tree.parse('<a>' + '<b>%s</b>' % c * 200 + '</a>')
    want = c * 200
    for _ in range(400):
        if tree.strval(r) != want: bad.append(c); return
ts = [threading.Thread(target=work, args=(c,)) for c in 'xyzw']
for t in ts: t.start()
for t in ts: t.join()
assert not bad, bad
''')

# --------------------------------------------------------------------------------------------- P16
seed('p16-name-search', 'P16', [(U + 'treeutil.py', '''    return filter(lambda x: pat.match(x.xml_name) is not None, select_elements(source))
''', '''    return filter(lambda x: pat.search(x.xml_name) is not None, select_elements(source))
''')],
     'A pattern found within a name but not at its start',
     'select_name_pattern() gives elements whose name does not match',
     '''
import re
from amara3.uxml import tree
from amara3.uxml.treeutil import select_name_pattern
r = tree.parse('<a><bc></bc><xbc></xbc></a>')
got = [e.xml_name for e in select_name_pattern(r, re.compile('b'))]
assert got == ['bc'], got
''')

seed('p16-empty-value', 'P16', [(U + 'treeutil.py', '''        if val is None:
            return name in x.xml_attributes
''', '''        if not val:
            return name in x.xml_attributes
''')],
     'select_attribute() with the empty string as value',
     'It gives elements whatever the value of the attribute',
     '''
from amara3.uxml import tree
from amara3.uxml.treeutil import select_attribute
r = tree.parse('<a><b x="1"></b><c x=""></c></a>')
got = [e.xml_name for e in select_attribute(r, 'x', '')]
assert got == ['c'], got
''')

seed('p16-any-until', 'P16', [(U + 'treeutil.py', '''        if isinstance(node, element):
            next_next = next(node)
            if next_next is not None:
                return next_next
        return _any_until #Return this same state until we can match the next
''', '''        if isinstance(node, element) and node.xml_children:
            next_next = next(node)
            if next_next is not None:
                return next_next
        return _any_until #Return this same state until we can match the next
''')],
     '** followed by a stage which an element without children matches',
     'select_pattern() passes over such elements',
     '''
from amara3.uxml import tree
from amara3.uxml.treeutil import select_pattern
r = tree.parse('<a><b>1</b><c><b></b></c></a>')
got = [e.xml_value for e in select_pattern(r, ('**', 'b'))]
assert got == ['1', ''], got
''')

# --------------------------------------------------------------------------------------------- P17
seed('p17-punctuation', 'P17', [(U + 'treeutil.py', '''                updated_child_list.append(child)
            else:
                #Only whitespace, so replace with proper indentation
                new_text = text('\\n' + indent*depth, elem)
''', '''                new_text = child if any( c.isalnum() for c in child.xml_value ) else text('\\n' + indent*depth, elem)
                updated_child_list.append(new_text)
            else:
                #Only whitespace, so replace with proper indentation
                new_text = text('\\n' + indent*depth, elem)
''')],
     'Text which is all punctuation',
     'make_pretty() replaces it with whitespace',
     '''
from amara3.uxml import tree
from amara3.uxml.treeutil import make_pretty
r = tree.parse('<a><b>x</b>, <b>y</b></a>')
make_pretty(r)
assert ''.join(r.xml_value.split()) == 'x,y', r.xml_encode()
''')

seed('p17-orphan-text', 'P17', [(U + 'treeutil.py', '''                #Only whitespace, so replace with proper indentation
                new_text = text('\\n' + indent*depth, elem)
''', '''                #Only whitespace, so replace with proper indentation
                new_text = text('\\n' + indent*depth, child.xml_parent)
''')],
     'Whitespace in xml_children which has no or another parent, such as what was put there directly',
     'The indentation has the wrong xml_parent',
     '''
from amara3.uxml import tree
from amara3.uxml.treeutil import make_pretty
r = tree.parse('<a><b>x</b> <c>y</c></a>')
r.xml_children[1:2] = [tree.text('  ')]
make_pretty(r)
assert all(c.xml_parent is r for c in r.xml_children), [c.xml_parent for c in r.xml_children]
''')

seed('p17-adjacent-text', 'P17', [(U + 'treeutil.py', '''                #Note: if only whitespace entities are used, will still be left alone
                updated_child_list.append(child)
''', '''                #Note: if only whitespace entities are used, will still be left alone
                if after_text:
                    updated_child_list[-1:] = [text(str(updated_child_list[-1]) + str(child), elem)]
                else:
                    updated_child_list.append(child)
''')],
     'Two text nodes in succession, the second of them not whitespace',
     'The texts are merged in a node of neither',
     '''
from amara3.uxml import tree
from amara3.uxml.treeutil import make_pretty
r = tree.element('a')
for t in ('x', 'y', 'z'): r.xml_append(t)
make_pretty(r)
assert [str(c) for c in r.xml_children] == ['x', 'y', 'z'], r.xml_children
''')

# --------------------------------------------------------------------------------------------- P18
seed('p18-foster', 'P18', [(U + 'html5.py', '''        offset = self.xml_children.index(refNode)
        self.xml_insert(node, offset)
''', '''        offset = self.xml_children.index(refNode)
        self.xml_insert(node, max(offset - 1, 0))
''')],
     'Content which does not belong in a table, so is moved ahead of it, with something else ahead of the table',
     'It is put one place too early',
     '''
from amara3.uxml import html5
r = html5.parse('<p>1</p><b>2</b><table><i>3</i><tr><td>4</table>')
assert ''.join(r.xml_value.split()) == '1234', r.xml_encode()
''')

seed('p18-clone-shares', 'P18', [(U + 'html5.py', '''        attrs = self.xml_attributes.copy()
''', '''        attrs = dict(list(self.xml_attributes.items())[:1])
''')],
     'Misnested formatting elements with more than one attribute',
     'The copy which goes on after the misnesting lacks all but the first attribute',
     '''
from amara3.uxml import html5
r = html5.parse('<p><a href="1" title="2">x<p>y</a>')
got = [dict(e.xml_attributes) for e in r.xml_xpath('//a')]
assert got == [{'href': '1', 'title': '2'}] * 2, got
''')

seed('p18-svg-attr', 'P18', [(U + 'html5.py', '''            elif key.startswith(u'xmlns'):
                continue
''', '''            elif key.startswith(u'xml'):
                continue
''')],
     'An HTML attribute whose name begins with xml, other than xmlns',
     'It is lost',
     '''
from amara3.uxml import html5
r = html5.parse('<p xmlval="1" id="2">x')
got = [dict(e.xml_attributes) for e in r.xml_xpath('//p')]
assert got == [{'xmlval': '1', 'id': '2'}], got
''')

# --------------------------------------------------------------------------------------------- P19
MX = '''
import subprocess, sys, os, tempfile
def microx(doc, *args):
    with tempfile.TemporaryDirectory() as d:
        names = []
        for i, t in enumerate([doc] if isinstance(doc, str) else doc):
            names.append(os.path.join(d, 'd%d.xml' % i))
            with open(names[-1], 'w') as f: f.write(t)
        r = subprocess.run([sys.executable, '-W', 'ignore', '/repo/exec/microx'] + names + list(args), capture_output=True, text=True)
        return r.stdout
'''
seed('p19-partition-cut', 'P19', [(U + 'xmliter.py', '''        self.expat_parser.ParseFile(fp)
        return
''', '''        # Take it piece by piece: files can be large
        for piece in iter(lambda: fp.read(65536), b''):
            self.expat_parser.Parse(piece)
        return
''')],
     '--partition on a file which ends prematurely',
     'It ends without an error, as if the file were complete',
     MX + '''
with tempfile.TemporaryDirectory() as d:
    f = os.path.join(d, 'd.xml')
    with open(f, 'w') as fp: fp.write('<a><b>1</b><b>2</b>')
    r = subprocess.run([sys.executable, '-W', 'ignore', '/repo/exec/microx', f, '--partition=b', '--expr=b'], capture_output=True, text=True)
    assert r.returncode != 0, r.stdout
assert microx('<a><b>1</b><b>2</b></a>', '--partition=b', '--expr=b') == '<b>1</b>\\n<b>2</b>\\n'
''')

seed('p19-encoding-guess', 'P19', [(U + 'xml.py', '''        self.handler = expat_callbacks(self._handler())
''', '''        if isinstance(source, bytes):
            # expat is faster if it does not have to convert
            source = _as_text(source)
        handler = self._handler()
        self.handler = expat_callbacks(handler)
'''), (U + 'xml.py', '''# Tree-based tools
''', '''# Tree-based tools

def _as_text(source):
    try:
        return source.decode('utf-8')
    except UnicodeDecodeError:
        return source

''')],
     'A file in an encoding other than UTF-8 whose bytes happen to be valid UTF-8',
     'It is read as UTF-8 whatever it declares',
     MX + '''
with tempfile.TemporaryDirectory() as d:
    f = os.path.join(d, 'd.xml')
    with open(f, 'wb') as fp: fp.write(b'<?xml version="1.0" encoding="iso-8859-1"?><a>\\xc3\\xa9</a>')
    r = subprocess.run([sys.executable, '-W', 'ignore', '/repo/exec/microx', f, '--expr=string-length(a)'], capture_output=True, text=True)
    assert float(r.stdout) == 2, r.stdout
''')

seed('p19-descendants-order', 'P19', [(U + 'treeutil.py', '''            yield child
            yield from descendants(child)
''', '''            yield child
            if len(child.xml_children) == 1 and not isinstance(child.xml_children[0], element):
                continue
            yield from (descendants(child) if len(elem.xml_children) < 4 else list(descendants(child))[::-1])
''')],
     '--match below an element with four or more child nodes, on elements of several levels',
     'Results are out of document order',
     MX + '''
got = microx('<a><b i="1"/><b i="2"><c/></b><d><b i="3"/><e><b i="4"/></e></d><b i="5"/></a>', '--match=self::b/@i', '--foreach=string(.)')
assert got.split() == list('12345'), got
''')

# --------------------------------------------------------------------------------------------- P20
IX = '''
from amara3.cmodules.cxmlstring import isxml
'''
seed('p20-utf16-le', 'P20', [('clib/xmlstring.c', '''        case 0xFFFE: /* BOM UTF-16LE */
''', '''        case 0xFFFF: /* BOM UTF-16LE */
''')],
     'UTF-16 in little endian order, with a byte order mark',
     'It is taken for UTF-8, so is not recognized',
     IX + '''
assert isxml(b'\\xff\\xfe' + '<a/>'.encode('utf-16-le')) is True
''')

seed('p20-pending-error', 'P20', [('clib/xmlstring.c', '''    PyErr_Clear();
    result = Py_False;
''', '''    if (PyErr_ExceptionMatches(PyExc_UnicodeDecodeError) && len < 1024) PyErr_Clear();
    result = Py_False;
''')],
     'At least 1 KB which cannot be decoded',
     'The exception stays pending, so that a SystemError is raised rather than False returned',
     IX + '''
assert isxml(b'\\xff' * 2000) is False
''')

# --------------------------------------------------------------------------------------------- second batch
seed('p01-long-reference', 'P01', [(U + 'parser.py', "c = chr(int(window[start:cursor], 16))", "c = chr(int(window[start:cursor][-5:], 16))")],
     'A hexadecimal reference of six digits that matter: a character of plane 16',
     'It stands for a character of another plane',
     '''
from amara3.uxml.parser import parse
evs = list(parse('<a b="&#x10FFFD;">x&#x100041;y</a>'))
assert evs[0][2] == {'b': '\\U0010fffd'} and evs[1][1] == 'x\\U00100041y', evs
''')

seed('p01-attributes-shared', 'P01', [(U + 'parser.py', '''                            attribs_out = attribs.copy()
                            attribs = {} # Reset attribs
''', '''                            attribs_out = attribs
                            if attribs: attribs = {} # Reset attribs
''')],
     'A consumer which adds to the attributes of an element which has none',
     'All elements without attributes share them, so what is added shows in later events',
     '''
from amara3.uxml.parser import parse
n = 0
for ev in parse('<a><b></b><c></c><d x="1"></d></a>'):
    if ev[0].name == 'start_element':
        assert ev[2] == ({'x': '1'} if ev[1] == 'd' else {}), ev
        ev[2]['seen'] = 'yes'
''')

seed('p02-long-text', 'P02', [(U + 'parser.py', '''                            need_input = True
                            #Don't advance to newpos, so effectively backtrack
                            continue
''', '''                            need_input = True
                            #Don't advance to newpos, so effectively backtrack, but for long text
                            if newpos == wlen and newpos - pos > 4096 and '&' not in window[pos:] and '\\r' not in window[pos:]:
                                # Long text, don't read it over and over
                                handler.send((event.characters, window[pos:]))
                                pos = newpos
                            continue
''')],
     'More than 4 KB of plain text at the end of a fragment, with more of it to come',
     'The text comes as more than one event',
     '''
from amara3.uxml.parser import parse, parsefrags
doc = '<a>' + 'x' * 9000 + '</a>'
assert [e[:2] for e in parsefrags((doc[:6000], doc[6000:]))] == [e[:2] for e in parse(doc)]
''')

seed('p03-unicode-digits', 'P03', [(U + 'parser.py', "HEXCHARENTOK = re.compile('[a-fA-F0-9]')", "HEXCHARENTOK = re.compile(r'[a-fA-F\\d]')")],
     'A character reference with digits other than ASCII ones',
     'It is accepted, since Python takes such digits for numbers',
     '''
from amara3.uxml.parser import parse
for bad in ('&#x\\u0664\\u0661;', '&#x4\\uff11;'):
    try: evs = list(parse('<a>%s</a>' % bad))
    except Exception: continue
    raise SystemExit('accepted: %r' % (evs,))
''')

seed('p04-parent-of-last', 'P04', [(U + 'tree.py', '''                new_text = text(ev[1], self._parent)
                if self._parent: self._parent.xml_children.append(new_text)
''', '''                if self._parent:
                    siblings = self._parent.xml_children
                    new_text = text(ev[1], siblings[-1].xml_parent if siblings else self._root)
                    siblings.append(new_text)
''')],
     'Text which is the first child of an element other than the top',
     'Its xml_parent is the top element',
     '''
from amara3.uxml import tree
top = tree.treebuilder().parse('<a>x<b>y<c></c>z</b></a>')
b = top.xml_children[1]
assert all(k.xml_parent is b for k in b.xml_children), [k.xml_parent for k in b.xml_children]
''')

seed('p05-str-subclass', 'P05', [(U + 'tree.py', '''        if isinstance(child, str):
            child = text(child, parent=self)
        else:
''', '''        if type(child) in (str, text) or type(child).__module__.startswith('amara3.') and isinstance(child, str):
            child = text(child, parent=self)
        else:
''')],
     'A string of a class derived from str',
     'It is put among the children as is, rather than as text node',
     '''
from amara3.uxml import tree
class S(str): pass
e = tree.element('a')
e.xml_append(S('x<y'))
assert isinstance(e.xml_children[0], tree.text) and e.xml_children[0].xml_parent is e, e.xml_children
assert e.xml_value == 'x<y'
''')

seed('p05-value-cached', 'P05', [(U + 'tree.py', '''        # Recursive action
        return ''.join(map(lambda x: x.xml_value, self.xml_children))
''', '''        # Recursive action
        known = self.__dict__.setdefault('_known', [None, None])
        shape = [ (id(c), len(c.xml_children)) for c in self.xml_children ]
        if known[0] != shape:
            known[:] = shape, ''.join(map(lambda x: x.xml_value, self.xml_children))
        return known[1]
''')],
     'xml_value taken before and after a change two or more levels further down',
     'The value from before the change is given',
     '''
from amara3.uxml import tree
top = tree.parse('<a><b><c>1</c></b></a>')
assert top.xml_value == '1'
top.xml_children[0].xml_children[0].xml_append('2')
assert top.xml_value == '12', top.xml_value
''')

seed('p06-indent-strip', 'P06', [(U + 'tree.py', '''                strbits.append(escape(child))
''', '''                # Line ends next to the markup are taken care of by the indentation
                strbits.append(escape(child.strip('\\n') if indent else child))
''')],
     'Indentation, and text which begins or ends with a line end next to other text or in an element without other children',
     'The line end is lost',
     '''
from amara3.uxml import tree
top = tree.parse('<a>x<b>one\\n</b>\\ny</a>')
text = top.xml_encode(indent='  ')
def squeeze(s): return s
back = tree.parse(text)
b = [k for k in back.xml_children if k.xml_name == 'b'][0]
assert 'one\\n' in b.xml_value, text
''')

seed('p06-write-lines', 'P06', [(U + 'tree.py', '''        fp.write(self.xml_encode())
''', '''        for line in self.xml_encode().splitlines(True):
            fp.write(line.rstrip() + '\\n' if line != line.rstrip() else line)
''')],
     'xml_write() of text which has a space ahead of a line end, or a line separator character',
     'The space is lost, or the character becomes a line end',
     '''
import io
from amara3.uxml import tree
top = tree.parse('<a>x \\n y\\u2028z</a>')
fp = io.StringIO(); top.xml_write(fp)
assert fp.getvalue() == top.xml_encode(), fp.getvalue()
''')

seed('p07-same-namespace', 'P07', [(U + 'writer.py', '''                for k, v in self._prefixes.items():
''', '''                for v, k in { v: k for (k, v) in reversed(list(self._prefixes.items())) }.items():
''')],
     'Two prefixes for the same namespace',
     'The second one is not declared',
     '''
import io
from amara3.uxml import writer
fp = io.StringIO()
w = writer.namespacer(fp, prefixes={'p': 'urn:x', 'q': 'urn:x'}, mapping={'a': ('urn:x', 'p'), '@b': ('urn:x', 'q')})
w.start_element('a', {'b': '1'})
w.end_element('a')
assert 'xmlns:p=' in fp.getvalue() and 'xmlns:q=' in fp.getvalue(), fp.getvalue()
''')

seed('p07-blank-indent', 'P07', [(U + 'writer.py', '''    def text(self, text):
        self._whandler.write(context.text, text)
        return


class''', '''    def text(self, text):
        if not self._indent or text.strip(): self._whandler.write(context.text, text)
        return


class''')],
     'Indentation, and a text of nothing but characters which are whitespace to Python but not to XML',
     'The text is lost',
     '''
import io
from amara3.uxml import writer
fp = io.StringIO()
w = writer.raw(fp, indent='  ')
w.start_element('a'); w.text('\\u3000'); w.text('\\xa0'); w.end_element('a')
assert '\\u3000' in fp.getvalue() and '\\xa0' in fp.getvalue(), fp.getvalue()
''')

seed('p07-empty-value', 'P07', [(U + 'writer.py', '''        attribs = attribs or {}
''', '''        attribs = { k: v for (k, v) in (attribs or {}).items() if v or len(attribs) == 1 }
''')],
     'An attribute with empty value next to another',
     'The attribute is left out',
     '''
import io
from amara3.uxml import writer
fp = io.StringIO()
w = writer.raw(fp)
w.start_element('a', {'x': '', 'y': '1'}); w.end_element('a')
assert fp.getvalue() == '<a x="" y="1"></a>', fp.getvalue()
''')

seed('p09-text-late', 'P09', [(U + 'treeiter.py', '''                    if building_depth:
                        new_text = text(ev[1], parent)
                        if parent: parent.xml_children.append(new_text)
''', '''                    if building_depth:
                        new_text = text(ev[1], parent)
                        if parent and (new_text.strip() or building_depth < 8): parent.xml_children.append(new_text)
''')],
     'Whitespace eight or more levels down within a subtree',
     'It is left out',
     '''
from amara3.uxml import treeiter
got = []
def sink():
    while True: got.append((yield))
doc = '<top>' + '<b>' * 14 + ' ' + '</b>' * 14 + '</top>'
treeiter.sender(('top', 'b'), sink()).parse(doc)
assert got[0].xml_value == ' ', got[0].xml_encode()
''')

seed('p10-last-text', 'P10', [(U + 'tree.py', '''            child = text(child, parent=self)
''', '''            child = self._last_text = text(child, parent=self)
''')],
     'A string put in an element and removed again, while the element lives on',
     'The element keeps the text node alive',
     '''
import weakref
from amara3.uxml import tree
top = tree.parse('<a></a>')
top.xml_append('x')
r = weakref.ref(top.xml_children[0])
top.xml_remove(top.xml_children[0])
assert r() is None
''')

seed('p10-sender-stack', 'P10', [(U + 'treeiter.py', '''                    if building_depth:
                        building_depth -= 1
                        self._building_depths[ix] = building_depth
''', '''                    if building_depth:
                        building_depth -= 1
                        self._building_depths[ix] = building_depth
                        if building_depth == 1 and parent is not None: self._stateses[ix].last = parent
'''.replace('                        self._building_depths[ix] = building_depth\n', '                        self._building_depths.__setitem__(ix, building_depth)\n', 1))],
     'A subtree with elements in it, after which no other is matched for long',
     'A part of it stays alive beyond the one last delivered',
     '''
import gc, weakref
from amara3.uxml import treeiter
refs = []
def sink():
    while True:
        e = yield
        refs.append(weakref.ref(e.xml_children[0]))
        del e
gc.disable()
s = treeiter.sender(('doc', 'x'), sink())
s.parse('<doc><x><y></y></x><x></x></doc>'.replace('<x></x>', '<x>z</x>'))
assert not [r for r in refs[:1] if r() is not None]
''')

seed('p11-wide', 'P11', [(U + 'uxpath/xast.py', '''                to_process = list(child.xml_children) + to_process[1:]
''', '''                to_process = list(child.xml_children) + to_process[1:] if len(to_process) < 100 else to_process[1:] + list(child.xml_children)
''')],
     'A leading // on a document with an element that has a hundred or more children',
     'Nodes are gone through out of document order from there on',
     '''
from amara3.uxml import tree
top = tree.parse('<a>' + '<b><c><d></d></c></b>' * 150 + '</a>')
names = [n.xml_name for n in top.xml_xpath('//*')]
assert names == ['a'] + ['b'] * 150 + ['c', 'd'] * 150, names[150:170]
''')

seed('p11-attribute-order', 'P11', [(U + 'uxpath/xast.py', "for k, v in ctx.item.xml_attributes.items():", "for k, v in sorted(ctx.item.xml_attributes.items()):")],
     'Attributes which are not in alphabetical order',
     'They come in another order than that of a union, the order of the document',
     '''
from amara3.uxml import tree
top = tree.parse('<a z="1" b="2"></a>')
assert [n.xml_name for n in top.xml_xpath('a/@*')] == ['z', 'b']
''')

seed('p20-exact-end', 'P20', [('clib/xmlstring.c', '  if (len >= 4) {', '  if (len >= 2) {')],
     'Two or three bytes at the very end of a buffer other than a bytes object',
     'It reads beyond the end of the buffer',
     '''
import ctypes, mmap, os, subprocess, sys
code = """
import ctypes, mmap
from amara3.cmodules.cxmlstring import isxml
page = mmap.PAGESIZE
m = mmap.mmap(-1, 2 * page)
libc = ctypes.CDLL(None, use_errno=True)
base = ctypes.addressof(ctypes.c_char.from_buffer(m))
assert libc.mprotect(ctypes.c_void_p(base + page), page, 0) == 0
view = (ctypes.c_char * 2).from_address(base + page - 2)
view[0] = b'<'; view[1] = b'a'
assert isxml(view) is True
"""
r = subprocess.run([sys.executable, '-c', code], capture_output=True, text=True)
assert r.returncode == 0, r
''')

seed('p20-blank-leak', 'P20', [('clib/xmlstring.c', '''    Py_DECREF(characters);
''', '''    if (nchars > i) Py_DECREF(characters);
''')],
     'Bytes which are all whitespace',
     'The decoded string is leaked',
     '''
import resource
from amara3.cmodules.cxmlstring import isxml
blank = b' ' * 1000000
isxml(blank)
before = resource.getrusage(resource.RUSAGE_SELF).ru_maxrss
for _ in range(100): assert isxml(blank) is False
assert resource.getrusage(resource.RUSAGE_SELF).ru_maxrss - before < 30000
''')

# --------------------------------------------------------------------------------------------- P21
P21_DEMO = r"""
import os, sys, subprocess, tempfile, shutil
tmp = tempfile.mkdtemp(prefix='demo-p21-')
def run(code, cwd=None, **env):
    "In a process of its own, with a copy of the package"
    r = subprocess.run([sys.executable, '-c', 'import sys; sys.path.insert(0, %r)\n' % os.path.join(tmp, 'lib') + code], cwd=cwd or tmp, capture_output=True, text=True, env=dict(os.environ, TMPDIR=tmp, **env))
    assert r.returncode == 0, r.stderr
    return r.stdout
try:
    shutil.copytree('/repo/pylib', os.path.join(tmp, 'lib', 'amara3'))
    PART
finally:
    shutil.rmtree(tmp)
"""

def p21_demo(part): return P21_DEMO.replace('PART', part.strip().replace('\n', '\n    '))

seed('p21-attribute-set', 'P21', [(U + 'html5.py', "        for key, val in attrs.items():\n", "        for key, val in set(attrs.items()):\n")],
     'Processes with different hash seeds, & an HTML element with several attributes',
     'The order of the attributes varies from process to process',
     p21_demo("""
code = "from amara3.uxml import html5; print(html5.parse('<p id=1 class=2 title=3 lang=4 dir=5>x').xml_encode())"
outs = {run(code, PYTHONHASHSEED=str(i)) for i in range(12)}
assert len(outs) == 1, outs
"""))

seed('p21-tables-in-cwd', 'P21', [(U + 'uxpath/__init__.py', "    parsedir = tempfile.gettempdir()\n", "    parsedir = os.getcwd()\n")],
     'The directory of the package not writable',
     'parsetab.py & parser.out are left in the working directory',
     p21_demo("""
os.mkdir(os.path.join(tmp, 'cwd'))
for f in ('parsetab.py', 'parser.out'):
    f = os.path.join(tmp, 'lib', 'amara3', 'uxml', 'uxpath', f)
    if os.path.exists(f): os.remove(f)
run("import os; access = os.access; os.access = lambda p, m, **kw: not m & os.W_OK and access(p, m, **kw)\\nfrom amara3.uxml import uxpath", cwd=os.path.join(tmp, 'cwd'))
assert os.listdir(os.path.join(tmp, 'cwd')) == [], os.listdir(os.path.join(tmp, 'cwd'))
"""))

seed('p21-lexer-tables', 'P21', [(U + 'uxpath/__init__.py', "    lexer = lex.lex(module=lexrules, reflags=re.UNICODE)\n", "    lexer = lex.lex(module=lexrules, optimize=1, outputdir=os.path.dirname(lexrules.__file__), reflags=re.UNICODE)\n")],
     'A lextab.py left from another version of the package, or incomplete since the process writing it was killed',
     'It is used without any check that it is of these rules: import fails, or tokens are those of the other version',
     p21_demo("""
with open(os.path.join(tmp, 'lib', 'amara3', 'uxml', 'uxpath', 'lextab.py'), 'w') as f: f.write('_tabversion = ')
assert run("from amara3.uxml import uxpath, tree; print(len(list(uxpath.qquery(tree.parse('<a><b></b></a>'), '//b'))))") == '1\\n'
"""))

seed('p21-assert', 'P21', [(U + 'treeiter.py', """        if len(self._sinks) != self._pattern_count:
            raise ValueError('Number of patterns must match number of sinks')
""", """        assert len(self._sinks) == self._pattern_count, 'Number of patterns must match number of sinks'
""")],
     'Python run with -O, & more patterns than sinks',
     'The mistake goes unnoticed and the matches of the last patterns are lost with an IndexError, or nothing',
     p21_demo("""
code = "from amara3.uxml import treeiter\\ntry: treeiter.sender([('a',), ('b',)], [])\\nexcept Exception: print('no')"
assert run(code) == run(code, PYTHONOPTIMIZE='1') == 'no\\n'
"""))

# --------------------------------------------------------------------------------------------- More
seed('p09-same-pattern', 'P09', [(U + 'treeiter.py', """                    elif self._match_state(ix):
""", """                    elif self._patterns.index(self._patterns[ix]) == ix and self._match_state(ix):
""")],
     'A sender with the same pattern for two sinks',
     'The second sink never gets anything',
     """
from amara3.uxml import treeiter
def sink(l):
    while True: l.append((yield).xml_value)
a, b = [], []
treeiter.sender([('a', 'b'), ('a', 'b')], [sink(a), sink(b)]).parse('<a><b>1</b><b>2</b></a>')
assert a == b == ['1', '2'], (a, b)
""")

seed('p10-writer-keeps', 'P10', [(U + 'writer.py', """    a_writer.start_element(elem.xml_name, attribs=elem.xml_attributes)
""", """    a_writer.current = elem
    a_writer.start_element(a_writer.current.xml_name, attribs=elem.xml_attributes)
""")],
     'A writer which outlives the tree it has written',
     'Part of the tree is kept in memory',
     """
import gc, io, weakref
gc.disable()
from amara3.uxml import tree, writer
e = tree.parse('<a><b>x</b></a>')
refs = [weakref.ref(e), weakref.ref(e.xml_children[0])]
w = writer.raw(io.StringIO())
writer.write(e, w)
del e
assert [r() for r in refs] == [None, None], refs
""")

seed('p14-bound-function', 'P14', [(U + 'uxpath/xast.py', """        func = ctx.functions[self.name]
""", """        if not hasattr(self, 'func'):
            self.func = ctx.functions[self.name]
        func = self.func
""")],
     'A parsed expression evaluated again in a context whose functions differ',
     'The functions of the first evaluation are called',
     """
from amara3.uxml import tree, uxpath
e = tree.parse('<a></a>')
x = uxpath.parse('f()')
def const(v):
    def f(ctx): yield v
    return f
got = [list(x.compute(uxpath.context(e, functions={'f': const(v)}))) for v in (1, 2)]
assert got == [[1], [2]], got
""")

seed('p16-absent-empty', 'P16', [(U + 'treeutil.py', """            return name in x.xml_attributes and x.xml_attributes[name] == val
""", """            return x.xml_attributes.get(name, '') == val
""")],
     'Selection by an empty value of attribute',
     'Elements without the attribute are selected as well',
     """
from amara3.uxml import tree, treeutil
e = tree.parse('<a><b i=""></b><c></c></a>')
assert [x.xml_name for x in treeutil.select_attribute(e, 'i', '')] == ['b']
""")

seed('p17-blank-lines', 'P17', [(U + 'treeutil.py', """                #Only whitespace, so replace with proper indentation
                new_text = text('\\n' + indent*depth, elem)
""", """                #Only whitespace, so replace with proper indentation
                new_text = child if child.xml_value.count('\\n') > 2 else text('\\n' + indent*depth, elem)
""")],
     'Whitespace with several blank lines',
     'It is kept, so that what follows is not indented',
     """
from amara3.uxml import tree, treeutil
e = treeutil.make_pretty(tree.parse('<a>\\n\\n\\n<b></b></a>'))
assert e.xml_encode() == '<a>\\n  <b>\\n  </b>\\n</a>', e.xml_encode()
""")

seed('p19-repeated-source', 'P19', [('exec/microx', """    for source in args.sources:
""", """    for source in dict.fromkeys(args.sources):
""")],
     'The same file given more than once',
     'It is only handled once',
     """
import os, subprocess, sys, tempfile
with tempfile.TemporaryDirectory() as d:
    f = os.path.join(d, 'a.xml')
    open(f, 'w').write('<a><b>1</b></a>')
    out = subprocess.run([sys.executable, '/repo/exec/microx', '--expr', '//b', f, f], capture_output=True, text=True).stdout
assert out == '<b>1</b>\\n' * 2, out
""")

seed('p14-whitespace-key', 'P14', [(U + 'tree.py', """            xpath = xpathparse(xpath)
""", """            key = ' '.join(xpath.split())
            if key not in node.xml_parsed:
                node.xml_parsed[key] = xpathparse(xpath)
            xpath = node.xml_parsed[key]
"""), (U + 'tree.py', """    def xml_encode(self):
        raise NotImplementedError
""", """    xml_parsed = {}

    def xml_encode(self):
        raise NotImplementedError
""")],
     'Two expressions given to xml_xpath() which only differ in whitespace within a literal',
     'The second is taken for the first, parsed earlier',
     """
from amara3.uxml import tree
e = tree.parse('<a></a>')
got = [next(e.xml_xpath("string-length('a%sb')" % ws)) for ws in (' ', '  ')]
assert got == [3, 4], got
""")

seed('p19-deep-path', 'P19', [('exec/microx', """    while parent:
        step""", """    while parent and len(ancestors) < 100:
        step""")],
     '--find-text, for text more than 100 elements deep',
     'The path printed starts somewhere below the document element',
     """
import os, subprocess, sys, tempfile
with tempfile.TemporaryDirectory() as d:
    f = os.path.join(d, 'a.xml')
    open(f, 'w').write('<r>' + '<a>' * 120 + 'x' + '</a>' * 120 + '</r>')
    out = subprocess.run([sys.executable, '/repo/exec/microx', '--find-text', 'x', f], capture_output=True, text=True).stdout
assert out == 'r' + '/a' * 120 + '\\n', out
""")

seed('p18-shared-tree', 'P18', [(U + 'html5.py', """    parser = html5lib.HTMLParser(tree=get_tree_instance)
""", """    if isinstance(source, str) and source in _trees:
        return _trees[source]
    parser = html5lib.HTMLParser(tree=get_tree_instance)
"""), (U + 'html5.py', """    return first_element
""", """    if isinstance(source, str):
        _trees[source] = first_element
    return first_element
"""), (U + 'html5.py', """# import weakref
""", """import weakref
"""), (U + 'html5.py', """def parse(source, prefixes""", """_trees = weakref.WeakValueDictionary()


def parse(source, prefixes""")],
     'The same HTML parsed again while the first tree is alive, & one of both changed',
     'Both are one tree',
     """
from amara3.uxml import html5
a = html5.parse('<p>x</p>')
a.xml_attributes['k'] = '1'
b = html5.parse('<p>x</p>')
assert b is not a and not b.xml_attributes
""")

seed('p12-foreach-key', 'P12', [(U + 'uxpath/functions.py', """    pexpr = uxpathparse(expr)
""", """    key = expr.strip().lower()
    if key not in _parsed:
        _parsed[key] = uxpathparse(expr)
    pexpr = _parsed[key]
"""), (U + 'uxpath/functions.py', """def flatten(iterables)""", """_parsed = {}


def flatten(iterables)""")],
     'Two for-each() with expressions which only differ in case',
     'The second is taken for the first',
     """
from amara3.uxml import tree
e = tree.parse('<a><b></b><B></B></a>')
got = [[i.xml_name for i in e.xml_xpath('for-each(*, "%s")' % n)] for n in ('b', 'B')]
assert got == [['b'], ['B']], got
""")

seed('p16-long-names', 'P16', [(U + 'treeutil.py', """    return filter(lambda x: pat.match(x.xml_name) is not None, select_elements(source))""", """    seen = {}
    return filter(lambda x: seen.setdefault(x.xml_name[:64], pat.match(x.xml_name) is not None), select_elements(source))""")],
     'select_name_pattern() with elements whose long names differ only after 64 characters',
     'All go by the first of them',
     """
import re
from amara3.uxml import tree, treeutil
n = 'n' * 70
e = tree.parse('<a><{0}1></{0}1><{0}2></{0}2></a>'.format(n))
got = [x.xml_name for x in treeutil.select_name_pattern(e, re.compile('n+2'))]
assert got == [n + '2'], got
""")
