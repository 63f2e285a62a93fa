"""
Uses the package as a process of its own, and prints what came of it: a list of [label, outcome].
Run by checks/p21.py, as: anywhere.py JOB, a file of JSON. Nothing of the harness is imported, and nothing here depends on hashes
"""
import sys, os, json

with open(sys.argv[1], encoding='utf-8') as _f: JOB = json.load(_f)
sys.path.insert(0, JOB['lib'])
if JOB.get('nocwd'): sys.path[:] = [p for p in sys.path if p]


def interfere(mode, after):
    """The file of parser tables: interrupt its writing after so many characters, or make it slow"""
    import builtins, time
    real = builtins.open
    class Slow(object):
        def __init__(self, f): self.f, self.n = f, 0
        def write(self, s):
            for i in range(0, len(s), 512):
                part = s[i:i + 512]
                if mode != 'slow' and self.n + len(part) > after:
                    self.f.write(part[:after - self.n])
                    self.f.flush()
                    if mode == 'kill': os._exit(9)
                    if mode == 'full': raise OSError(28, 'No space left on device')
                    raise KeyboardInterrupt
                self.f.write(part)
                self.n += len(part)
                if mode == 'slow':
                    self.f.flush()
                    time.sleep(after / 1e6)
        def __getattr__(self, name): return getattr(self.f, name)
        def __enter__(self): return self
        def __exit__(self, *a): self.f.close()
    def open_(file, mode_='r', *a, **kw):
        f = real(file, mode_, *a, **kw)
        if isinstance(file, str) and 'tab' in os.path.basename(file) and 'w' in mode_ and 'b' not in mode_: return Slow(f)
        return f
    builtins.open = open_


def deny(top):
    """Stand-in for a directory one may not write to, for where users can't be changed"""
    import builtins
    access, real = os.access, builtins.open
    within = lambda p: isinstance(p, str) and os.path.realpath(p).startswith(top)
    def access_(path, mode, *a, **kw): return False if mode & os.W_OK and within(path) else access(path, mode, *a, **kw)
    def open_(file, mode='r', *a, **kw):
        if within(file) and set(mode) & set('wax+'): raise PermissionError(13, 'Permission denied', file)
        return real(file, mode, *a, **kw)
    def refuse(real):
        def f(path, *a, **kw):
            if within(path): raise PermissionError(13, 'Permission denied', path)
            return real(path, *a, **kw)
        return f
    os.access, builtins.open = access_, open_
    for f in ('remove', 'unlink', 'rename', 'replace', 'mkdir'): setattr(os, f, refuse(getattr(os, f)))


if JOB.get('denied'): deny(os.path.realpath(JOB['denied']))
if JOB.get('interfere'): interfere(*JOB['interfere'])
gc_ = JOB.get('gc')
if gc_:
    import gc
    gc.disable() if gc_ == 'off' else gc.set_threshold(*gc_)

import importlib
for m in JOB['order']: importlib.import_module(m)

from amara3.uxml import parse, tree, parser, treeutil, treeiter, xmliter, xml, html5, html5iter, writer, uxpath
from amara3.uxml.uxpath import xast

out = []

def attempt(label, f):
    try: r = f()
    except Exception as e: r = 'raises ' + type(e).__name__
    out.append([label, r if isinstance(r, str) else repr(r)])


def numbered(top):
    """id -> position in the document, while top is alive"""
    return {id(n): i for i, n in enumerate([top] + below(top))}


def below(e):
    r = []
    for c in e.xml_children:
        r.append(c)
        if isinstance(c, tree.element): r.extend(below(c))
    return r


def shown(item, num):
    if id(item) in num: return num[id(item)]
    if isinstance(item, tree.node):
        if hasattr(item, 'xml_attributes') or hasattr(item, 'xml_children'): return ['root', [num.get(id(c), '?') for c in item.xml_children]]
        return ['attribute', item.xml_name, item.xml_value, num.get(id(item.xml_parent), '?')]
    return repr(item)


def events(src, frags=None):
    r = []
    for ev in (parser.parsefrags(frags) if frags else parser.parse(src)):
        r.append([ev[0].name] + [list(x.items()) if isinstance(x, dict) else x for x in ev[1:]])
    return r


def streamed(mod, pats, src):
    r = []
    def sink(i):
        while True:
            r.append([i, (yield).xml_encode()])
    mod.sender(pats, [sink(i) for i in range(len(pats))]).parse(src)
    return r


def converted(src):
    '''Events of XML, by name & by namespace'''
    r = []
    def sink():
        while True:
            ev = yield
            r.append([ev[0].name] + [list(x.items()) if isinstance(x, dict) else x for x in ev[1:]])
    xml.parse(src, sink())
    from xml.parsers import expat
    cb = xml.ns_expat_callbacks(sink(), stream=True)
    p = expat.ParserCreate(namespace_separator=' ')
    p.StartElementHandler, p.EndElementHandler, p.CharacterDataHandler, p.StartNamespaceDeclHandler, p.EndNamespaceDeclHandler = cb.start_element, cb.end_element, cb.char_data, cb.start_namespace, cb.end_namespace
    p.buffer_text = True
    p.Parse(src, True)
    return r, list(cb.ns_portfolio.items()), list(cb.prefixes.items())


def built():
    '''A tree by the API, & what may not be done to it'''
    r = []
    def no(f):
        try: r.append(repr(f()))
        except Exception as e: r.append(type(e).__name__)
    e = tree.element('a', {'z': '1', 'y': '2', 'x': '3'})
    b = tree.element('b')
    e.xml_append(b)
    e.xml_append('text')
    b.xml_append(tree.element('c', {'k': '<&"'}))
    r.append(e.xml_encode())
    no(lambda: e.xml_remove(tree.element('b')))
    no(lambda: e.xml_remove(tree.text('text')))
    no(lambda: e.xml_append(None))
    no(lambda: e.xml_append(5))
    no(lambda: treeiter.sender([('a',), ('b',)], []))
    no(lambda: treeutil.select_pattern(e, (5,)).__next__())
    no(lambda: treeiter.sender((5,), []))
    no(lambda: list(uxpath.qquery(e, '$v')))
    no(lambda: [x.xml_name for x in treeutil.select_elements(e)] + [x.xml_name for x in treeutil.descendants(e)] + [x.xml_name for x in treeutil.select_attribute(e, 'k')])
    r.append(e.xml_encode())
    return r


def pattern(p): return tuple(tuple(s) if isinstance(s, list) else s for s in p)


for i, src in enumerate(JOB['docs']):
    attempt('events %d' % i, lambda: events(src))
    attempt('fragments %d' % i, lambda: events(src, [src[:len(src) // 3], src[len(src) // 3:]]))
    attempt('tree %d' % i, lambda: tree.parse(src).xml_encode())
    attempt('indented %d' % i, lambda: parse(src).xml_encode(indent='  '))
    attempt('pretty %d' % i, lambda: treeutil.make_pretty(parse(src)).xml_encode())
    pats = [pattern(p) for p in JOB['patterns']]
    attempt('treeiter %d' % i, lambda: streamed(treeiter, pats, src))
    attempt('xmliter %d' % i, lambda: streamed(xmliter, pats, src))
    try: top = tree.parse(src)
    except Exception: continue
    num = numbered(top)
    for j, p in enumerate(pats): attempt('select_pattern %d %d' % (i, j), lambda: [num[id(n)] for n in treeutil.select_pattern(top, p)])
    at = [top] + [n for n in below(top) if isinstance(n, tree.element)]
    for j, e in enumerate(JOB['exprs']):
        n = at[j % len(at)]
        attempt('xpath %d %d' % (i, j), lambda: [shown(x, num) for x in (uxpath.qquery(n, e) if j % 2 else n.xml_xpath(e))])
    def ns():
        import io
        fp = io.StringIO()
        writer.write(top, writer.namespacer(fp, prefixes=dict(JOB['prefixes']), mapping={k: tuple(v) for k, v in JOB['mapping'].items()}))
        return fp.getvalue()
    attempt('namespacer %d' % i, ns)
for j, e in enumerate(JOB['exprs']): attempt('serialize %d' % j, lambda: xast.serialize(uxpath.parse(e)))
for i, (src, enc) in enumerate(JOB['xmls']):
    attempt('converted %d' % i, lambda: converted(src.encode(enc, 'surrogateescape') if enc else src))
    attempt('xml %d' % i, lambda: xml.treebuilder().parse(src.encode(enc, 'surrogateescape') if enc else src).xml_encode())
attempt('built', built)
for i, src in enumerate(JOB['htmls']):
    attempt('html5iter %d' % i, lambda: streamed(html5iter, [('html', 'body', '*'), ('**', 'p')], src))
    attempt('html %d' % i, lambda: html5.parse(src).xml_encode())
if JOB.get('microx'):
    import io, runpy, contextlib
    class Out(io.StringIO):
        # The command closes it
        def close(self): pass
    for i, argv in enumerate(JOB['microx']):
        def run():
            buf = Out()
            saved, sys.argv = sys.argv, [JOB['script']] + argv
            try:
                with contextlib.redirect_stdout(buf), contextlib.redirect_stderr(io.StringIO()): runpy.run_path(JOB['script'], run_name='__main__')
            except SystemExit as e: return 'exits %r after %r' % (e.code if e.code is None or isinstance(e.code, int) else 1, buf.getvalue())
            finally: sys.argv = saved
            return buf.getvalue()
        attempt('microx %d' % i, run)
sys.stdout.write(json.dumps(out))
sys.stdout.flush()
