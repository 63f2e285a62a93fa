"""
HTML tag soup, & the reference reading of it: html5lib with its own ElementTree builder
"""
from . import gen
from .gen import E

TAGS = ('html head body p p p div div span a a b b i em strong u table table tr td th tbody thead tfoot caption colgroup col ul ol li li dl dt dd select option optgroup form input button '
        'br hr img svg math foreignObject mi mo mtext annotation-xml desc title script style textarea pre listing h1 h2 h3 nobr font applet marquee object frameset frame noframes noscript iframe plaintext '
        'isindex image xmp section article header footer nav address center big small tt code s strike base link meta area embed param source track ruby rp rt x-foo my:elem foo template keygen details summary main '
        'center dir menu fieldset figure wbr').split()
FOREIGN = 'svg math g path foreignObject desc title mi mo mn ms mtext annotation-xml malignmark circle'.split()
ATTRS = ('id class href src title lang type name value style xml:lang xlink:href xlink:title xmlns xmlns:xlink xml:space xml:base definitionurl viewbox attributename encoding color face size checked disabled a:b '
         'data-x onclick prompt action content charset http-equiv Foo "q \' < = x\u00e9 \u4e2d _ 1').split(' ')
TEXTS = ['text', ' ', '\n', 'a b', '&amp;', '&lt;', '&nbsp;', '&copy', '&copy;', '&notin;', '&notit;', '&#65;', '&#x41;', '&#0;', '&#x80;', '&#xD800;', '&#x110000;', '&bogus;', '&', '<', '>', '"', '\x00', '\r\n', '\r',
         '\x0c', '\t', '\u00e9', '\u4e2d', '\U0001f600', '<3', '< b', '</', '</>', '<!', '<?php x ?>', '<![CDATA[x<y]]>', ']]>', '\ufeff', 'x' * 50, '\ufdd0', '\x01', '\x7f', '\x85', '\ufffe']


FORMATTING = 'a b big code em font i nobr s small strike strong tt u'.split()


def comment(rng):
    return rng.choice(['<!-- c -->', '<!---->', '<!-->', '<!--->', '<!-- a -- b -->', '<!--x--!>', '<!bogus>', '<!-- <b>x</b> -->', '<!--\x00-->', '<!-- c\n-->', '<!-- unfinished', '<!--&amp;-->'])


def attr(rng):
    n = rng.choice(ATTRS)
    r = rng.random()
    v = rng.choice(TEXTS + ['v', 'hidden', 'text/html', 'http://www.w3.org/1999/xlink', 'utf-8', 'application/xhtml+xml', 'urn:x'])
    if r < 0.15: return n
    if r < 0.3: return n + '=' + rng.choice(['v', 'a"b', 'x&amp;y', 'x/y', 'z'])
    if r < 0.6: return n + "='" + v.replace("'", '') + "'"
    return n + '="' + v.replace('"', '') + '"'


def tag(rng, pool):
    t = rng.choice(pool)
    if rng.random() < 0.05: t = t.upper()
    attrs = [attr(rng) for _ in range(rng.choice([0, 0, 0, 1, 1, 2, 3]))]
    if t.lower() in FORMATTING:
        # See KNOWN_FINDINGS.txt, noahs-ark-xmlns
        attrs = [a for a in attrs if not a.lower().startswith('xmlns')]
    attrs = ''.join(' ' + a for a in attrs)
    return '<' + t + attrs + rng.choice(['>', '>', '>', '>', '/>', ' >', ' />', '\n>'])


def soup(rng, n=None):
    """Tags, ends, text, comments in no particular order"""
    if n is None: n = rng.choice([1, 3, 8, 20, 50])
    pool = rng.choice([TAGS, TAGS, FOREIGN, 'p b i a div'.split(), 'table tr td tbody th caption select form input p b'.split(), 'ul li ol p dl dt dd b a'.split(),
                       'select option optgroup table tr td p input'.split(), 'html head body frameset frame title script style p'.split(), 'a b nobr font p div span em'.split(), 'o:p http: https: a:b:c x:: svg:g a@b.c p: b: p:b p i svg xml:x a.b q" t\'u my-x caf\xe9 x:\u4e2d'.split()])
    out = []
    if rng.random() < 0.4: out.append(rng.choice(['<!DOCTYPE html>', '<!doctype html>', '<!DOCTYPE html PUBLIC "-//W3C//DTD HTML 4.01//EN" "http://www.w3.org/TR/html4/strict.dtd">', '<!DOCTYPE>', '<!DOCTYPE foo SYSTEM "x">', '<?xml version="1.0"?>']))
    open_ = []
    for _ in range(n):
        r = rng.random()
        if r < 0.4:
            t = tag(rng, pool)
            out.append(t)
            open_.append(t[1:].split(' ')[0].split('>')[0].split('/')[0].strip())
        elif r < 0.65:
            if open_ and rng.random() < 0.6: out.append('</' + open_.pop(rng.choice([-1, -1, 0, rng.randrange(len(open_))])) + '>')
            else: out.append('</' + rng.choice(pool) + rng.choice(['>', ' >', ' x="y">', '/>']))
        elif r < 0.93:
            out.append(rng.choice(TEXTS))
        else:
            out.append(comment(rng))
    return ''.join(out)


def nested(rng, depth=0):
    """Sensible HTML"""
    out = ['<!DOCTYPE html>\n<html lang="en">\n<head><meta charset="utf-8"><title>T</title></head>\n<body>\n']
    def block(d):
        r = rng.random()
        if d > 4 or r < 0.3: return '<p class="c%d">%s</p>\n' % (rng.randrange(3), inline(d))
        if r < 0.5: return '<div id="d%d">\n%s</div>\n' % (rng.randrange(5), ''.join(block(d + 1) for _ in range(rng.randint(0, 3))))
        if r < 0.7: return '<ul>%s</ul>\n' % ''.join('<li>%s%s' % (inline(d), rng.choice(['', '</li>'])) for _ in range(rng.randint(0, 4)))
        if r < 0.85: return '<table><tr>%s</tr></table>' % ''.join('<td>%s</td>' % inline(d) for _ in range(rng.randint(0, 3)))
        return '<!-- c --><section><h2>%s</h2>%s</section>' % (inline(d), block(d + 1))
    def inline(d):
        return ''.join(rng.choice(['text', ' ', '&amp;', '<b>bold</b>', '<a href="x?a=1&amp;b=2">link</a>', '<img src="i">', '<br>', '\u00e9', '<!-- c -->', '<i>it']) for _ in range(rng.randint(0, 4)))
    for _ in range(rng.randint(0, 5)): out.append(block(0))
    out.append('</body>\n</html>')
    return ''.join(out)


def lax(rng, depth=0):
    """Lower case XML-like markup of names HTML does not know, missing some end tags; (markup)"""
    name = 'q' + rng.choice(['a', 'b', 'c', 'item', 'x1'])
    attrs = ''.join(' %s="%s"' % (k, rng.choice(['v', '1', 'x y', '&amp;', ''])) for k in rng.sample(['id', 'class', 'k', 'n'], rng.choice([0, 0, 1, 2])))
    kids = []
    for _ in range(rng.choice([0, 1, 2, 3]) if depth < 4 else 0):
        kids.append(lax(rng, depth + 1) if rng.random() < 0.5 else rng.choice(['text', 'a &amp; b', 'x\n', '\u00e9']))
    end = '</' + name + '>'
    if rng.random() < 0.15: end = ''
    return '<' + name + attrs + '>' + ''.join(kids) + end


def local(n):
    return n.split('}')[-1]


def short(n):
    """What follows the last colon anything follows"""
    return n.rstrip(':').split(':')[-1]


def reference(source, builder='dom', **kw):
    """Model by one of html5lib's own builders; comments left out, names & attributes local. None if too deep"""
    import html5lib
    import xml.etree.ElementTree as ET
    # Through html5lib's own parser class, with nothing of the code under test
    tb = html5lib.getTreeBuilder('dom') if builder == 'dom' else html5lib.getTreeBuilder('etree', ET)
    try:
        p = html5lib.HTMLParser(tree=tb, namespaceHTMLElements=True)
        root = p.parse(source, **kw)
        return conv_dom(root.documentElement) if builder == 'dom' else conv_etree(root)
    except RecursionError:
        return None


def add_text(kids, t):
    if t:
        if kids and isinstance(kids[-1], str): kids[-1] += t
        else: kids.append(t)


def conv_etree(el):
    e = E(short(local(el.tag)), {})
    e.attrs = [(local(k), v) for k, v in el.attrib.items() if not (k == 'xmlns' or k.startswith('xmlns') or k.startswith('{http://www.w3.org/2000/xmlns/}'))]
    add_text(e.children, el.text)
    for c in el:
        if isinstance(c.tag, str): e.children.append(conv_etree(c))
        add_text(e.children, c.tail)
    return e


def conv_dom(el):
    e = E(short(el.nodeName))
    for a in el.attributes.values():
        if a.name.startswith('xmlns') or a.namespaceURI == 'http://www.w3.org/2000/xmlns/': continue
        e.attrs.append((a.name.split(':')[-1] if a.namespaceURI else a.name, a.value))
    for c in el.childNodes:
        if c.nodeType == 1: e.children.append(conv_dom(c))
        elif c.nodeType == 3: add_text(e.children, c.data)
    return e
