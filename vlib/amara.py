"""Adapters from what the code under test reports to the models of the harness. Only uses the public API"""

def conv_event(ev):
    kind = ev[0].name
    if kind == 'start_element':
        return ('s', ev[1], list(ev[2].items()), list(ev[3]))
    if kind == 'characters':
        return ('c', ev[1])
    return ('e', ev[1], list(ev[2]))


def collector(out):
    while True:
        ev = yield
        out.append(ev)


def tree_diff(elem, e, tree, path='', check_parent=True, parent=None, exact_text=True, attr_order=True):
    """None, or how the amara tree elem differs from the model e. Iterative"""
    stack = [(elem, e, '', parent)]
    while stack:
        elem, e, path, parent = stack.pop()
        if not isinstance(elem, tree.element):
            return '%s: %r is not an element' % (path, elem)
        path = path + '/' + e.name
        if elem.xml_name != e.name:
            return '%s: name %r rather than %r' % (path, elem.xml_name, e.name)
        if check_parent and elem.xml_parent is not parent:
            return '%s: xml_parent is %r rather than %r' % (path, elem.xml_parent, parent)
        attrs = list(elem.xml_attributes.items())
        if attrs != e.attrs and (attr_order or dict(attrs) != dict(e.attrs)):
            return '%s: attributes %r rather than %r' % (path, attrs, e.attrs)
        kids = list(elem.xml_children)
        want = list(e.children)
        if not exact_text:
            kids = merge_text(kids, tree)
            want = merge_str(want)
        if len(kids) != len(want):
            return '%s: %d children %r rather than %d %r' % (path, len(kids), [str(k)[:30] if isinstance(k, str) else k.xml_name for k in kids], len(want), [w[:30] if isinstance(w, str) else w.name for w in want])
        for k, w in zip(kids, want):
            if isinstance(w, str):
                if not isinstance(k, str):
                    return '%s: %r rather than text %r' % (path, k, w)
                if str(k) != w or (exact_text and (not isinstance(k, tree.text) or k.xml_value != w)):
                    return '%s: text %r rather than %r' % (path, str(k), w)
                if exact_text and check_parent and k.xml_parent is not elem:
                    return '%s: xml_parent of text %r is %r' % (path, w, k.xml_parent)
            else:
                stack.append((k, w, path, elem))
    return None


def merge_text(kids, tree):
    out = []
    for k in kids:
        if isinstance(k, str):
            if out and isinstance(out[-1], str):
                out[-1] += str(k)
            elif str(k):
                out.append(str(k))
        else:
            out.append(k)
    return out


def merge_str(kids):
    out = []
    for k in kids:
        if isinstance(k, str):
            if out and isinstance(out[-1], str):
                out[-1] += k
            elif k:
                out.append(k)
        else:
            out.append(k)
    return out


def build(e, tree):
    """An amara tree for the model, built through the public API. Iterative"""
    top = tree.element(e.name, dict(e.attrs))
    stack = [(top, e)]
    while stack:
        elem, e = stack.pop()
        for c in e.children:
            if isinstance(c, str):
                elem.xml_append(c)
            else:
                k = tree.element(c.name, dict(c.attrs))
                elem.xml_append(k)
                stack.append((k, c))
    return top


def snapshot(elem, tree):
    """Everything observable about a tree, with identities"""
    out = []
    stack = [elem]
    while stack:
        e = stack.pop()
        p = e.xml_parent
        if isinstance(e, tree.element):
            kids = list(e.xml_children)
            out.append((id(e), e.xml_name, tuple(e.xml_attributes.items()), id(p) if p is not None else None, tuple(id(k) for k in kids)))
            stack.extend(reversed(kids))
        else:
            out.append((id(e), str(e), id(p) if p is not None else None))
    return out


def model_of(elem, tree):
    """Model E of an amara tree"""
    from .gen import E
    top = E(elem.xml_name, elem.xml_attributes.items())
    stack = [(elem, top)]
    while stack:
        el, e = stack.pop()
        for k in el.xml_children:
            if isinstance(k, tree.element):
                c = E(k.xml_name, k.xml_attributes.items())
                e.children.append(c)
                stack.append((k, c))
            else:
                e.children.append(str(k))
    return top
