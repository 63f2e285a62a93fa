"""P19: microx prints what the corresponding queries give"""
import atexit, io, math, os, pathlib, shutil, subprocess, sys, tempfile, traceback
from vlib import common, gen, xpathref as X, patterns, htmlgen
from vlib.common import BaseCheck, Violation
from vlib.gen import E
from vlib.amara import build
from vlib import refuxml
from checks.p06 import from_events, merge, model_diff
from checks.p18 import compare


class Out(io.StringIO):
    """The command closes standard output"""
    def close(self): self.closed_ = True


class Check(BaseCheck):
    id = 'P19'
    technique = 'differential monitor on the output & exit status of the command vs. a reference evaluation of its options'
    level_note = 'The script from the working tree runs in-process, & as a process of its own for a sample; all output is compared with what a reference evaluator computes for the options over models the files were rendered from. Trees from HTML are taken from html5.parse (P18), serializations from xml_encode (P05). Sampled.'
    rule = ('1-3 (kind large: up to 40, hundreds of lines) files (or file: URLs), in various encodings, with random documents, by --expr, --match (with --foreach, --limit), --find-text (with --show-attrs), --partition, --html, --lax, --out. '
            'Cases whose expressions the reference avoids, or which would print attributes, are skipped (counted). kind error: malformed, truncated, missing, undecodable sources among good ones, bad expressions, none or several commands. Distinct by arguments & content; non-trivial: something was printed.')
    quick = {'query': 16000, 'find': 5000, 'error': 4000, 'process': 64, 'large': 600}
    boost = 1.5
    thorough = {'query': 500000, 'find': 120000, 'error': 100000, 'process': 1200, 'large': 6000}
    required = {'max_lines': 600, 'max_sources': 25, 'runs': 20000, 'lines_expr': 3000, 'lines_match': 6000, 'with_foreach': 2500, 'limited': 3000, 'limit_reached': 800, 'partitions': 2500, 'several_sources': 5000, 'out_files': 1500, 'encodings': 6, 'html': 400, 'lax': 400, 'found': 2500, 'show_attrs': 1000, 'errors': 2500, 'urls': 1000, 'processes': 40, 'read_back': 3000}
    assumptions = ['numbers & booleans may be printed in any spelling of the value', 'sources before an unusable one may or may not have been dealt with']

    def setup(self):
        BaseCheck.setup(self)
        self.script = os.path.join(common.REPO, 'exec', 'microx')
        self.dir = tempfile.mkdtemp(prefix='verif-p19-')
        os.chmod(self.dir, 0o755)
        parent = os.getpid()
        atexit.register(lambda: os.getpid() == parent and shutil.rmtree(self.dir, ignore_errors=True))
        # Runs as a process might write parser tables next to the sources
        shutil.copytree(os.path.join(common.REPO, 'pylib'), os.path.join(self.dir, 'lib', 'amara3'), ignore=shutil.ignore_patterns('__pycache__', 'parsetab.py', 'parser.out'))
        with open(self.script, encoding='utf-8') as f: src = f.read()
        self.code = compile(src, self.script, 'exec')

    def worker_setup(self):
        from amara3.uxml import tree, html5, uxpath
        self.tree, self.html5, self.uxpath = tree, html5, uxpath
        self.mine = tempfile.mkdtemp(dir=self.dir)
        import locale
        self.utf8 = locale.getpreferredencoding(False).lower().replace('-', '') == 'utf8'

    # Running it

    def run(self, args, process=False):
        """Status, standard output"""
        if process:
            env = dict(os.environ, PYTHONPATH=os.path.join(self.dir, 'lib'), PYTHONUTF8='1', PYTHONDONTWRITEBYTECODE='1', PYTHONWARNINGS='ignore')
            p = subprocess.run([sys.executable, '-B', self.script] + args, capture_output=True, env=env, cwd=self.mine, timeout=100)
            self.stats.count('processes')
            return p.returncode, p.stdout.decode('utf-8'), p.stderr.decode('utf-8', 'replace')
        out, err = Out(), io.StringIO()
        old = sys.argv, sys.stdout, sys.stderr
        cwd = os.getcwd()
        os.chdir(self.mine)
        sys.argv, sys.stdout, sys.stderr = ['microx'] + args, out, err
        status = 0
        try:
            exec(self.code, {'__name__': '__main__', '__file__': self.script})
        except SystemExit as e:
            status = e.code if isinstance(e.code, int) else 0 if e.code is None else 1
        except Exception as e:
            status = 1
            err.write(traceback.format_exc())
        finally:
            sys.argv, sys.stdout, sys.stderr = old
            os.chdir(cwd)
        return status, out.getvalue(), err.getvalue()

    # Sources

    ENC = ['utf-8', 'utf-8', 'utf-16', 'iso-8859-1', 'us-ascii', 'windows-1252', 'utf-8-sig', 'utf-16-le-bom', 'utf-16-be-bom', 'koi8-r']

    def encode(self, rng, text):
        enc = rng.choice(self.ENC)
        if rng.random() < 0.3: text += rng.choice(['\n', '\n', ' \n\n', '\r\n', '<!-- end -->', '\t'])
        def spell(s, codec):
            # Only within text & attributes are there characters out of ASCII in what is generated here
            return s.encode(codec, 'xmlcharrefreplace')
        if enc == 'utf-8':
            self.stats.see('encodings', 'utf-8' if text.isascii() else 'utf-8 not ascii')
            return (rng.choice(['', '<?xml version="1.0"?>', '<?xml version="1.0" encoding="utf-8"?>\n']) + text).encode('utf-8')
        if enc == 'utf-8-sig': self.stats.see('encodings', enc); return text.encode('utf-8-sig')
        if enc == 'utf-16-le-bom': self.stats.see('encodings', enc); return b'\xff\xfe' + ('<?xml version="1.0" encoding="UTF-16"?>' + text).encode('utf-16-le')
        if enc == 'utf-16-be-bom': self.stats.see('encodings', enc); return b'\xfe\xff' + (rng.choice(['', '<?xml version="1.0" encoding="UTF-16"?>']) + text).encode('utf-16-be')
        self.stats.see('encodings', enc)
        return spell('<?xml version="1.0" encoding="%s"?>%s' % (enc, text), enc)

    def document(self, rng, names):
        pool = ['x', 'y', '1', '2', ' ', 'x y', 'a<b', '&amp;', 'é', '\xc3\xa9', '\xc2\xa0', '\u20ac', 'Ж', '\n', 'x\ny', '\U0001f600', 'one two', '"q"']
        if self.big and rng.random() < 0.3:
            # Long texts, with something to find near the end (expat gives them whole up to 8 KB)
            words = [w for w in pool if w.isascii()]
            def long():
                n = rng.choice([900, 3000, 5000, 7000])
                base = ''.join(rng.choice(words) for _ in range(rng.choice([2, 40])))
                return (base * (n // len(base) + 1))[:n - 6] + rng.choice(['nosuch', 'Q', 'ne t', '', 'end'])
            return E(names[0], [], [E(rng.choice(names), [('id', '%d' % i)], [long()] + ([E('b'), 'Q'] if rng.random() < 0.3 else [])) for i in range(rng.choice([1, 2, 5]))])
        if self.big and rng.random() < 0.5: return gen.gen_large(rng, xml=True, wide=500, deep=150, attrs=0, text=1900, names=names, attr_names=["i", "id", "k"], words=lambda: rng.choice(pool))
        return gen.gen_doc(rng, max_elems=rng.choice([1, 4, 10, 25]), max_depth=rng.choice([2, 4, 7]), names=names, attr_names=['i', 'id', 'k'], text=lambda: rng.choice(pool), attr_p=0.4, text_p=0.6, xml=True)

    def put(self, name, data):
        path = os.path.join(self.mine, name)
        with open(path, 'wb') as f: f.write(data)
        return path

    def address(self, rng, path):
        r = rng.random()
        if r < 0.15:
            self.stats.count('urls')
            return pathlib.Path(path).as_uri()
        return path if r < 0.6 else os.path.basename(path)

    # What is to be printed: list of items, of which text, number or boolean

    def item(self, i):
        if isinstance(i, X.N):
            if i.kind == 'attr': raise X.Avoid('attribute')
            if i.kind == 'root': return ''.join(k.obj.xml_encode() for k in i.kids)
            return i.obj.xml_encode()
        return i

    def expected(self, mode, x, foreach, limit, docs):
        """Lines in a list, by document (or part)"""
        out, left, hit = [], math.inf if limit is None else limit, False
        fuel = [60000]
        def ctx(i):
            c = X.Ctx(i)
            c.fuel = fuel
            return c
        for top in docs:
            lines = []
            root, _ = X.model(top, self.tree)
            starts = [root] if mode == 'expr' else [n for n in X.axis_nodes(root, 'descendant') if n.kind == 'elem']
            for s in starts:
                for i in X.ev(x, ctx(s)):
                    if left <= 0:
                        hit = True
                        break
                    left -= 1
                    lines += [self.item(j) for j in (X.ev(foreach, ctx(i)) if foreach is not None else [i])]
            out.append(lines)
        return out, hit

    def mismatch(self, got, items):
        """None, or how the text differs from that of the items, each ended by a line feed"""
        at = 0
        for n, i in enumerate(items):
            if isinstance(i, str):
                if not got.startswith(i + '\n', at): return 'item %d: %r rather than %r' % (n + 1, got[at:at + len(i) + 20], i)
                at += len(i) + 1
                continue
            end = got.find('\n', at)
            word = got[at:end] if end >= 0 else got[at:]
            if end < 0: return 'item %d: %r rather than a line with %r' % (n + 1, word, i)
            if isinstance(i, bool): ok = word.lower() == str(i).lower()
            else:
                try: v = float(word)
                except ValueError: v = None
                ok = v is not None and (v == i or (v != v and i != i))
            if not ok: return 'item %d: %r rather than %r' % (n + 1, word, i)
            at = end + 1
        if at != len(got): return '%r after all %d items' % (got[at:at + 200], len(items))
        return None

    def judge(self, args, outfile, items, detail, process):
        status, got, err = self.run(args, process)
        self.stats.count('runs')
        detail = dict(detail, args=args, status=status, stderr=err[-1500:], stdout=got[:1500])
        if status: raise Violation('failed with status %s' % status, expected=repr(items)[:600], **detail)
        if outfile:
            if got: raise Violation('output to standard output despite --out', **detail)
            with open(outfile, encoding='utf-8', newline='') as f: got = f.read()
            detail['outfile'] = got[:1500]
        d = self.mismatch(got, items)
        if d: raise Violation(d, expected=repr(items)[:1000], **detail)

    def sources(self, rng, names):
        """Paths, addresses, models & trees as they ought to be"""
        n = rng.choice([1, 1, 1, 2, 3]) if not self.big else gen.log_int(rng, 1, 40)
        self.stats.maximum('sources', n)
        form = rng.random()
        kind = 'xml' if form < 0.88 else 'html' if form < 0.94 else 'lax'
        paths, tops, models, contents = [], [], [], []
        for k in range(n):
            if kind == 'xml':
                e = self.document(rng, names)
                data = self.encode(rng, gen.render_xml(rng, e, plain=True))
                top = build(e, self.tree)
            elif kind == 'html':
                data = htmlgen.nested(rng).encode('utf-8')
                top, e = self.html5.parse(data), None
                ref = htmlgen.reference(data)
                if ref is not None:
                    d = compare(top, ref, self.tree)
                    if d and compare(top, htmlgen.reference(data, 'etree') or ref, self.tree): raise Violation('tree by --html: ' + d, source=data)
            else:
                data = htmlgen.lax(rng)
                data = (data[0] if isinstance(data, tuple) else data).encode('utf-8')
                top, e = self.html5.parse_lax_xml(data), None
                body = [c for c in htmlgen.reference(data).children if isinstance(c, E) and c.name == 'body'][0]
                if isinstance(body.children[0], E):
                    d = compare(top, body.children[0], self.tree)
                    if d: raise Violation('tree by --lax: ' + d, source=data)
            paths.append(self.put('s%d.xml' % k, data))
            tops.append(top); models.append(e); contents.append(data)
            if e is not None and rng.random() < 0.3:
                # What is printed of them is their serialization, which has to read back
                verdict, events = refuxml.read(top.xml_encode())
                if verdict == 'reject': raise Violation('xml_encode() is not well formed', text=top.xml_encode()[:1500])
                d = model_diff(merge(from_events(events)), merge(e))
                if d: raise Violation('xml_encode() reads back otherwise: ' + d, text=top.xml_encode()[:1500])
                self.stats.count('read_back')
        if n > 1 and rng.random() < 0.1:
            paths[1], tops[1], models[1], contents[1] = paths[0], tops[0], models[0], contents[0]
        if n > 1: self.stats.count('several_sources')
        if kind != 'xml': self.stats.count(kind)
        return kind, paths, tops, models, contents

    def arrange(self, rng, sources, opts):
        """Options in any order, before, after or around the sources"""
        rng.shuffle(opts)
        k = rng.choice([0, len(opts), rng.randint(0, len(opts))])
        before = [a for o in opts[:k] for a in o]
        after = [a for o in opts[k:] for a in o]
        return before + sources + after if not before or len(before[-1]) == 0 or True else None

    def opt(self, rng, name, value, short=None):
        if short and rng.random() < 0.5: return [short, value] if not value.startswith('-') else [short + value]
        return ['--%s=%s' % (name, value)] if rng.random() < 0.6 or value.startswith('-') else ['--' + name, value]

    big = False

    def run_case(self, kind, index, rng):
        names = ['a', 'b', 'c']
        self.big = kind == 'large'
        if self.big: kind = rng.choice(['query', 'query', 'find'])
        process = kind == 'process'
        if process: kind = rng.choice(['query', 'query', 'find', 'error'])
        if kind == 'error': return self.error(rng, names, process)
        form, paths, tops, models, contents = self.sources(rng, names)
        detail = dict(contents=[repr(c[:700]) for c in contents])
        addresses = [self.address(rng, p) for p in paths]
        opts, outfile = [], None
        if form != 'xml': opts.append(['--' + form])
        part = None
        if form == 'xml' and rng.random() < 0.22:
            part = rng.choice(names + [models[0].name])
            opts.append(self.opt(rng, 'partition', part))
            docs = [build(x, self.tree) for m in models for x in patterns.outermost(m, ('**', part))]
        else: docs = tops
        if form == 'html': names = ['p', 'div', 'b', 'span', 'html', 'body', 'head', 'a', 'i']
        elif form == 'lax': names = sorted({n.xml_name for n in self.elements(docs)})[:8] or ['a']
        if rng.random() < 0.12 and (process or self.utf8):
            outfile = os.path.join(self.mine, 'out.txt')
            if rng.random() < 0.3: self.put('out.txt', b'something old, and long enough to show ' * 200)
            opts.append(self.opt(rng, 'out', outfile, '-o'))
            self.stats.count('out_files')
        if kind == 'find':
            what = rng.choice(['x', 'y', '1', ' ', 'x y', 'é', '\n', 'nosuch', '"q"', '<', '&amp;', 'Ж', 'ne t', '-'])
            texts = [str(t) for n in self.elements(docs) for t in n.xml_children if isinstance(t, str) and str(t)]
            if texts and rng.random() < 0.6:
                what = rng.choice(texts)
                i = rng.randrange(len(what)) if rng.random() < 0.7 else max(0, len(what) - 9)
                what = what[i:i + rng.choice([1, 1, 2, 9, 30, 500])]
                if rng.random() < 0.2: what = what.swapcase()
                elif rng.random() < 0.1: what = rng.choice([' ' + what, what + ' ', what * 2])
            opts.append(self.opt(rng, 'find-text', what))
            attrs = rng.choice([None, None, ['i'], ['k', 'id'], ['id', 'nosuch', 'i']])
            if attrs:
                opts.append(self.opt(rng, 'show-attrs', ','.join(attrs)))
                self.stats.count('show_attrs')
            items = []
            for doc, top in enumerate(docs):
                root, _ = X.model(top, self.tree)
                for n in X.axis_nodes(root, 'descendant'):
                    if n.kind != 'text': continue
                    if what not in n.text: continue
                    steps, p = [], n.parent
                    while p.kind == 'elem':
                        have = {a.name: a.text for a in p.attrs}
                        steps.append(p.name + ''.join('[@%s="%s"]' % (a, have[a]) for a in attrs or () if a in have))
                        p = p.parent
                    items.append((doc, n.parent.order, n.order, '/'.join(reversed(steps))))
            # By element, then by place among its children
            items = [s for *_, s in sorted(items)]
            self.stats.count('found', len(items))
        else:
            g = X.Gen(rng, names, ['i', 'id', 'k'], ['x', '1', 'é', 'x y'], weird=0.02)
            mode = rng.choice(['expr', 'match'])
            r = rng.random()
            x = g.location() if r < 0.4 else ('pred', g.location(), [g.pred(1)]) if r < 0.6 else g.any(rng.choice([1, 2]))
            foreach = None
            if rng.random() < 0.35: foreach = g.any(rng.choice([0, 1, 2])) if rng.random() < 0.7 else ('call', 'concat', [('call', 'name', []), ('lit', ': '), ('call', 'string', [])])
            limit = rng.choice([None, None, 0, 1, 2, 3, 5, 20]) if not self.big else rng.choice([None, None, gen.log_int(rng, 5, 1500)])
            if self.big and rng.random() < 0.5: x = ('abs', '//', ('step', 'child', rng.choice([('*',), ('node',), ('text',), ('name', 'a')])))
            try: lines, hit = self.expected(mode, x, foreach, limit, docs)
            except (X.Avoid, X.XError):
                self.stats.count('avoided')
                return
            items = [i for l in lines for i in l]
            if any(isinstance(i, float) and not isinstance(i, bool) and (abs(i) > 1e15 or (i and abs(i) < 1e-5)) for i in items): return
            opts.append(self.opt(rng, mode, X.text(x, rng)))
            if foreach is not None:
                opts.append(self.opt(rng, 'foreach', X.text(foreach, rng)))
                self.stats.count('with_foreach')
            if limit is not None:
                opts.append(self.opt(rng, 'limit', str(limit), '-l'))
                self.stats.count('limited')
                if hit: self.stats.count('limit_reached')
            self.stats.count('lines_' + mode, len(items))
            self.stats.maximum('lines', len(items))
        if part: self.stats.count('partitions', len(docs))
        if any('\x00' in a for o in opts for a in o): return
        args = self.arrange(rng, addresses, opts)
        self.judge(args, outfile, items, detail, process)
        self.stats.case((args, contents), bool(items))
        if index < 2 and items: self.stats.sample([args, repr(items)[:200]])

    def elements(self, tops):
        out, stack = [], list(tops)
        while stack:
            n = stack.pop()
            if isinstance(n, self.tree.element):
                out.append(n)
                stack.extend(n.xml_children)
        return out

    def error(self, rng, names, process):
        """Has to end with an error, & not before what precedes was dealt with wrongly"""
        n = rng.choice([1, 2, 3])
        models = [self.document(rng, names) for _ in range(n)]
        datas = [self.encode(rng, gen.render_xml(rng, m, plain=True)) for m in models]
        what = rng.choice(['cut', 'cut', 'garbage', 'twice', 'missing', 'none', 'several', 'expression', 'encoding', 'directory', 'foreach', 'empty'])
        bad = rng.randrange(n)
        cmd = [self.opt(rng, 'expr', rng.choice(['//a', 'count(//*)', '/*']))]
        upto = bad
        part = rng.random() < 0.3
        if what == 'cut':
            t = gen.render_xml(rng, models[bad], plain=True)
            datas[bad] = t[:rng.randint(0, len(t) - 1)].encode('utf-8')
        elif what == 'empty': datas[bad] = rng.choice([b'', b'  \n', b'<?xml version="1.0"?>', b'<!-- nothing -->'])
        elif what == 'garbage': datas[bad] = rng.choice([b'<a><b></a></b>', b'not xml', b'<a>&nosuch;</a>', b'<a i="1" i="2"/>', b'<a', b'<a>\x01</a>', b'{"a": 1}', b'<a/>trailing', b'\n<?xml version="1.0"?><a/>', b' <?xml version="1.0" encoding="utf-8"?>\n<a/>\n', b'<a/>\x00', b'<a>]]></a>', b'<p:a/>' if not part else b'<a'])
        elif what == 'twice': datas[bad] = datas[bad] + datas[bad].replace(b'\xff\xfe', b'').replace(b'\xef\xbb\xbf', b'')
        elif what == 'encoding': datas[bad] = rng.choice([b'<a>\xff</a>', b'<?xml version="1.0" encoding="utf-8"?><a>\xe9</a>', b'<?xml version="1.0" encoding="nosuch-enc"?><a/>'])
        elif what == 'none': cmd, upto = [], 0
        elif what == 'several': cmd.append(self.opt(rng, rng.choice(['match', 'find-text']), 'a')); upto = 0
        elif what == 'expression': cmd, upto = [self.opt(rng, rng.choice(['expr', 'match']), rng.choice(['//', 'a[', 'a b', '@@', '(', 'count(', "'x", '#']))], 0
        elif what == 'foreach': cmd.append(self.opt(rng, 'foreach', rng.choice(['//', 'a[', 'a b', '(', "'x"]))); upto = 0
        paths = [self.put('e%d.xml' % k, d) for k, d in enumerate(datas)]
        if what == 'missing': paths[bad] = os.path.join(self.mine, 'nosuch.xml')
        if what == 'directory': paths[bad] = self.mine
        opts = list(cmd)
        x = None
        if part: opts.append(['--partition=a'])
        args = self.arrange(rng, [self.address(rng, p) for p in paths], opts)
        status, got, err = self.run(args, process)
        self.stats.count('runs')
        self.stats.count('errors')
        self.stats.see('error_kinds', (what, part))
        detail = dict(args=args, what=what, bad=bad, contents=[repr(d[:500]) for d in datas], stdout=got[:800], stderr=err[-800:])
        if status == 0: raise Violation('%s: ended without error' % what, **detail)
        if not err.strip(): raise Violation('%s: no word about the error' % what, **detail)
        if what not in ('missing', 'directory') and upto == 0 and got and not part: raise Violation('%s: something was printed ahead of the error, about input which could not be used' % what, **detail)
        self.stats.case((args, datas), True)
