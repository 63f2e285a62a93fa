"""P21: Same results in every process & environment, whatever became of the generated parser tables"""
import atexit, json, os, random, re, shutil, signal, subprocess, sys, tempfile, time, zipfile
from vlib import common
from vlib.common import BaseCheck, Violation, Inconclusive, rng_for
from vlib import gen, htmlgen, xmlgen, patterns, xpathref as X

PYTHON = sys.executable
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MODULES = ['amara3.uxml', 'amara3.uxml.tree', 'amara3.uxml.parser', 'amara3.uxml.treeutil', 'amara3.uxml.treeiter', 'amara3.uxml.xmliter', 'amara3.uxml.xml', 'amara3.uxml.html5',
           'amara3.uxml.html5iter', 'amara3.uxml.writer', 'amara3.uxml.uxpath', 'amara3.uxml.uxpath.xast', 'amara3.uxml.uxpath.functions', 'amara3.uxml.uxpath.lexrules', 'amara3.uxml.uxpath.parserules']
# In the working directory, to be taken for nothing else
DECOYS = ['parsetab', 'lextab', 'noparsetab', 'tree', 'writer', 'treeutil', 'lexrules', 'parserules', 'xast', 'functions', 'uxml', 'version', 'amara']
NOBODY = 65534


class Check(BaseCheck):
    id = 'P21'
    technique = 'differential monitor over processes: environments, crash points & concurrent first uses; fault injection into the writing of the parser tables'
    level_note = 'What a process prints of some 500 results is compared between processes which differ in environment, in what is left of the parser tables, & in who else writes them. Sampled environments; crash points at random times and character positions.'
    rule = ('A process imports the package & gives the results of parsing, streaming, selecting, querying, serializing, converting XML & HTML and microx on generated inputs; it has to print the same as one with fixed hashes and fresh tables. kind environment: hash seed, -O, -X dev, UTF-8 mode & locale, working directory with '
            'namesakes of modules in sys.path, collector off or frantic, order of imports, package in an archive. kind tables: parser tables absent, complete, cut off anywhere, of an older grammar, garbled, empty, in a directory one may not write to. kind crash: the process is killed at some time, or after some characters of the tables, or runs out of disk, or is interrupted; those after it '
            'have to be right. kind together: 3-8 processes which all are the first to use the package, some of them slow in writing tables. Distinct by set-up; non-trivial: results were compared.')
    quick = {'environment': 90, 'tables': 75, 'crash': 50, 'together': 12}
    fixed = ()
    thorough = {'environment': 2500, 'tables': 2000, 'crash': 1600, 'together': 400}
    required = {'processes': 300, 'results': 100000, 'hash_seeds': 40, 'tables_cut': 20, 'tables_stale': 8, 'killed': 8, 'denied': 5, 'together': 50, 'configurations': 100}
    assumptions = ['-OO (PLY needs docstrings) & -W error are left out', 'what is printed on standard error does not matter']
    rlimit_mb = 0
    case_cpu_s = 0
    wall_s = {'quick': 500, 'thorough': 3000}

    def sets(self): return 6 if self.tier == 'quick' else 24

    def setup(self):
        # The harness needs a reference only; the package is used by the processes
        self.parent = os.getpid()
        self.tmp = tempfile.mkdtemp(prefix='verif-p21-')
        atexit.register(lambda: os.getpid() == self.parent and shutil.rmtree(self.tmp, ignore_errors=True))
        os.chmod(self.tmp, 0o755)
        src = os.path.join(self.tmp, 'src')
        os.makedirs(src)
        shutil.copytree(os.path.join(common.REPO, 'pylib'), os.path.join(src, 'amara3'), ignore=shutil.ignore_patterns('__pycache__', 'parsetab.py', 'parser.out', '*.pyc', 'xtron'))
        shutil.copy(os.path.join(common.REPO, 'exec', 'microx'), os.path.join(self.tmp, 'microx'))
        self.child = os.path.join(self.tmp, 'anywhere.py')
        shutil.copy(os.path.join(HERE, 'vlib', 'anywhere.py'), self.child)
        for d, _, files in os.walk(self.tmp):
            os.chmod(d, 0o755)
            for f in files: os.chmod(os.path.join(d, f), 0o644)
        self.jobs_ = [self.make_set(rng_for(self.seed, 'P21', 'set', k), k) for k in range(self.sets())]
        # A lib with tables complete & what each set gives, by fresh processes with nothing unusual about them
        self.base = [None] * self.sets()
        runs = []
        for k in range(self.sets()):
            case = os.path.join(self.tmp, 'base%d' % k)
            self.lib(case)
            runs.append((k, case, self.start(case, k)))
        for k, case, p in runs:
            self.base[k] = self.finish(p, 'fresh', case)
            uxpath = os.path.join(case, 'lib', 'amara3', 'uxml', 'uxpath')
            if k == 0:
                try:
                    with open(os.path.join(uxpath, 'parsetab.py'), encoding='utf-8') as f: self.tables = f.read()
                except FileNotFoundError: self.tables = None
            shutil.rmtree(case)
        labels = [l.split()[0] for l, r in self.base[0] if not r.startswith('raises')]
        if len(set(labels)) < 14: raise Inconclusive('few kinds of results: %r' % sorted(set(labels)))
        if self.tables is None: self.tables = 'x = 1\n'

    # -- What the processes do

    def make_set(self, rng, k):
        names, attr_names, strings = ['a', 'b', 'c', 'text', '\xe9\u0416'], ['i', 'k', 'z', 'y', 'x'], ['x', '1', '2', '', ' ', '\xe9\u20ac\U0001f600']
        models = [gen.gen_doc(rng, max_elems=n, max_depth=6, names=names, attr_names=attr_names, text=lambda: rng.choice(strings), attr_p=0.5) for n in (1, 6, 15, 30)] + [gen.gen_doc(rng, max_elems=12)]
        docs = [gen.render(rng, e) for e in models] + ['<a><b></a>', '<a>&nosuch;</a>', '']
        # Not well-formed, mostly
        for _ in range(30):
            s = rng.choice(docs[:5])
            a, b = sorted(rng.randrange(min(len(s), 300) + 1) for _ in range(2))
            docs.append(rng.choice([s[:a], s[:a] + s[min(b, a + 3):], s[:a] + rng.choice(['<', '>', '</', '"', '=', '&', ';', '&#x;', '&#xD800;', '<a', '</a>', '<!--', '<?', ' i="1" i="2"', '\x00', '/>', ']]>', '<1', 'x']) + s[a:], s + s[a:], s[a:]]))
        pats = [patterns.gen_pattern(rng, rng.choice(models), names) for _ in range(8)]
        pats += [('a', '**', ('b', 'c')), ('a', ('a', 'b', 'c'), '*')]
        exprs = []
        g = X.Gen(rng, names, attr_names, strings)
        while len(exprs) < 60:
            exprs.append(X.text(rng.choice([g.any, g.boolean, g.nodes, g.nodes])(2), rng))
        exprs += ['//@*', '//*/@*', '(//@*)[1]', 'string(//@*)', 'for-each(//@*, string())', 'b|@i|text()|c', '//b|//c|//@*', '@*', '//@*|//text()', 'for-each(//b, name())', '(b,c,b)', '(', ')', 'a b', 'a[', '"', "'x", 'foo::a', '#', 'a!b', '1 2', '@', '/a/', 'f(,)', 'nosuch()', '$v', 'string-length()', 'count(1)', 'name(1, 2)', '//*[@i=@k]', 'count(//@*|//*)', '/|.']
        xmls = [['<a><b></a>', None], ['<a>&x;</a>', None], ['<a xmlns="u" xmlns:p="v" p:z="1" y="2" p:x="3"><p:b xml:lang="e"/></a>', None]]
        for _ in range(5):
            s = xmlgen.make(rng, 8).source
            xmls.append([s, None] if isinstance(s, str) else [s.decode('latin-1'), 'latin-1'])
        htmls = [htmlgen.soup(rng) for _ in range(4)] + [htmlgen.nested(rng), '<svg xlink:href=a viewbox=b foo=c zoo=d xml:lang=e>', '<p id=1 class=2 title=3 lang=4 dir=5>x']
        files = []
        for i, e in enumerate(models):
            path = os.path.join(self.tmp, 'in%d-%d.xml' % (k, i))
            with open(path, 'w', encoding='utf-8', errors='xmlcharrefreplace') as f: f.write(gen.render_xml(rng, gen.gen_doc(rng, max_elems=10, names=names, attr_names=attr_names, text=lambda: rng.choice(strings), xml=True)))
            os.chmod(path, 0o644)
            files.append(path)
        microx = [['--expr', rng.choice(exprs[:30] + ['//b', 'count(//a)']), *files[:2]], ['--match', rng.choice(names), files[1]], ['--find-text', 'x', *files], ['--match', 'b', '--foreach', 'string(.)', files[2], files[3]], ['--expr', '//a', os.path.join(self.tmp, 'nosuch.xml')]]
        return dict(docs=docs, patterns=[[list(s) if isinstance(s, tuple) else s for s in p] for p in pats], exprs=exprs, xmls=xmls, htmls=htmls, microx=microx, script=os.path.join(self.tmp, 'microx'),
                    prefixes=[['', 'urn:d'], ['p', 'urn:p'], ['q', 'urn:q'], ['r', 'urn:r'], ['s', 'urn:s']], mapping={'a': ['urn:p', 'p'], 'b': ['urn:q', 'q']}, order=MODULES)

    # -- Processes

    def lib(self, case, tables=None):
        os.makedirs(case)
        os.chmod(case, 0o755)
        shutil.copytree(os.path.join(self.tmp, 'src'), os.path.join(case, 'lib'))
        os.makedirs(os.path.join(case, 'cwd'))
        os.makedirs(os.path.join(case, 'tmp'))
        os.chmod(os.path.join(case, 'tmp'), 0o1777)
        os.chmod(os.path.join(case, 'cwd'), 0o777)
        if tables is not None:
            with open(self.tabfile(case), 'w', encoding='utf-8') as f: f.write(tables)
        return case

    def tabfile(self, case): return os.path.join(case, 'lib', 'amara3', 'uxml', 'uxpath', 'parsetab.py')

    def start(self, case, k, flags=(), env=None, user=None, dash_c=False, **job):
        n = len(os.listdir(os.path.join(case)))
        j = os.path.join(case, 'job%d-%d.json' % (n, random.Random().getrandbits(40)))
        with open(j, 'w', encoding='utf-8') as f: json.dump(dict(self.jobs_[k], lib=job.pop('lib', None) or os.path.join(case, 'lib'), **job), f)
        os.chmod(j, 0o644)
        e = {'PATH': '/usr/bin:/bin', 'PYTHONHASHSEED': '0', 'TMPDIR': os.path.join(case, 'tmp'), 'HOME': os.path.join(case, 'tmp'), 'PYTHONDONTWRITEBYTECODE': '1'}
        e.update(env or {})
        e = {a: b for a, b in e.items() if b is not None}
        argv = [PYTHON, *flags]
        # -c has the working directory ahead in sys.path
        if dash_c: argv += ['-c', 'import sys; sys.argv[:] = sys.argv[1:]; exec(compile(open(sys.argv[0], encoding="utf-8").read(), sys.argv[0], "exec"))', self.child, j]
        else: argv += [self.child, j]
        out, err = (open(j[:-5] + x, 'wb+') for x in ('.out', '.err'))
        kw = dict(user=user, group=user, extra_groups=[]) if user else {}
        try:
            p = subprocess.Popen(argv, cwd=os.path.join(case, 'cwd'), env=e, stdin=subprocess.DEVNULL, stdout=out, stderr=err, start_new_session=True, **kw)
        except OSError:
            if not user: raise
            return None
        p.files = out, err
        p.shown = 'flags %s, environment %s, %s' % (' '.join(flags), {a: b for a, b in (env or {}).items()}, {a: b for a, b in job.items() if a != 'order'} or '')
        return p

    def output(self, p, timeout=150):
        try:
            p.wait(timeout)
            late = False
        except subprocess.TimeoutExpired:
            os.killpg(p.pid, signal.SIGKILL)
            p.wait()
            late = True
        res = []
        for f in p.files:
            f.seek(0)
            res.append(f.read().decode('utf-8', 'replace'))
            f.close()
        if late: raise Inconclusive('a process took more than %d s: %s' % (timeout, res[1][-500:]))
        return p.returncode, *res

    def finish(self, p, what, case, want=None, left=()):
        rc, out, err = self.output(p)
        self.stats.count('processes')
        d = dict(setting=what, process=p.shown, error=err[-1500:])
        if rc != 0:
            if rc < 0 and -rc == signal.SIGKILL: raise Inconclusive('a process was killed (memory?)')
            raise Violation('%s: the process fails, with status %d: %s' % (what, rc, (err.strip().splitlines() or [''])[-1][:300]), **d)
        try: got = json.loads(out)
        except ValueError: raise Violation('%s: something else is printed on standard output' % what, output=out[:500], **d)
        if set(os.listdir(os.path.join(case, 'cwd'))) != set(left): raise Violation('%s: files left in the working directory: %r' % (what, sorted(set(os.listdir(os.path.join(case, 'cwd'))) - set(left))), **d)
        if want is not None:
            if [l for l, _ in got] != [l for l, _ in want]: raise Violation('%s: other results there than in another process' % what, got=[l for l, _ in got][:300], expected=[l for l, _ in want][:300], **d)
            for (label, a), (_, b) in zip(got, want):
                if a != b: raise Violation('%s: %s is not what it is in another process' % (what, label), got=a[:600], expected=b[:600], **d)
            self.stats.count('results', len(got))
        return got

    # -- Cases

    def run_case(self, kind, index, rng):
        k = index % self.sets()
        case = tempfile.mkdtemp(prefix='%s%d-' % (kind, index), dir=self.tmp)
        os.rmdir(case)
        try: {'environment': self.environment, 'tables': self.left, 'crash': self.crash, 'together': self.together}[kind](case, k, rng, index)
        finally: shutil.rmtree(case, ignore_errors=True)

    def one_setting(self, rng, case):
        """Of a process: what to pass to start(), & a description"""
        flags, env, job, kw, what = [], {}, {}, {}, []
        def some(p): return rng.random() < p
        if some(0.7):
            env['PYTHONHASHSEED'] = str(rng.randrange(1, 2 ** 32))
            self.stats.count('hash_seeds')
            what.append('hash seed ' + env['PYTHONHASHSEED'])
        if some(0.3): flags.append('-O'); what.append('-O')
        if some(0.15): flags += ['-X', 'dev']; what.append('-X dev')
        if some(0.15): env['PYTHONOPTIMIZE'] = '1'
        if some(0.4):
            env.update(rng.choice([{'LC_ALL': 'C'}, {'LC_ALL': 'POSIX', 'PYTHONCOERCECLOCALE': '0', 'PYTHONUTF8': '0'}, {'LC_ALL': 'C', 'PYTHONUTF8': '1'}, {'LANG': 'C.UTF-8'}, {'LC_ALL': 'tr_TR.UTF-8', 'LANG': 'tr_TR.UTF-8'}, {'LC_ALL': 'C', 'PYTHONCOERCECLOCALE': '0', 'PYTHONUTF8': '0', 'PYTHONIOENCODING': 'ascii'}, {'PYTHONIOENCODING': 'latin-1'}]))
            what.append('locale')
        if some(0.2): env['TZ'] = rng.choice(['Asia/Kolkata', 'America/New_York', 'UTC'])
        if some(0.2): env['COLUMNS'] = '20'; env['TERM'] = 'dumb'
        if some(0.3): env['PYTHONDONTWRITEBYTECODE'] = None
        if some(0.35): job['gc'] = rng.choice(['off', [10, 2, 2], [700, 10, 10], [1, 1, 5]]); what.append('gc %r' % (job['gc'],))
        if some(0.5):
            order = list(MODULES)
            rng.shuffle(order)
            job['order'] = order[:rng.choice([0, 1, 1, 1, 3, len(order)])]
            what.append('imports %s' % ' '.join(m.rpartition('.')[2] for m in job['order']))
        left = []
        if some(0.35):
            kw['dash_c'] = some(0.7)
            for m in DECOYS:
                with open(os.path.join(case, 'cwd', m + '.py'), 'w') as f: f.write('raise SystemExit("a namesake in the working directory")\n')
                left.append(m + '.py')
            if kw['dash_c']: env['PYTHONDONTWRITEBYTECODE'] = '1'
            what.append('namesakes')
        return dict(flags=flags, env=env, **job, **kw), ', '.join(what) or 'nothing unusual', left

    def environment(self, case, k, rng, index):
        self.lib(case, self.tables if rng.random() < 0.6 else None)
        setting, what, left = self.one_setting(rng, case)
        if rng.random() < 0.12:
            z = os.path.join(case, 'lib.zip')
            with zipfile.ZipFile(z, 'w') as f:
                for d, _, files in os.walk(os.path.join(case, 'lib')):
                    for x in files: f.write(os.path.join(d, x), os.path.relpath(os.path.join(d, x), os.path.join(case, 'lib')))
            setting['lib'] = z
            what += ', from an archive'
            self.stats.count('from_archive')
        elif rng.random() < 0.12:
            # As developers do
            setting['env']['BUILDuxpath.LEX'] = '1'
            what += ', lexer tables written'
            self.stats.count('lexer_tables')
            self.finish(self.start(case, k, **setting), what, case, self.base[k], left)
        for _ in range(rng.choice([1, 1, 2])): self.finish(self.start(case, k, **setting), what, case, self.base[k], left)
        self.note(what)

    def note(self, what):
        self.stats.case(what)
        self.stats.count('configurations')
        if len(what) < 200: self.stats.sample(what, 2)

    def stale(self, rng):
        """Tables such as those of another grammar, with their own signature"""
        t = self.tables
        r = rng.random()
        if r < 0.35:
            # Another signature, & wrong actions
            t = re.sub(r"_lr_signature = '", "_lr_signature = 'older ", t, count=1)
            nums = [m for m in re.finditer(r'-?\d+', t) if m.start() > t.find('_lr_action_items')]
            for m in sorted(rng.sample(nums, min(len(nums), 40)), key=lambda m: -m.start()): t = t[:m.start()] + str(int(m.group()) + 1) + t[m.end():]
        elif r < 0.6:
            # Precedence the other way around
            m = re.search(r"_lr_signature = '(.*)'", t)
            if m: t = t[:m.start(1)] + m.group(1).replace('left', 'right', 1) + ' older' + t[m.end(1):]
            t = t.replace('p_expr', 'p_older')
        elif r < 0.8: t = re.sub(r"_tabversion = '.*'", "_tabversion = '2.1'", t, count=1)
        else: t = "_tabversion = '3.10'\n_lr_method = 'LALR'\n_lr_signature = 'X : Y'\n_lr_action_items = {}\n_lr_action = {}\n_lr_goto_items = {}\n_lr_goto = {}\n_lr_productions = []\n"
        self.stats.count('tables_stale')
        return t

    def tables_left(self, rng):
        r = rng.random()
        t = self.tables
        if r < 0.08: return 'absent', None
        if r < 0.16: return 'complete', t
        if r < 0.32: return 'older', self.stale(rng)
        if r < 0.8:
            self.stats.count('tables_cut')
            # Anywhere, or where a line ends
            ends = [m.end() for m in re.finditer('\n|= |, |;', t)]
            n = rng.randrange(len(t)) if rng.random() < 0.5 or not ends else rng.choice(ends[:40] + ends[-40:]) if rng.random() < 0.5 else rng.choice(ends)
            return 'cut off after %d of %d characters' % (n, len(t)), t[:n]
        if r < 0.87:
            self.stats.count('tables_stale')
            return 'empty', rng.choice(['', '\n', '# Nothing\n', '\x00' * 2000])
        n = rng.randrange(len(t))
        return 'garbled', rng.choice([t[:n] + '\x00' * (len(t) - n), t[:n] + '}' + t[n:], t[:n] + '\n' + 'x' * 30 + '\n', 'raise ValueError("x")\n', 'import nosuch\n', t[:n] + '"'])

    def left(self, case, k, rng, index):
        what, t = self.tables_left(rng)
        self.lib(case, t)
        if rng.random() < 0.15:
            # Only of use to developers
            with open(os.path.join(os.path.dirname(self.tabfile(case)), 'lextab.py'), 'w') as f: f.write(rng.choice(["_tabversion = '3.10'\n_lextokens = set(('A',))\n", 'x = {', 'raise ValueError("older")\n']))
            what += ', lexer tables left'
        if t is not None and rng.random() < 0.2: os.utime(self.tabfile(case), (1e9, 1e9))
        setting = {}
        if rng.random() < 0.4:
            setting, w, left = self.one_setting(rng, case)
            what += ', ' + w
        else: left = []
        if rng.random() < 0.25:
            # One may not write there
            if rng.random() < 0.3:
                f = os.path.join(case, 'tmp', rng.choice(['parsetab.py', 'parser.out']))
                with open(f, 'w') as fp: fp.write('raise SystemExit("not one of ours")\n')
                os.chmod(f, 0o444)
                what += ', nor the temporary file'
            what = 'directory not writable, tables ' + what
            p = self.start(case, k, user=NOBODY, **setting) if rng.random() < 0.5 else None
            if p is not None: self.stats.count('unprivileged')
            else:
                # By stand-ins
                p = self.start(case, k, denied=os.path.join(case, 'lib'), **setting)
                self.stats.count('denied')
            self.finish(p, what, case, self.base[k], left)
            self.note(what)
            return
        what = 'tables ' + what
        for i in range(rng.choice([1, 2, 3])): self.finish(self.start(case, k, **setting), what + (', process %d' % (i + 1) if i else ''), case, self.base[k], left)
        self.note(what)

    def crash(self, case, k, rng, index):
        self.lib(case, rng.choice([None, None, self.stale(rng)]))
        what = []
        for _ in range(rng.choice([1, 1, 2, 3])):
            mode = rng.choice(['time', 'kill', 'kill', 'full', 'full', 'interrupt'])
            if mode == 'time':
                p = self.start(case, k)
                t = rng.random() * 0.9
                time.sleep(t)
                try: os.killpg(p.pid, signal.SIGKILL)
                except ProcessLookupError: pass
                what.append('killed after %.3f s' % t)
                rc, out, err = self.output(p)
                if rc == -9: self.stats.count('killed')
            else:
                n = rng.randrange(len(self.tables) + 1) if rng.random() < 0.7 else rng.choice([0, 1, 10, len(self.tables) - 1, len(self.tables) - 2])
                p = self.start(case, k, interfere=[mode, n])
                what.append('%s after %d characters' % (mode, n))
                if mode == 'full':
                    # It has its tables, nevertheless
                    self.finish(p, 'disk full while the tables are written', case, self.base[k])
                    self.stats.count('disk_full')
                else:
                    rc, out, err = self.output(p)
                    if mode == 'kill' and rc == 9: self.stats.count('killed')
                    if mode == 'interrupt' and rc: self.stats.count('interrupted')
        what = ', '.join(what)
        for i in range(2): self.finish(self.start(case, k), 'after an earlier process was ' + what, case, self.base[k])
        self.note(what)

    def together(self, case, k, rng, index):
        what, t = self.tables_left(rng)
        if rng.random() < 0.6: what, t = 'absent', None
        self.lib(case, t)
        n = rng.choice([3, 4, 6, 8])
        what = '%d processes at once, tables %s' % (n, what)
        ps = []
        for i in range(n):
            kw = {}
            if rng.random() < 0.5: kw['interfere'] = ['slow', rng.choice([500, 5000, 20000])]
            if rng.random() < 0.5: kw['env'] = {'PYTHONHASHSEED': str(rng.randrange(1, 2 ** 32))}
            ps.append(self.start(case, (k + i) % self.sets(), **kw))
            if rng.random() < 0.6: time.sleep(rng.random() * 0.3)
        bad = None
        for i, p in enumerate(ps):
            try: self.finish(p, what, case, self.base[(k + i) % self.sets()])
            except (Violation, Inconclusive) as e: bad = bad or e
        if bad: raise bad
        self.stats.count('together', n)
        self.finish(self.start(case, k), 'after ' + what, case, self.base[k])
        self.note(what)

