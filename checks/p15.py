"""P15: independent use from several threads does not interfere"""
import io, os, random, re, sys, threading, time
from vlib.common import BaseCheck, Violation, Inconclusive
from vlib import gen, xpathref as X, patterns
from vlib.amara import build, collector, conv_event, snapshot
from checks.p11 import xtree

MON = sys.monitoring
TOOL = 4


class CoopLock:
    """In place of the locks the library makes as it is imported: a scheduled thread which cannot have it lets others run"""
    scheduler = None
    def __init__(self, real): self.real = real
    def acquire(self, blocking=True, timeout=-1):
        s = CoopLock.scheduler
        if not blocking or s is None or getattr(s.mine, 'i', None) is None: return self.real.acquire(blocking, timeout)
        while not self.real.acquire(False): s.blocked()
        return True
    def release(self): self.real.release()
    def __enter__(self): return self.acquire()
    def __exit__(self, *a): self.real.release()
    def __getattr__(self, name): return getattr(self.real, name)


class Scheduler:
    """
    Runs functions in threads, one at a time, switching at lines of the code of interest as rng says. Only the thread with the token
    runs. If that is stuck, waiting for a lock another has, say, the token is taken from it
    """
    def __init__(self, rng, funcs, mean):
        self.rng, self.mean = rng, mean
        self.events = [threading.Event() for _ in funcs]
        self.live = set(range(len(funcs)))
        self.token = None
        self.steps, self.switches, self.stolen, self.waits = 0, 0, 0, 0
        self.left = self.gap()
        self.trace = []
        self.mine = threading.local()
        self.results = [None] * len(funcs)
        self.threads = [threading.Thread(target=self.body, args=(i, f), daemon=True) for i, f in enumerate(funcs)]

    def gap(self): return 1 + int(self.rng.expovariate(1.0 / self.mean))

    def wait(self, i):
        while self.token != i:
            seen = self.steps
            if not self.events[i].wait(0.03) and self.token != i and self.steps == seen:
                # With each, switches become rarer
                self.stolen += 1
                self.mean *= 1.5
                self.token = i
        self.events[i].clear()

    def give(self, i):
        self.token = i
        self.events[i].set()

    def line(self, code, line):
        i = getattr(self.mine, 'i', None)
        if i is None: return
        if self.token != i: self.wait(i)
        self.steps += 1
        self.left -= 1
        if self.left > 0 or len(self.live) < 2: return
        self.left = self.gap()
        to = self.rng.choice(sorted(self.live - {i}) or [i])
        if to == i: return
        self.switches += 1
        if len(self.trace) < 400: self.trace.append((i, os.path.basename(code.co_filename), line, to))
        self.events[i].clear()
        self.give(to)
        self.wait(i)

    def blocked(self):
        """The current thread cannot go on for now"""
        i = self.mine.i
        if self.token != i: self.wait(i)
        self.waits += 1
        self.steps += 1
        others = sorted(self.live - {i})
        if not others: raise Violation('blocked forever: a lock is held by a thread which has ended')
        if self.waits > 100000: raise Violation('deadlock')
        self.events[i].clear()
        self.give(self.rng.choice(others))
        self.wait(i)

    def body(self, i, f):
        self.wait(i)
        self.mine.i = i
        try:
            self.results[i] = f()
        finally:
            self.mine.i = None
            self.live.discard(i)
            if self.live: self.give(self.rng.choice(sorted(self.live)))

    def run(self, wanted):
        def hit(code, line):
            if not wanted(code.co_filename): return MON.DISABLE
            return self.line(code, line)
        MON.use_tool_id(TOOL, 'verif-schedule')
        MON.register_callback(TOOL, MON.events.LINE, hit)
        MON.set_events(TOOL, MON.events.LINE)
        MON.restart_events()
        CoopLock.scheduler = self
        try:
            for t in self.threads: t.start()
            self.give(self.rng.choice(sorted(self.live)))
            for t in self.threads:
                t.join(120)
                if t.is_alive(): raise Inconclusive('threads do not come to an end')
        finally:
            CoopLock.scheduler = None
            MON.set_events(TOOL, 0)
            MON.register_callback(TOOL, MON.events.LINE, None)
            MON.free_tool_id(TOOL)
        return self.results


def free_run(rng, funcs, wanted, yields):
    """Preemptive threads, with as small a switch interval as there is & the odd yield at lines of the code of interest"""
    results = [None] * len(funcs)
    barrier = threading.Barrier(len(funcs))
    local = threading.local()
    last, trace = [None], []
    def hit(code, line):
        if not wanted(code.co_filename): return MON.DISABLE
        r = getattr(local, 'rng', None)
        if r is None: return
        me = local.i
        if last[0] != me:
            if len(trace) < 400: trace.append((last[0], os.path.basename(code.co_filename), line, me))
            last[0] = me
        if r.random() < 0.05: time.sleep(0 if r.random() < 0.7 else 0.00005)
    def body(i, f, seed):
        local.rng, local.i = random.Random(seed), i
        barrier.wait()
        results[i] = f()
        local.rng = None
    threads = [threading.Thread(target=body, args=(i, f, rng.random()), daemon=True) for i, f in enumerate(funcs)]
    old = sys.getswitchinterval()
    sys.setswitchinterval(1e-6)
    if yields:
        MON.use_tool_id(TOOL, 'verif-schedule')
        MON.register_callback(TOOL, MON.events.LINE, hit)
        MON.set_events(TOOL, MON.events.LINE)
        MON.restart_events()
    try:
        for t in threads: t.start()
        for t in threads:
            t.join(120)
            if t.is_alive(): raise Inconclusive('threads do not come to an end')
    finally:
        sys.setswitchinterval(old)
        if yields:
            MON.set_events(TOOL, 0)
            MON.register_callback(TOOL, MON.events.LINE, None)
            MON.free_tool_id(TOOL)
    return results, trace


class Check(BaseCheck):
    id = 'P15'
    technique = 'differential monitor of threads under a controlled scheduler switching at code lines, & preemptive stress with injected yields'
    level_note = 'Each call in each of 2-5 threads is compared with the same call alone, before or after. Schedules are controlled (random switch points at any line of the library, ply & weakref, replayable) or preemptive (smallest switch interval, injected yields). Sampled schedules; distinct ones are counted.'
    rule = ('2-5 threads with 1-8 calls each: uxml.parse, tree.parse, own treebuilders, XML treebuilder, event parser in chunks, treeiter & xmliter senders, xml_encode, writers, treeutil, make_pretty, uxpath.parse, qquery by text or tree, xml_xpath, shared expressions, text & trees; '
            'valid & malformed input. Threads often get the same or similar calls. Distinct by the sequence of switches (thread, file, line); non-trivial: at least 3 switches.')
    quick = {'controlled': 2600, 'preemptive': 300, 'free': 120}
    boost = 3
    thorough = {'controlled': 60000, 'preemptive': 6000, 'free': 3000}
    required = {'cold': 1000, 'calls': 20000, 'switches': 60000, 'interleavings': 2000, 'shared_expression': 800, 'call_parse': 1000, 'call_xml': 1000, 'call_stream': 800, 'call_expression': 1000, 'call_query': 2000, 'call_serialize': 1000, 'failing_calls': 500}
    assumptions = ['line granularity of switches in the controlled schedules', 'html5lib is not included']
    case_cpu_s = None

    def setup(self):
        # Whatever locks the library has shall be known to the scheduler
        real = threading.Lock, threading.RLock
        import weakref, tempfile, logging, html5lib, xml.dom.minidom, urllib.request, ply.lex, ply.yacc   # These keep theirs
        threading.Lock, threading.RLock = (lambda: CoopLock(real[0]())), (lambda: CoopLock(real[1]()))
        try: BaseCheck.setup(self)
        finally: threading.Lock, threading.RLock = real

    def worker_setup(self):
        import amara3.uxml
        from amara3.uxml import tree, uxpath, xml, parser, treeiter, xmliter, writer, treeutil
        from amara3.uxml.uxpath import xast
        self.uxml, self.tree, self.uxpath, self.xml, self.parser, self.treeiter, self.xmliter, self.writer, self.tu, self.xast = amara3.uxml, tree, uxpath, xml, parser, treeiter, xmliter, writer, treeutil, xast

    def wanted(self, fn):
        return os.sep + 'uxml' + os.sep in fn or os.sep + 'ply' + os.sep in fn or fn.endswith('weakref.py')

    # What a call gives, in a form which can be compared

    def show_tree(self, top):
        """Structure, attributes & parent links. Iterative"""
        out, stack = [], [(top, None)]
        while stack:
            n, parent = stack.pop()
            if isinstance(n, self.tree.element):
                out.append((n.xml_name, list(n.xml_attributes.items()), len(n.xml_children), n.xml_parent is parent))
                stack.extend((c, n) for c in n.xml_children)
            else: out.append((type(n).__name__, str(n), n.xml_parent is parent if isinstance(n, self.tree.text) else None))
        return out

    def show_items(self, items, paths=None):
        out = []
        for x in items:
            if isinstance(x, self.xast.root_node): out.append('root')
            elif isinstance(x, self.xast.attribute_node): out.append(('@', x.xml_name, x.xml_value, paths.get(id(x.xml_parent)) if paths else None))
            elif isinstance(x, self.tree.element): out.append(('e', x.xml_name, paths.get(id(x)) if paths else x.xml_encode()))
            elif isinstance(x, self.tree.text): out.append(('t', str(x), paths.get(id(x)) if paths else None))
            else: out.append((type(x).__name__, repr(x)))
        return out

    def call(self, rng, pool):
        """(kind, what it is, function)"""
        r = rng.random() if pool['focus'] is None else pool['focus'] + 0.03 * rng.random()
        doc, e = rng.choice(pool['docs'])
        if rng.random() < 0.12: doc = doc[:rng.randint(0, len(doc))] if rng.random() < 0.5 else doc.replace('<', '<<', 1)
        src = rng.choice(pool['exprs'])
        if r < 0.16:
            f = rng.choice([self.uxml.parse, self.uxml.parse, self.tree.parse, lambda d: self.tree.treebuilder().parse(d)])
            return 'parse', doc, lambda: self.show_tree(f(doc))
        if r < 0.26:
            return 'xml', doc, lambda: self.show_tree(self.xml.treebuilder().parse(doc))
        if r < 0.34:
            size = rng.choice([1, 3, 1000])
            def events():
                out = []
                h = collector(out); 
                p = self.parser.parser(h)
                for i in range(0, len(doc), size): p.send((doc[i:i + size], False))
                p.send(('', True))
                return [conv_event(ev) for ev in out]
            def whole():
                return [conv_event(ev) for ev in self.parser.parse(doc)]
            def frags():
                return [conv_event(ev) for ev in self.parser.parsefrags([doc[i:i + size] for i in range(0, len(doc), size)])]
            def xml():
                out = []
                self.xml.parse(doc, collector(out))
                return [conv_event(ev) for ev in out]
            return 'events', doc, rng.choice([events, events, whole, frags, xml])
        if r < 0.42:
            pats = [patterns.gen_pattern(rng, e, ['a', 'b', 'c']) for _ in range(rng.choice([1, 2]))]
            cls = rng.choice([self.treeiter.sender, self.xmliter.sender])
            def stream():
                got = [[] for _ in pats]
                def sink(i):
                    while True:
                        t = yield
                        got[i].append(self.show_tree(t))
                cls(pats, [sink(i) for i in range(len(pats))]).parse(doc)
                return got
            return 'stream', (pats, doc), stream
        if r < 0.5:
            top = rng.choice(pool['trees'])
            f = rng.randrange(4)
            if f == 0: return 'serialize', 'xml_encode', lambda: top.xml_encode()
            if f == 1: return 'serialize', 'indented', lambda: top.xml_encode(indent='  ')
            if f == 2: return 'serialize', 'value', lambda: (self.tree.strval(top), top.xml_value)
            kind = rng.choice(['raw', 'indented', 'namespacer', 'calls'])
            indent = rng.choice(['  ', '\t'])
            prefixes, mapping = {'p': 'urn:p', 'q': 'urn:q&'}, {n: ('urn:' + x, x) for n in ('a', 'b', '@a', '@i') for x in [rng.choice('pq')]}
            def write():
                out = io.StringIO()
                if kind == 'raw': w = self.writer.raw(fp=out)
                elif kind == 'namespacer': w = self.writer.namespacer(fp=out, prefixes=prefixes, mapping=mapping)
                else: w = self.writer.raw(fp=out, indent=indent)
                if kind == 'calls':
                    w.start_element('out', attribs={'x': '1', 'y': '<&"'})
                    w.text('a < b & c')
                    self.writer.write(top, w)
                    w.start_element('c', empty=True)
                    w.end_element('out')
                else: self.writer.write(top, w)
                return out.getvalue()
            return 'serialize', 'writer', write
        if r < 0.57:
            top = rng.choice(pool['trees'])
            paths = pool['paths']
            pat = patterns.gen_pattern(rng, e, ['a', 'b', 'c'], rooted=False)
            if rng.random() < 0.5: pat += tuple(rng.choice(['**', 'a', '*', ('a', 'b')]) for _ in range(rng.choice([0, 2, 5])))
            u = pool['sub'] if pool['focus'] is not None and rng.random() < 0.8 else rng.random()
            if u < 0.4: return 'utility', pat, lambda: self.show_items(self.tu.select_pattern(top, pat), paths)
            if u < 0.5: return 'utility', 'descendants', lambda: self.show_items(self.tu.descendants(top), paths)
            which = int((u - 0.5) * 8)
            if which == 0:
                node = rng.choice(pool['nodes'])
                if node.xml_parent is not None: return 'utility', 'following_siblings', lambda: self.show_items(self.tu.following_siblings(node), paths)
            if which == 1:
                name, value = rng.choice('abc'), rng.choice(['1', 'x', ''])
                f = rng.choice([lambda t: self.tu.select_elements(t), lambda t: self.tu.select_name(t, name), lambda t: self.tu.select_name_pattern(t, re.compile('^[ab]')), lambda t: self.tu.select_value(t, value),
                                lambda t: self.tu.select_attribute(t, name), lambda t: self.tu.select_attribute(self.tu.select_elements(t), name, value)])
                return 'utility', 'select', lambda: self.show_items(f(top), paths)
            if which == 2:
                seed = rng.random()
                def mutate():
                    # A tree of its own
                    r = random.Random(seed)
                    own = build(e, self.tree)
                    kept = []
                    for _ in range(8):
                        at = r.choice([own] + [x for x in own.xml_children if isinstance(x, self.tree.element)])
                        op = r.random()
                        if op < 0.4: at.xml_append(r.choice(['x', 'y<']) if op < 0.2 else self.tree.element('n', {'k': str(op)}))
                        elif op < 0.6: at.xml_insert(self.tree.element('m') if op < 0.5 else 't', r.randint(0, 3))
                        elif at.xml_children:
                            k = r.choice(at.xml_children)
                            at.xml_remove(k)
                            kept.append(k)
                            if k.xml_parent is not None: kept.append('parent')
                    return self.show_tree(own), own.xml_encode(), [str(k.xml_value) for k in kept if k != 'parent'], kept.count('parent')
                return 'utility', 'mutate', mutate
            return 'utility', 'make_pretty', lambda: self.tu.make_pretty(build(e, self.tree)).xml_encode()
        if r < 0.68:
            if rng.random() < 0.15: src = src + rng.choice([' or', '[', '$', '#', ')', '/'])
            return 'expression', src, lambda: self.xast.serialize(self.uxpath.parse(src))
        top = rng.choice(pool['trees'])
        paths, vars = pool['paths'], pool['vars']
        if r < 0.76: return 'query', (src, doc), lambda: self.show_items(self.uxpath.qquery(doc if rng else doc, src, vars=vars))
        if r < 0.84: return 'query', src, lambda: self.show_items(self.uxpath.qquery(top, src, vars=vars), paths)
        expr = pool['parsed'][src]
        node = rng.choice(pool['nodes'])
        self.stats.count('shared_expression')
        if rng.random() < 0.4 and node.xml_parent is not None: return 'query', (src, 'shared, xml_xpath'), lambda: self.show_items(node.xml_xpath(expr, vars=vars), paths)
        return 'query', (src, 'shared'), lambda: self.show_items(self.uxpath.qquery(node, expr, vars=vars), paths)

    def outcome(self, f):
        try: return ('value', f())
        except Exception as ex: return ('raises', type(ex).__name__)

    def run_case(self, kind, index, rng):
        names = ['a', 'b', 'c']
        docs = []
        for _ in range(rng.choice([1, 2, 4])):
            e = gen.gen_doc(rng, max_elems=rng.choice([2, 6, 15]), max_depth=rng.choice([2, 4, 6]), names=names, attr_names=['i', 'k'], text=lambda: rng.choice(['x', 'y<', '1', ' ', 'é&']), attr_p=0.4, text_p=0.6, xml=True)
            docs.append((gen.render_xml(rng, e, plain=True), e))
        trees, strings, attr_names = [build(docs[0][1], self.tree)], ['x', '1'], ['i', 'k']
        if rng.random() < 0.5:
            t, n, a, s = xtree(rng, self.tree, rng.choice([3, 8, 15]))
            trees.append(t)
            names, attr_names, strings = list(dict.fromkeys(names + n)), list(dict.fromkeys(attr_names + a)), strings + s[:2]
        g = X.Gen(rng, names, attr_names, strings, vars=[('n', 'number'), ('s', 'string')], weird=0.02)
        exprs = []
        for _ in range(rng.choice([1, 2, 4])):
            r = rng.random()
            x = g.location() if r < 0.3 else ('union', g.location(), g.location()) if r < 0.55 else ('abs', rng.choice(['/', '//']), g.rel()) if r < 0.7 else g.any(rng.choice([1, 2, 3]))
            exprs.append(X.text(x, rng))
        exprs += rng.choice([['//node()/..', '/|*/..'], ['//a|//b'], ['/ancestor-or-self::node()|/'], ["//*[. = 'x' or @i]"], ['count(//*/ancestor::node())'], []])
        paths, nodes = {}, []
        for k, t in enumerate(trees):
            stack = [(t, (k,))]
            while stack:
                n, p = stack.pop()
                paths[id(n)] = p
                nodes.append(n)
                if isinstance(n, self.tree.element): stack.extend((c, p + (j,)) for j, c in enumerate(n.xml_children))
        pool = dict(docs=docs, exprs=exprs, parsed={s: self.uxpath.parse(s) for s in exprs}, trees=trees, nodes=nodes, paths=paths, vars={'n': 1, 's': 'x'}, focus=None, sub=rng.random())
        # Some do much of the same kind on different things
        if rng.random() < 0.35: pool['focus'] = rng.choice([0.02, 0.18, 0.27, 0.35, 0.43, 0.44, 0.51, 0.51, 0.51, 0.6, 0.7, 0.78, 0.87])
        self.stats.count('focused', pool['focus'] is not None)
        # Often several threads do the same or similar
        calls = [self.call(rng, pool) for _ in range(rng.choice([1, 2, 4, 8]))]
        nthreads = rng.choice([2, 2, 3, 5])
        plan = []
        for _ in range(nthreads):
            style = rng.random()
            if pool['focus'] is not None: mine = [self.call(rng, pool) for _ in range(rng.choice([2, 4, 8]))]
            elif style < 0.5: mine = list(calls)
            elif style < 0.75: mine = rng.sample(calls, len(calls))
            else: mine = [self.call(rng, pool) for _ in range(rng.choice([1, 2, 4]))]
            plan.append(mine)
        # What they give alone may come first, or after, so that the threads find nothing prepared
        cold = rng.random() < 0.5
        alone = lambda: [[self.outcome(f) for _, _, f in mine] for mine in plan]
        before = None if cold else alone()
        self.stats.count('cold', cold)
        shots = [snapshot(t, self.tree) for t in trees]
        def thread(mine): return lambda: [self.outcome(f) for _, _, f in mine]
        funcs = [thread(mine) for mine in plan]
        if kind == 'controlled':
            s = Scheduler(rng, funcs, rng.choice([1, 3, 10, 40, 150]))
            results = s.run(self.wanted)
            trace, switches = s.trace, s.switches
            self.stats.count('switches', switches)
            self.stats.count('lines', s.steps)
            self.stats.count('lock_waits', s.waits)
            if s.stolen: self.stats.count('tokens_taken', s.stolen)
        else:
            if kind == 'free': 
                funcs = [(lambda mine: lambda: [[self.outcome(f) for _, _, f in mine] for _ in range(15)])(mine) for mine in plan]
            results, trace = free_run(rng, funcs, self.wanted, kind == 'preemptive')
            switches = len(trace)
            self.stats.count('preemptive_switches', switches)
            if kind == 'free':
                if cold: before = alone()
                for mine, got in zip(plan, results):
                    if got is None: raise Violation('a thread failed')
                results = [next((g for g in got if g != b), got[-1]) for got, b in zip(results, before)]
        if before is None: before = alone()
        def detail(i, j, got, want): return dict(thread=i, call=plan[i][j][:2], got=repr(got)[:700], alone=repr(want)[:700], threads=[[m[0] for m in mine] for mine in plan], schedule=trace[-25:])
        for i, mine in enumerate(plan):
            if results[i] is None: raise Violation('thread %d came to an end without results' % i, threads=[[m[:2] for m in mine] for mine in plan], schedule=trace[-25:])
            for j, (k, what, f) in enumerate(mine):
                self.stats.count('calls')
                self.stats.count('call_' + k)
                if before[i][j][0] == 'raises': self.stats.count('failing_calls')
                if results[i][j] != before[i][j]: raise Violation('%s gave something else than alone, among %d threads' % (k, nthreads), **detail(i, j, results[i][j], before[i][j]))
        if [snapshot(t, self.tree) for t in trees] != shots: raise Violation('shared tree changed', threads=[[m[:2] for m in mine] for mine in plan], schedule=trace[-25:])
        if rng.random() < 0.3:
            for i, mine in enumerate(plan):
                for j, (k, what, f) in enumerate(mine):
                    got = self.outcome(f)
                    if got != before[i][j]: raise Violation('%s gives something else after the threads than before' % k, **detail(i, j, got, before[i][j]))
        self.stats.see('interleavings', trace)
        self.stats.case((trace, [[m[0] for m in mine] for mine in plan]), switches >= 3)
        if index < 2: self.stats.sample([kind, [[m[0] for m in mine] for mine in plan], switches, trace[:5]])
