"""P20: isxml is memory safe and right on any bytes"""
import codecs, itertools, os, pickle, shutil, struct, subprocess, sys, sysconfig, tempfile, atexit
from vlib import common, gen
from vlib.common import BaseCheck, Violation, Inconclusive, VERIF

SURE = {bytes.fromhex(h) for h in ('3C3F786D', '003C003F', '3C003F00', '4C6FA794', '0000003C', '3C000000', '00003C00', '003C0000')}
BOM32 = {bytes.fromhex(h) for h in ('0000FEFF', 'FFFE0000', '0000FFFE', 'FEFF0000')}
WS = '\t\n\r '


def reference(b):
    enc = 'utf-8'
    if len(b) >= 4:
        if b[:4] in SURE: return True
        if b[:4] in BOM32: enc = 'utf-32'
        elif b[:3] == b'\xef\xbb\xbf': b = b[3:]
        elif b[:2] in (b'\xfe\xff', b'\xff\xfe'): enc = 'utf-16'
    try: s = b.decode(enc)
    except UnicodeDecodeError: return False
    return s.lstrip(WS)[:1] == '<'


# Bytes which mean something, & those next to them
NEAR = sorted(SURE | BOM32 | {b'\xef\xbb\xbf<', b'\xef\xbb\xbf ', b'\xfe\xff\x00<', b'\xff\xfe<\x00', b'<a/>', b' <a>', b'\n\t <'})
ALPHABET = bytes([0x00, 0x09, 0x0A, 0x0B, 0x0C, 0x0D, 0x1F, 0x20, 0x21, 0x3B, 0x3C, 0x3D, 0x3F, 0x4C, 0x6D, 0x6F, 0x78, 0x80, 0x85, 0x94, 0xA0, 0xA7, 0xBB, 0xBF, 0xC0, 0xC2, 0xE3, 0xEF, 0xF0, 0xFE, 0xFF])
FOUR = bytes([0x00, 0x09, 0x20, 0x3C, 0x3F, 0x4C, 0x6D, 0x6F, 0x78, 0x94, 0xA7, 0xBB, 0xBF, 0xEF, 0xFE, 0xFF])
FIVE = bytes([0x00, 0x20, 0x3C, 0x3F, 0xBB, 0xBF, 0xEF, 0xFE, 0xFF])
HOW = ['bytes', 'exact', 'end']


class Check(BaseCheck):
    id = 'P20'
    technique = 'AddressSanitizer & UndefinedBehaviorSanitizer build of the module in a real interpreter, differential against a reference, allocation census'
    level_note = 'The module is built from the working tree with gcc -fsanitize=address,undefined and uninitialized variables poisoned, and called in an interpreter with malloc for all memory; input in bytes objects & in memory with red zones right before or after. All strings of up to 3 (4, 5) bytes over alphabets of 31 (16, 9) telling bytes; longer ones are sampled.'
    rule = ('short: every string of 0-3 bytes over 31 bytes, 4 over 16 and 5 over 9 (6 in the thorough tier), each in one of three ways. random: byte order marks (right, wrong, cut) by encodings by leading whitespace (up to 1 MB) & look-alike characters by markup or text, truncated or corrupted, some long & flawed far on. '
            'signature: each byte of each of 19 signatures replaced by each of 256. growth: bytes allocated over repeated calls. Other arguments, and the module being loaded & freed repeatedly. Distinct by input.')
    CHUNK = 800
    SHORT = [(ALPHABET, 0), (ALPHABET, 1), (ALPHABET, 2), (ALPHABET, 3), (FOUR, 4), (FIVE, 5)]
    quick = {'signature': 4 * len(NEAR), 'short': -(-sum(len(a) ** n for a, n in SHORT) // CHUNK), 'random': 400, 'growth': 120, 'other': 8}
    boost = 2
    thorough = {'signature': 100 * len(NEAR), 'short': -(-(sum(len(a) ** n for a, n in SHORT) + 9 ** 6) // CHUNK), 'random': 12000, 'growth': 3000, 'other': 40}
    required = {'near_signatures': 70000, 'very_long': 500, 'inputs': 180000, 'is_xml': 8000, 'not_xml': 100000, 'red_zone_calls': 100000, 'undecodable': 20000, 'growth_measured': 1500, 'utf16': 3000, 'utf32': 2000, 'long': 300, 'loads': 100}
    assumptions = ['the reference decodes with the codecs of the same interpreter', 'errors within the interpreter itself are out of scope']
    rlimit_mb = None
    case_cpu_s = None

    def setup(self):
        clib = os.path.join(common.REPO, 'clib')
        self.dir = tempfile.mkdtemp(prefix='verif-p20-')
        parent = os.getpid()
        atexit.register(lambda: os.getpid() == parent and shutil.rmtree(self.dir, ignore_errors=True))
        self.so = os.path.join(self.dir, 'cxmlstring.so')
        cmd = ['gcc', '-shared', '-fPIC', '-g', '-O1', '-fno-omit-frame-pointer', '-fsanitize=address,undefined', '-fno-sanitize-recover=all', '-ftrivial-auto-var-init=pattern', '-w',
               '-I' + clib, '-I' + sysconfig.get_paths()['include'], os.path.join(clib, 'xmlstring.c'), '-o', self.so]
        p = subprocess.run(cmd, capture_output=True, text=True)
        if p.returncode: raise Inconclusive('cannot build the module: ' + p.stderr[-2000:])
        self.libasan = subprocess.run(['gcc', '-print-file-name=libasan.so'], capture_output=True, text=True).stdout.strip()
        self.libasan = os.path.realpath(self.libasan)
        self.proc = None

    def worker_setup(self):
        self.env = dict(os.environ, LD_PRELOAD=self.libasan, PYTHONMALLOC='malloc', PYTHONDONTWRITEBYTECODE='1',
                        ASAN_OPTIONS='detect_leaks=0:abort_on_error=0:exitcode=77:allocator_may_return_null=1', UBSAN_OPTIONS='print_stacktrace=1:halt_on_error=1:exitcode=78')
        self.start()

    def start(self):
        self.err = tempfile.TemporaryFile()
        self.proc = subprocess.Popen([sys.executable, '-B', '-I', os.path.join(VERIF, 'vlib', 'isxml_driver.py'), self.so], stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=self.err, env=self.env)

    def ask(self, op, items):
        data = pickle.dumps((op, items))
        try:
            self.proc.stdin.write(struct.pack('<I', len(data)) + data)
            self.proc.stdin.flush()
            head = self.proc.stdout.read(4)
            if len(head) == 4: return pickle.loads(self.proc.stdout.read(struct.unpack('<I', head)[0]))
        except BrokenPipeError: pass
        self.proc.stdin.close(); self.proc.stdout.close()
        status = self.proc.wait()
        self.err.seek(0)
        report = self.err.read().decode('utf-8', 'replace')
        self.proc = None
        return status, report

    def died(self, op, items, got):
        """The driver died. Which of the items did it? Always raises"""
        status, report = got
        if isinstance(items, list) and len(items) > 1:
            # Halve
            lo = items
            while len(lo) > 1:
                half = lo[:len(lo) // 2]
                self.start()
                if isinstance(self.ask(op, half), tuple): lo = half
                else:
                    self.stop()
                    lo = lo[len(lo) // 2:]
            self.start()
            r = self.ask(op, lo)
            if isinstance(r, tuple): items, (status, report) = lo, r
            else:
                self.stop()
        raise Violation('isxml: interpreter ended with status %s%s' % (status, '' if 'Sanitizer' not in report and 'runtime error' not in report else ', reported by the sanitizer'), report=report[:3000], input=repr(items)[:1500])

    def stop(self):
        self.proc.stdin.close()
        self.proc.wait()

    def judge(self, items):
        got = self.ask('call', items)
        if isinstance(got, tuple): self.died('call', items, got)
        for (how, b), r in zip(items, got):
            want = reference(b)
            if how != 'bytes' and isinstance(r, str) and r.startswith('raises TypeError'):
                self.stats.count('only_bytes_taken')
                continue
            if r is not want: raise Violation('isxml(%s): %s rather than %s' % (repr(b[:60]) + ('...' if len(b) > 60 else ''), r, want), input=b[:400], length=len(b), how=how)
            self.stats.count('inputs')
            self.stats.count('is_xml' if want else 'not_xml')
            if how != 'bytes': self.stats.count('red_zone_calls')
            if len(b) > 1000: self.stats.count('long')
            if not want:
                try: b.decode('utf-8')
                except UnicodeDecodeError: self.stats.count('undecodable')
            self.stats.case(b, len(b) > 0)

    def short(self, index):
        plan = self.SHORT + ([(FIVE, 6)] if self.tier == 'thorough' else [])
        lo, hi = index * self.CHUNK, (index + 1) * self.CHUNK
        out, at = [], 0
        for alphabet, n in plan:
            size = len(alphabet) ** n
            for k in range(max(lo, at), min(hi, at + size)):
                j, s = k - at, []
                for _ in range(n):
                    s.append(alphabet[j % len(alphabet)])
                    j //= len(alphabet)
                out.append((HOW[k % 3], bytes(s)))
            at += size
        return out

    def random_input(self, rng):
        enc = rng.choice(['utf-8', 'utf-8', 'utf-8', 'utf-16-le', 'utf-16-be', 'utf-32-le', 'utf-32-be', 'latin-1', 'cp037', 'utf-7'])
        r = rng.random()
        lead = ''
        if r < 0.3: lead = ''.join(rng.choice(' \t\r\n') for _ in range(rng.choice([1, 2, 3, 7, 30])))
        elif r < 0.36: lead = rng.choice(' \n\t') * rng.choice([100, 1000, 4095, 4096, 65537, 1 << 20])
        if rng.random() < 0.15: lead += rng.choice(['\x0b', '\x0c', '\x85', '\xa0', '\u2028', '\u3000', '\ufeff', '\x00', '\x1f', '!', '\u1680', '\x1c'])
        body = rng.choice(['<?xml version="1.0"?><a/>', '<a/>', '<', '<!DOCTYPE html>', 'x<a/>', '', '>', '&lt;', '\uff1c', '\u3c00', '\u013c', '\U0001003c', '{"a": 1}', 'é<', '<é/>', '<a>\U0001f600</a>', '=', ';', '<?', '?xml', '-<', '&#60;'])
        long = rng.random() < 0.06
        if long: body += '<a>' + ''.join(rng.choice(['x', 'y ', '\n', 'é', '\u20ac', '\U0001f600', '<b/>'][:rng.choice([3, 4, 7])]) for _ in range(50)) * gen.log_int(rng, 1, 3000)
        try: b = (lead + body).encode(enc)
        except UnicodeEncodeError: b = (lead + body).encode('utf-8')
        r = rng.random()
        right = {'utf-8': codecs.BOM_UTF8, 'utf-16-le': codecs.BOM_UTF16_LE, 'utf-16-be': codecs.BOM_UTF16_BE, 'utf-32-le': codecs.BOM_UTF32_LE, 'utf-32-be': codecs.BOM_UTF32_BE}.get(enc, b'')
        if r < 0.5: b = right + b
        elif r < 0.6: b = rng.choice([codecs.BOM_UTF8, codecs.BOM_UTF16_LE, codecs.BOM_UTF16_BE, codecs.BOM_UTF32_LE, codecs.BOM_UTF32_BE, b'\x00\x00\xff\xfe', b'\xfe\xff\x00\x00']) + b
        elif r < 0.63: b = right + right + b
        r = rng.random()
        if r < 0.12: b = b[:rng.randint(0, min(len(b), 12))]
        elif r < 0.2: b = b[:-rng.randint(1, 3)]
        elif r < 0.3 and b:
            i = rng.randrange(min(len(b), 8))
            b = b[:i] + bytes([rng.randrange(256)]) + b[i + 1:]
        elif r < 0.36: b = b + rng.choice([b'\xff', b'\xc3', b'\x80', b'\xed\xa0\x80', b'\xf4\x90\x80\x80', b'\xc0\xbc', b'\xd8', b'\x00'])
        elif r < 0.4: b = bytes(rng.randrange(256) for _ in range(rng.randint(0, 12)))
        if long and rng.random() < 0.4:
            # A flaw far on
            i = rng.randrange(len(b) + 1) if rng.random() < 0.7 else len(b)
            b = b[:i] + rng.choice([b'\xff', b'\xc3', b'\x80', b'\xed\xa0\x80', b'\xd8', b'\xf8\x88\x80\x80\x80', b'x']) + b[i:]
        if len(b) > 20000: self.stats.count('very_long')
        if b[:2] in (b'\xfe\xff', b'\xff\xfe') and b[:4] not in BOM32: self.stats.count('utf16')
        if b[:4] in BOM32: self.stats.count('utf32')
        return b

    def run_case(self, kind, index, rng):
        if self.proc is None: self.start()
        if kind == 'short': return self.judge(self.short(index))
        if kind == 'random': return self.judge([(rng.choice(HOW), self.random_input(rng)) for _ in range(150)])
        if kind == 'signature':
            # Next of kin of what is recognized by its first bytes: any byte in the place of each, and with something after
            sig = NEAR[index // 4 % len(NEAR)]
            i = index % 4
            out = []
            for c in range(256):
                b = sig[:i] + bytes([c]) + sig[i + 1:]
                for tail in (b'', b'<a/>' if c % 2 else b'x', rng.choice([b'<', b' <', b'\x00<', b'<\x00', b'\xff', b'a', b'\n\n<?xml', b'\x80<a>', b'l version="1.0"?><a/>', b'\x00\x00\x00<\x00\x00\x00a'])):
                    out.append((rng.choice(HOW), b + tail))
            for c in range(256):
                j = rng.randrange(4)
                b = bytearray(sig)
                b[i], b[j] = c, rng.choice([0, c, 0x3C, 0xFF, rng.randrange(256)])
                out.append((rng.choice(HOW), bytes(b) + rng.choice([b'', b'<', b'a', b'\x00<'])))
            self.stats.count('near_signatures', len(out))
            return self.judge(out)
        if kind == 'growth':
            items = [self.random_input(rng) for _ in range(20)]
            items = [b if len(b) < 100000 else b[-3000:] for b in items]
            got = self.ask('growth', items)
            if isinstance(got, tuple): self.died('growth', items, got)
            for b, g in zip(items, got):
                self.stats.count('growth_measured')
                if g >= 1: raise Violation('%.1f bytes leaked with each call' % g, input=b[:400], length=len(b))
            return
        n = 20
        got = self.ask('module', n)
        if isinstance(got, tuple): self.died('module', n, got)
        if got is not True: raise Violation('isxml after the module was loaded again: %r' % got)
        self.stats.count('loads', n)
        items = ['<a/>', None, 5, ['<'], 1.5, {}, '']
        got = self.ask('other', items)
        if isinstance(got, tuple): self.died('other', items, got)
        for x, r in zip(items, got):
            self.stats.count('other_arguments')
            if str(r).startswith('raises SystemError'): raise Violation('isxml(%r): %s' % (x, r))
