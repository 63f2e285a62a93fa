"""
Independent recognizer of (the supported subset of) MicroXML, used as oracle for strings of unknown validity.

read(text) -> (verdict, events)
  'accept'  well formed: must be parsed to just these events
  'reject'  must be rejected; events are those of all constructs ahead of the offending one
  'either'  departs from the specification in ways the property says nothing about (white space after < or </,
            missing between attributes; noncharacters in names): if parsed, then to these events
"""
from .gen import is_char, is_namestart, is_namechar, is_noncharacter_plane_end

WS = ' \t\r\n'
NAMED = {'lt': '<', 'gt': '>', 'amp': '&', 'quot': '"', 'apos': "'"}
HEX = '0123456789abcdefABCDEF'


class Bad(Exception):
    pass


class Reader:
    def __init__(self, text):
        self.s = text
        self.i = 0
        self.lenient = False
        self.events = []
        self.positions = []     # for each event the length of the least prefix of the text with all of its construct

    def peek(self):
        if self.i >= len(self.s):
            raise Bad('end')
        return self.s[self.i]

    def skip_ws(self):
        j = self.i
        while self.i < len(self.s) and self.s[self.i] in WS:
            self.i += 1
        return self.i > j

    def name(self):
        c = self.peek()
        if not is_namestart(c):
            if is_noncharacter_plane_end(c) and ord(c) < 0xF0000:
                self.lenient = True
            else:
                raise Bad('name')
        j = self.i
        self.i += 1
        while True:
            c = self.peek()
            if is_namechar(c):
                self.i += 1
            elif is_noncharacter_plane_end(c) and ord(c) < 0xF0000:
                self.lenient = True
                self.i += 1
            else:
                return self.s[j:self.i]

    def reference(self):
        # At &
        self.i += 1
        if self.peek() == '#':
            self.i += 1
            if self.peek() != 'x':
                raise Bad('decimal')
            self.i += 1
            digits = ''
            while self.peek() in HEX:
                digits += self.peek()
                self.i += 1
            if self.peek() != ';' or not digits:
                raise Bad('hex')
            self.i += 1
            cp = int(digits, 16)
            if cp > 0x10FFFF or not is_char(chr(cp)):
                raise Bad('char')
            return chr(cp)
        n = ''
        while self.peek() != ';':
            c = self.peek()
            if not c.isascii() or not c.isalnum():
                raise Bad('ref')
            n += c
            self.i += 1
        self.i += 1
        if n not in NAMED:
            raise Bad('ref')
        return NAMED[n]

    def chars(self, stop):
        out = []
        while True:
            c = self.peek()
            if c in stop:
                return ''.join(out)
            if c == '&':
                out.append(self.reference())
            elif c == '\r':
                self.i += 1
                if self.peek() == '\n':
                    self.i += 1
                out.append('\n')
            elif c in '<>' or not is_char(c):
                raise Bad('illegal')
            else:
                out.append(c)
                self.i += 1

    def document(self):
        if self.s[:1] == '\ufeff':
            self.i = 1
        self.skip_ws()
        open_ = []
        if self.peek() != '<':
            raise Bad('start')
        while True:
            # At <
            self.i += 1
            self.lenient |= self.skip_ws()
            if self.peek() == '/':
                self.i += 1
                self.lenient |= self.skip_ws()
                n = self.name()
                self.skip_ws()
                if self.peek() != '>':
                    raise Bad('end tag')
                if not open_ or open_[-1] != n:
                    raise Bad('mismatch')
                self.i += 1
                open_.pop()
                self.events.append(('e', n, list(open_)))
                self.positions.append(self.i)
            else:
                n = self.name()
                attrs, seen = [], set()
                while True:
                    sep = self.skip_ws()
                    c = self.peek()
                    if c == '>':
                        self.i += 1
                        break
                    a = self.name()
                    self.skip_ws()
                    if self.peek() != '=':
                        raise Bad('=')
                    self.i += 1
                    self.skip_ws()
                    q = self.peek()
                    if q not in '"\'':
                        raise Bad('quote')
                    self.i += 1
                    v = self.chars(q)
                    self.i += 1
                    if a in seen:
                        raise Bad('duplicate')
                    seen.add(a)
                    attrs.append((a, v))
                    if not sep:
                        self.lenient = True
                self.events.append(('s', n, attrs, list(open_)))
                self.positions.append(self.i)
                open_.append(n)
            if not open_:
                break
            t = self.chars('<')
            if t:
                self.events.append(('c', t))
                self.positions.append(self.i + 1)
        self.skip_ws()
        if self.i < len(self.s):
            raise Bad('junk')


def read(text):
    r = Reader(text)
    try:
        r.document()
    except Bad as e:
        return 'reject', r.events
    return ('either' if r.lenient else 'accept'), r.events


def read_positions(text):
    r = Reader(text)
    try:
        r.document()
    except Bad as e:
        return 'reject', r.events, r.positions
    return ('either' if r.lenient else 'accept'), r.events, r.positions
