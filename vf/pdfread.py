"""An independent, strict PDF reader: the observation layer of every monitor.

It shares no code with pdfme.  `Reader` follows startxref -> xref -> objects the
way a viewer does and raises `PdfError` on anything malformed; `Page.items`
interprets the content stream and yields what a viewer would paint."""
import re
import zlib


class PdfError(Exception):
    """The file is malformed (the message says where)."""


class Name(str):
    __slots__ = ()

    def __repr__(self):
        return '/' + str(self)


class PStr(bytes):
    """A PDF string object (bytes after unescaping)."""
    __slots__ = ()

    @property
    def text(self):
        return self.decode('latin-1')


class Ref(tuple):
    __slots__ = ()

    def __new__(cls, n, g):
        return tuple.__new__(cls, (n, g))

    def __repr__(self):
        return '%d %d R' % self


class Op(str):
    __slots__ = ()


class Stream:
    def __init__(self, d, raw):
        self.d = d
        self.raw = raw

    def get(self, k, default=None):
        return self.d.get(k, default)

    def data(self):
        f = self.d.get('Filter')
        if f is None:
            return self.raw
        if f == 'FlateDecode' or f == ['FlateDecode']:
            o = zlib.decompressobj()
            try:
                out = o.decompress(self.raw) + o.flush()
            except zlib.error as e:
                raise PdfError('flate stream does not decode: %s' % e)
            if not o.eof:
                raise PdfError('flate stream truncated')
            if o.unused_data:
                raise PdfError('garbage after flate stream')
            return out
        return self.raw


WS = b'\x00\t\n\x0c\r '
DELIM = b'()<>[]{}/%'
NUM = re.compile(rb'[+-]?(?:\d+\.?\d*|\.\d+)\Z')
REGULAR_END = re.compile(rb'[\x00\t\n\x0c\r ()<>\[\]{}/%]')
ESC = {0x6e: b'\n', 0x72: b'\r', 0x74: b'\t', 0x62: b'\b', 0x66: b'\f',
       0x28: b'(', 0x29: b')', 0x5c: b'\\'}


class Lexer:
    def __init__(self, buf, pos=0, end=None, content=False):
        self.b = buf
        self.p = pos
        self.end = len(buf) if end is None else end
        self.content = content      # content stream: operators allowed, no refs

    def err(self, msg):
        lo = max(0, self.p - 30)
        raise PdfError('%s at byte %d near %r' % (msg, self.p, self.b[lo:self.p + 30]))

    def skip(self):
        b, p, end = self.b, self.p, self.end
        while p < end:
            c = b[p]
            if c in WS:
                p += 1
            elif c == 0x25:
                while p < end and b[p] not in b'\r\n':
                    p += 1
            else:
                break
        self.p = p

    def regular(self):
        m = REGULAR_END.search(self.b, self.p, self.end)
        e = m.start() if m else self.end
        tok = self.b[self.p:e]
        self.p = e
        return tok

    def literal(self):
        b = self.b
        p = self.p + 1
        depth = 1
        out = bytearray()
        while True:
            if p >= self.end:
                self.err('unterminated string')
            c = b[p]
            if c == 0x5c:
                p += 1
                if p >= self.end:
                    self.err('unterminated string')
                c = b[p]
                if c in ESC:
                    out += ESC[c]
                    p += 1
                elif 0x30 <= c <= 0x37:
                    n = 0
                    k = 0
                    while k < 3 and p < self.end and 0x30 <= b[p] <= 0x37:
                        n = n * 8 + b[p] - 0x30
                        p += 1
                        k += 1
                    out.append(n & 255)
                elif c == 0x0d:
                    p += 1
                    if p < self.end and b[p] == 0x0a:
                        p += 1
                elif c == 0x0a:
                    p += 1
                else:
                    out.append(c)
                    p += 1
            elif c == 0x28:
                depth += 1
                out.append(c)
                p += 1
            elif c == 0x29:
                depth -= 1
                p += 1
                if depth == 0:
                    break
                out.append(c)
            elif c == 0x0d:
                out.append(0x0a)
                p += 1
                if p < self.end and b[p] == 0x0a:
                    p += 1
            else:
                out.append(c)
                p += 1
        self.p = p
        return PStr(bytes(out))

    def name(self):
        self.p += 1
        tok = self.regular()
        out = bytearray()
        i = 0
        while i < len(tok):
            if tok[i] == 0x23:
                h = tok[i + 1:i + 3]
                try:
                    out.append(int(h, 16))
                except ValueError:
                    self.err('bad # escape in name')
                i += 3
            else:
                if not 0x21 <= tok[i] <= 0xff:
                    self.err('bad byte in name')
                out.append(tok[i])
                i += 1
        return Name(bytes(out).decode('latin-1'))

    def obj(self):
        """Next object, or Op in content streams / for closing keywords."""
        self.skip()
        if self.p >= self.end:
            return None
        b = self.b
        c = b[self.p]
        if c == 0x28:
            return self.literal()
        if c == 0x2f:
            return self.name()
        if c == 0x3c:
            if b[self.p + 1:self.p + 2] == b'<':
                self.p += 2
                d = {}
                while True:
                    self.skip()
                    if b[self.p:self.p + 2] == b'>>':
                        self.p += 2
                        return d
                    if self.p >= self.end:
                        self.err('unterminated dictionary')
                    if b[self.p] != 0x2f:
                        self.err('dictionary key is not a name')
                    k = self.name()
                    if k in d:
                        self.err('duplicate dictionary key /%s' % k)
                    v = self.obj()
                    if v is None and not self.was_null or isinstance(v, Op):
                        self.err('bad dictionary value')
                    d[k] = v
            e = b.find(b'>', self.p, self.end)
            if e < 0:
                self.err('unterminated hex string')
            h = bytes(x for x in b[self.p + 1:e] if x not in WS)
            self.p = e + 1
            try:
                return PStr(bytes.fromhex((h + b'0' * (len(h) % 2)).decode('ascii')))
            except (ValueError, UnicodeDecodeError):
                self.err('bad hex string')
        if c == 0x5b:
            self.p += 1
            a = []
            while True:
                self.skip()
                if self.p >= self.end:
                    self.err('unterminated array')
                if b[self.p] == 0x5d:
                    self.p += 1
                    return a
                v = self.obj()
                if v is None and not self.was_null or isinstance(v, Op):
                    self.err('bad array element %r' % (v,))
                a.append(v)
        if c in DELIM:
            self.err('unexpected delimiter %r' % chr(c))
        tok = self.regular()
        if NUM.match(tok):
            v = float(tok) if b'.' in tok else int(tok)
            if not self.content and type(v) is int and v >= 0 and tok.isdigit():
                m = re.compile(rb'[\x00\t\n\x0c\r ]+(\d+)[\x00\t\n\x0c\r ]+R(?![^\x00\t\n\x0c\r ()<>\[\]{}/%])').match(self.b, self.p, self.end)
                if m:
                    self.p = m.end()
                    return Ref(v, int(m.group(1)))
            return v
        self.was_null = False
        if tok == b'true':
            return True
        if tok == b'false':
            return False
        if tok == b'null':
            self.was_null = True
            return None
        if not self.content and tok not in (b'endobj', b'stream', b'endstream', b'obj', b'xref', b'trailer', b'startxref'):
            self.err('unexpected token %r' % tok)
        return Op(tok.decode('latin-1'))

    was_null = False


# operator -> operand spec: n=number s=string N=name a=array d=dict *=any
OPS = {
    'q': '', 'Q': '', 'cm': 'nnnnnn', 'w': 'n', 'J': 'n', 'j': 'n', 'M': 'n',
    'd': 'an', 'ri': 'N', 'i': 'n', 'gs': 'N', 'm': 'nn', 'l': 'nn',
    'c': 'nnnnnn', 'v': 'nnnn', 'y': 'nnnn', 'h': '', 're': 'nnnn',
    'S': '', 's': '', 'f': '', 'F': '', 'f*': '', 'B': '', 'B*': '', 'b': '',
    'b*': '', 'n': '', 'W': '', 'W*': '', 'BT': '', 'ET': '', 'Tc': 'n',
    'Tw': 'n', 'Tz': 'n', 'TL': 'n', 'Tf': 'Nn', 'Tr': 'n', 'Ts': 'n',
    'Td': 'nn', 'TD': 'nn', 'Tm': 'nnnnnn', 'T*': '', 'Tj': 's', 'TJ': 'a',
    "'": 's', '"': 'nns', 'CS': 'N', 'cs': 'N', 'SC': '*', 'SCN': '*',
    'sc': '*', 'scn': '*', 'G': 'n', 'g': 'n', 'RG': 'nnn', 'rg': 'nnn',
    'K': 'nnnn', 'k': 'nnnn', 'Do': 'N', 'BMC': 'N', 'EMC': '', 'BDC': 'N*',
    'MP': 'N', 'DP': 'N*',
}
TEXT_SHOW = ('Tj', 'TJ', "'", '"')
IN_TEXT_OK = {'Tc', 'Tw', 'Tz', 'TL', 'Tf', 'Tr', 'Ts', 'Td', 'TD', 'Tm', 'T*',
              'Tj', 'TJ', "'", '"', 'w', 'J', 'j', 'M', 'd', 'ri', 'i', 'gs',
              'CS', 'cs', 'SC', 'SCN', 'sc', 'scn', 'G', 'g', 'RG', 'rg', 'K',
              'k', 'BMC', 'EMC', 'BDC', 'MP', 'DP', 'ET'}


def mul(a, b):
    return (a[0] * b[0] + a[1] * b[2], a[0] * b[1] + a[1] * b[3],
            a[2] * b[0] + a[3] * b[2], a[2] * b[1] + a[3] * b[3],
            a[4] * b[0] + a[5] * b[2] + b[4], a[4] * b[1] + a[5] * b[3] + b[5])


def apply(m, x, y):
    return m[0] * x + m[2] * y + m[4], m[1] * x + m[3] * y + m[5]


class Item:
    """One painted thing. kind in text/fill/line/image."""
    def __init__(self, kind, seq, **kw):
        self.kind = kind
        self.seq = seq
        self.__dict__.update(kw)

    def __repr__(self):
        return 'Item(%s)' % ', '.join('%s=%r' % kv for kv in self.__dict__.items() if kv[0] != 'font')


class Font:
    def __init__(self, reader, d, metrics):
        self.d = d
        self.base = str(d.get('BaseFont', ''))
        self.subtype = d.get('Subtype')
        self.type0 = self.subtype == 'Type0'
        self.encoding = d.get('Encoding')
        self.family_mode = self.base
        if self.type0:
            desc = reader.res(d.get('DescendantFonts'))
            if not isinstance(desc, list) or len(desc) != 1:
                raise PdfError('Type0 font needs exactly one descendant')
            self.cid = reader.res(desc[0])
            self.dw = self.cid.get('DW', 1000)
            self.w = {}
            self.w_conflicts = []
            W = reader.res(self.cid.get('W', []))
            i = 0
            while i < len(W):
                if i + 1 >= len(W):
                    raise PdfError('truncated W array')
                nxt = reader.res(W[i + 1])
                if isinstance(nxt, list):
                    for k, wd in enumerate(nxt):
                        self._setw(W[i] + k, wd)
                    i += 2
                else:
                    for k in range(W[i], nxt + 1):
                        self._setw(k, W[i + 2])
                    i += 3
            self.tounicode = {}
            self.tounicode_all = {}
            tu = reader.res(d.get('ToUnicode'))
            if isinstance(tu, Stream):
                self._cmap(tu.data())
        else:
            self.widths = metrics.get(self.base)

    def _setw(self, cid, w):
        if cid in self.w and abs(self.w[cid] - w) > 1e-6:
            self.w_conflicts.append((cid, self.w[cid], w))
        self.w[cid] = w

    def _cmap(self, data):
        s = data.decode('latin-1')
        for blk in re.findall(r'beginbfchar(.*?)endbfchar', s, re.S):
            for a, b in re.findall(r'<([0-9A-Fa-f\s]+)>\s*<([0-9A-Fa-f\s]+)>', blk):
                k = int(a, 16)
                h = bytes.fromhex(b) if len(b) % 2 == 0 else b''
                v = h.decode('utf-16-be', 'replace')
                self.tounicode[k] = v
                self.tounicode_all.setdefault(k, set()).add(v)
        for blk in re.findall(r'beginbfrange(.*?)endbfrange', s, re.S):
            for a, b, c in re.findall(r'<(\w+)>\s*<(\w+)>\s*<(\w+)>', blk):
                for n, k in enumerate(range(int(a, 16), int(b, 16) + 1)):
                    v = chr(int(c, 16) + n)
                    self.tounicode[k] = v
                    self.tounicode_all.setdefault(k, set()).add(v)

    def codes(self, s):
        if self.type0:
            if len(s) % 2:
                raise PdfError('odd number of bytes in a two-byte font string')
            return [(s[i] << 8) | s[i + 1] for i in range(0, len(s), 2)]
        return list(s)

    def width(self, code):
        if self.type0:
            return self.w.get(code, self.dw) / 1000
        if self.widths is None:
            return 0
        return self.widths[code] / 1000

    def char(self, code):
        if self.type0:
            return self.tounicode.get(code, '\ufffd')
        return chr(code)


class Page:
    def __init__(self, reader, ref, d, index):
        self.reader = reader
        self.ref = ref
        self.d = d
        self.index = index
        self._items = None

    def inherited(self, key):
        d = self.d
        seen = 0
        while d is not None and seen < 60:
            if key in d:
                return self.reader.res(d[key])
            d = self.reader.res(d.get('Parent'))
            seen += 1
        return None

    @property
    def mediabox(self):
        mb = self.inherited('MediaBox')
        return [self.reader.res(v) for v in mb]

    def content(self):
        c = self.reader.res(self.d.get('Contents'))
        if isinstance(c, list):
            return b'\n'.join(self.reader.res(x).data() for x in c)
        if not isinstance(c, Stream):
            raise PdfError('page %d has no content stream' % self.index)
        return c.data()

    def annots(self):
        out = []
        a = self.reader.res(self.d.get('Annots'))
        for x in a or []:
            d = dict(self.reader.res(x))
            if 'A' in d:
                d['A'] = self.reader.res(d['A'])
            out.append(d)
        return out

    @property
    def items(self):
        if self._items is None:
            self._items = self._interpret()
        return self._items

    def _interpret(self):
        rd = self.reader
        res = self.inherited('Resources') or {}
        fonts_res = rd.res(res.get('Font')) or {}
        xobj_res = rd.res(res.get('XObject')) or {}
        data = self.content()
        lx = Lexer(data, content=True)
        items = []
        args = []
        gs = dict(ctm=(1, 0, 0, 1, 0, 0), fill=(0,), stroke=(0,), lw=1, cap=0,
                  dash=((), 0), tw=0, tc=0, tz=1, tl=0, font=None, size=0,
                  rise=0, fontname=None)
        stack = []
        tm = tlm = None
        path = []
        cur = None
        seq = 0
        nops = 0
        while True:
            lx.was_null = False
            o = lx.obj()
            if o is None and not lx.was_null:
                break
            if not isinstance(o, Op):
                args.append(o)
                continue
            op = str(o)
            nops += 1
            spec = OPS.get(op)
            if spec is None:
                lx.err('unknown operator %r' % op)
            if spec != '*':
                if len(args) != len(spec):
                    lx.err('operator %s has %d operands, needs %d: %r' % (op, len(args), len(spec), args))
                for a, t in zip(args, spec):
                    ok = (t == '*' or t == 'n' and type(a) in (int, float)
                          or t == 's' and isinstance(a, PStr)
                          or t == 'N' and isinstance(a, Name)
                          or t == 'a' and isinstance(a, list))
                    if not ok:
                        lx.err('operator %s: bad operand %r' % (op, a))
            if tm is not None and op not in IN_TEXT_OK:
                lx.err('operator %s inside a text object' % op)
            a = args
            args = []
            if op == 'q':
                stack.append(dict(gs))
            elif op == 'Q':
                if not stack:
                    lx.err('Q without q')
                gs = stack.pop()
            elif op == 'cm':
                gs['ctm'] = mul(tuple(a), gs['ctm'])
            elif op == 'w':
                gs['lw'] = a[0]
            elif op == 'J':
                gs['cap'] = a[0]
            elif op == 'd':
                if not all(type(v) in (int, float) for v in a[0]):
                    lx.err('bad dash array')
                gs['dash'] = (tuple(a[0]), a[1])
            elif op in ('g', 'rg', 'k'):
                gs['fill'] = tuple(a)
            elif op in ('G', 'RG', 'K'):
                gs['stroke'] = tuple(a)
            elif op == 'm':
                cur = apply(gs['ctm'], *a)
                start = cur
            elif op == 'l':
                if cur is None:
                    lx.err('l without current point')
                p = apply(gs['ctm'], *a)
                path.append(('l', cur, p))
                cur = p
            elif op == 'h':
                if cur is None:
                    lx.err('h without current point')
                path.append(('l', cur, start))
                cur = start
            elif op in ('c', 'v', 'y'):
                cur = apply(gs['ctm'], a[-2], a[-1])
            elif op == 're':
                p = apply(gs['ctm'], a[0], a[1])
                p2 = apply(gs['ctm'], a[0] + a[2], a[1] + a[3])
                path.append(('re', p, p2, a[2], a[3]))
                cur = p
            elif op in ('S', 's', 'f', 'F', 'f*', 'B', 'B*', 'b', 'b*', 'n'):
                if op != 'n':
                    if not path:
                        lx.err('painting operator %s with an empty path' % op)
                    sub = []
                    for e in path:
                        if e[0] == 're':
                            if op in ('f', 'F', 'f*', 'B', 'B*', 'b', 'b*'):
                                x1, x2 = sorted((e[1][0], e[2][0]))
                                y1, y2 = sorted((e[1][1], e[2][1]))
                                items.append(Item('fill', seq, x1=x1, y1=y1, x2=x2, y2=y2, color=gs['fill'], w=e[3], h=e[4]))
                                seq += 1
                            if op in ('S', 's', 'B', 'B*', 'b', 'b*'):
                                c = [e[1], (e[2][0], e[1][1]), e[2], (e[1][0], e[2][1])]
                                for k in range(4):
                                    sub.append((c[k], c[(k + 1) % 4]))
                        else:
                            sub.append((e[1], e[2]))
                    if op in ('S', 's', 'B', 'B*', 'b', 'b*'):
                        for p1, p2 in sub:
                            items.append(Item('line', seq, x1=p1[0], y1=p1[1], x2=p2[0], y2=p2[1], color=gs['stroke'], width=gs['lw'], dash=gs['dash'], cap=gs['cap']))
                            seq += 1
                    elif sub:
                        xs = [p[0] for s in sub for p in s]
                        ys = [p[1] for s in sub for p in s]
                        items.append(Item('fill', seq, x1=min(xs), y1=min(ys), x2=max(xs), y2=max(ys), color=gs['fill'], w=max(xs) - min(xs), h=max(ys) - min(ys)))
                        seq += 1
                path = []
                cur = None
            elif op == 'BT':
                tm = tlm = (1, 0, 0, 1, 0, 0)
            elif op == 'ET':
                if tm is None:
                    lx.err('ET without BT')
                tm = tlm = None
            elif op == 'Tm':
                if tm is None:
                    lx.err('Tm outside text object')
                tm = tlm = tuple(a)
            elif op in ('Td', 'TD', 'T*'):
                if tm is None:
                    lx.err('%s outside text object' % op)
                if op == 'TD':
                    gs['tl'] = -a[1]
                if op == 'T*':
                    a = [0, -gs['tl']]
                tm = tlm = mul((1, 0, 0, 1, a[0], a[1]), tlm)
            elif op == 'Tf':
                if a[0] not in fonts_res:
                    lx.err('font /%s is not in the page resources' % a[0])
                gs['fontname'] = str(a[0])
                gs['font'] = rd.font(fonts_res[a[0]])
                gs['size'] = a[1]
            elif op == 'Ts':
                gs['rise'] = a[0]
            elif op == 'Tw':
                gs['tw'] = a[0]
            elif op == 'Tc':
                gs['tc'] = a[0]
            elif op == 'Tz':
                gs['tz'] = a[0] / 100
            elif op == 'TL':
                gs['tl'] = a[0]
            elif op in TEXT_SHOW:
                if tm is None:
                    lx.err('%s outside text object' % op)
                if gs['font'] is None:
                    lx.err('text shown with no font set')
                if op in ("'", '"'):
                    if op == '"':
                        gs['tw'], gs['tc'] = a[0], a[1]
                    tm = tlm = mul((1, 0, 0, 1, 0, -gs['tl']), tlm)
                f = gs['font']
                chars = []
                adv = 0.0
                parts = a[-1] if op == 'TJ' else [a[-1]]
                for part in parts:
                    if not isinstance(part, PStr):
                        adv -= part / 1000 * gs['size'] * gs['tz']
                        continue
                    for code in f.codes(part):
                        w = f.width(code) * gs['size'] + gs['tc']
                        if code == 32 and not f.type0:
                            w += gs['tw']
                        w *= gs['tz']
                        chars.append((f.char(code), adv, w, code))
                        adv += w
                m = mul(tm, gs['ctm'])
                x, y = apply(m, 0, 0)
                items.append(Item('text', seq, x=x, y=y, text=''.join(c[0] for c in chars),
                                  chars=chars, adv=adv * m[0], font=f, fontname=gs['fontname'],
                                  base=f.base, size=gs['size'], color=gs['fill'], rise=gs['rise'],
                                  tw=gs['tw'], m=m))
                seq += 1
                tm = mul((1, 0, 0, 1, adv, 0), tm)
            elif op == 'Do':
                if a[0] not in xobj_res:
                    lx.err('XObject /%s is not in the page resources' % a[0])
                ref = xobj_res[a[0]]
                ob = rd.res(ref)
                if not isinstance(ob, Stream) or ob.get('Subtype') not in ('Image', 'Form'):
                    lx.err('/%s is not an XObject' % a[0])
                m = gs['ctm']
                items.append(Item('image', seq, x=m[4], y=m[5], w=m[0], h=m[3], m=m, x1=m[4], x2=m[4] + m[0], y1=m[5], y2=m[5] + m[3], ref=ref, obj=ob, name=str(a[0])))
                seq += 1
        if args:
            lx.err('dangling operands %r' % (args,))
        if stack:
            lx.err('%d unbalanced q' % len(stack))
        if tm is not None:
            lx.err('unterminated text object')
        self.nops = nops
        return items

    def texts(self):
        return [i for i in self.items if i.kind == 'text']


class Reader:
    def __init__(self, data, metrics=None):
        if metrics is None:
            from . import metrics as _m
            metrics = _m.STD
        self.metrics = metrics
        self.data = data
        self._fonts = {}
        self._pages = None
        self.parse()

    def parse(self):
        b = self.data
        m = re.match(rb'%PDF-(\d+\.\d+)[\r\n]', b)
        if not m:
            raise PdfError('bad header %r' % b[:16])
        self.version = m.group(1).decode()
        m = re.search(rb'startxref[\r\n]+(\d+)[\r\n]+%%EOF[\r\n]*\Z', b)
        if not m:
            raise PdfError('bad end of file %r' % b[-40:])
        xp = int(m.group(1))
        m2 = re.compile(rb'xref[ \r\n]+').match(b, xp)
        if not m2:
            raise PdfError('startxref %d does not point at xref: %r' % (xp, b[xp:xp + 20]))
        p = m2.end()
        self.offsets = {}
        self.free = set()
        while True:
            h = re.compile(rb'(\d+) (\d+)[ ]?[\r\n]+').match(b, p)
            if not h:
                break
            p = h.end()
            first, n = int(h.group(1)), int(h.group(2))
            for i in range(n):
                e = re.compile(rb'(\d{10}) (\d{5}) ([nf])( \r| \n|\r\n)').match(b, p)
                if not e:
                    raise PdfError('bad xref entry %d: %r' % (first + i, b[p:p + 20]))
                if e.group(3) == b'n':
                    self.offsets[first + i] = (int(e.group(1)), int(e.group(2)))
                else:
                    self.free.add(first + i)
                p += 20
        if 0 not in self.free:
            raise PdfError('xref entry 0 is not free')
        t = re.compile(rb'[ \r\n]*trailer[ \r\n]*').match(b, p)
        if not t:
            raise PdfError('no trailer after xref: %r' % b[p:p + 20])
        lx = Lexer(b, t.end())
        self.trailer = lx.obj()
        if not isinstance(self.trailer, dict):
            raise PdfError('trailer is not a dictionary')
        t2 = re.compile(rb'[ \r\n]*startxref').match(b, lx.p)
        if not t2:
            raise PdfError('garbage after trailer')
        n = max(list(self.offsets) + list(self.free)) + 1
        if self.trailer.get('Size') != n:
            raise PdfError('trailer Size %r but the xref table covers %d' % (self.trailer.get('Size'), n))
        self.objs = {}
        for num, (off, gen) in self.offsets.items():
            self.objs[num] = self._object(num, gen, off)
        # object headers in the body that the table does not know
        for num in self.objs:
            self._check_refs(self.objs[num], 'object %d' % num)
        self._check_refs(self.trailer, 'trailer')

    def _object(self, num, gen, off):
        b = self.data
        m = re.compile(rb'(\d+) (\d+) obj(?=[\x00\t\n\x0c\r ()<>\[\]{}/%])').match(b, off)
        if not m or int(m.group(1)) != num or int(m.group(2)) != gen:
            raise PdfError('xref offset %d of object %d points at %r' % (off, num, b[off:off + 20]))
        lx = Lexer(b, m.end())
        try:
            o = lx.obj()
            if o is None and not lx.was_null or isinstance(o, Op):
                lx.err('empty object')
            lx.skip()
            if b[lx.p:lx.p + 6] == b'stream':
                if not isinstance(o, dict):
                    lx.err('stream without dictionary')
                p = lx.p + 6
                if b[p:p + 2] == b'\r\n':
                    p += 2
                elif b[p:p + 1] == b'\n':
                    p += 1
                else:
                    lx.err('stream keyword not followed by EOL')
                ln = o.get('Length')
                if type(ln) is not int or ln < 0:
                    lx.err('bad stream Length %r' % (ln,))
                raw = b[p:p + ln]
                m = re.compile(rb'(?:\r\n|\n|\r)?endstream').match(b, p + ln)
                if len(raw) != ln or not m:
                    lx.err('stream Length %d does not reach endstream' % ln)
                lx.p = m.end()
                o = Stream(o, raw)
                lx.skip()
            if not re.compile(rb'endobj(?![^\x00\t\n\x0c\r ()<>\[\]{}/%])').match(b, lx.p):
                lx.err('no endobj')
        except RecursionError:
            raise PdfError('object %d nested too deeply' % num)
        except PdfError as e:
            raise PdfError('object %d: %s' % (num, e))
        return o

    def _check_refs(self, o, where):
        st = [o]
        while st:
            o = st.pop()
            if isinstance(o, Ref):
                if o[0] not in self.offsets or self.offsets[o[0]][1] != o[1]:
                    raise PdfError('%s refers to missing object %r' % (where, o))
            elif isinstance(o, dict):
                st.extend(o.values())
            elif isinstance(o, Stream):
                st.extend(o.d.values())
            elif isinstance(o, list):
                st.extend(o)

    def res(self, o):
        n = 0
        while isinstance(o, Ref):
            o = self.objs.get(o[0])
            n += 1
            if n > 50:
                raise PdfError('reference loop')
        return o

    def font(self, ref):
        key = ref if isinstance(ref, Ref) else id(ref)
        if key not in self._fonts:
            d = self.res(ref)
            if not isinstance(d, dict) or d.get('Type') != 'Font':
                raise PdfError('%r is not a font' % (ref,))
            self._fonts[key] = Font(self, d, self.metrics)
        return self._fonts[key]

    @property
    def root(self):
        r = self.res(self.trailer.get('Root'))
        if not isinstance(r, dict) or r.get('Type') != 'Catalog':
            raise PdfError('trailer Root is not a Catalog')
        return r

    @property
    def pages(self):
        if self._pages is None:
            out = []
            seen = set()

            def walk(ref, parent):
                if not isinstance(ref, Ref):
                    raise PdfError('page tree kid is not a reference')
                if ref in seen:
                    raise PdfError('page tree node %r reached twice' % (ref,))
                seen.add(ref)
                d = self.res(ref)
                if not isinstance(d, dict):
                    raise PdfError('page tree node %r is not a dictionary' % (ref,))
                if parent is not None and d.get('Parent') != parent:
                    raise PdfError('page tree node %r has Parent %r, expected %r' % (ref, d.get('Parent'), parent))
                if d.get('Type') == 'Page':
                    out.append(Page(self, ref, d, len(out)))
                    return 1
                if d.get('Type') != 'Pages':
                    raise PdfError('page tree node %r has Type %r' % (ref, d.get('Type')))
                kids = self.res(d.get('Kids'))
                if not isinstance(kids, list) or not kids:
                    raise PdfError('page tree node %r has no Kids' % (ref,))
                n = sum(walk(k, ref) for k in kids)
                if d.get('Count') != n:
                    raise PdfError('page tree node %r has Count %r but %d leaves' % (ref, d.get('Count'), n))
                return n
            walk(self.root.get('Pages'), None)
            self._pages = out
        return self._pages

    # -- name tree -----------------------------------------------------
    def dests(self):
        """All (key bytes, value) of the Dests name tree, checking its invariants."""
        names = self.res(self.root.get('Names'))
        if not names or 'Dests' not in names:
            return []
        out = []

        def walk(ref, is_root, depth):
            if depth > 30:
                raise PdfError('name tree too deep')
            d = self.res(ref)
            if not isinstance(d, dict):
                raise PdfError('name tree node is not a dictionary')
            if ('Names' in d) == ('Kids' in d):
                raise PdfError('name tree node needs exactly one of Names/Kids')
            lo = hi = None
            if 'Names' in d:
                n = self.res(d['Names'])
                if len(n) % 2:
                    raise PdfError('odd Names array')
                for i in range(0, len(n), 2):
                    if not isinstance(n[i], PStr):
                        raise PdfError('name tree key is not a string')
                    out.append((bytes(n[i]), self.res(n[i + 1])))
                lo, hi = bytes(n[0]), bytes(n[-2])
            else:
                for k in self.res(d['Kids']):
                    a, b = walk(k, False, depth + 1)
                    lo = a if lo is None else lo
                    hi = b
            if is_root:
                if 'Limits' in d:
                    raise PdfError('name tree root must not have Limits')
            else:
                lim = self.res(d.get('Limits'))
                if not isinstance(lim, list) or [bytes(x) for x in lim] != [lo, hi]:
                    raise PdfError('name tree Limits %r but keys %r..%r' % (lim, lo, hi))
            return lo, hi
        walk(names['Dests'], True, 0)
        keys = [k for k, _ in out]
        for a, b in zip(keys, keys[1:]):
            if not a < b:
                raise PdfError('name tree keys out of order: %r, %r' % (a, b))
        return out

    def lookup(self, key):
        """Look a destination up the way a viewer does: descending by Limits."""
        names = self.res(self.root.get('Names'))
        if not names or 'Dests' not in names:
            return None
        d = self.res(names['Dests'])
        for _ in range(40):
            if 'Names' in d:
                n = self.res(d['Names'])
                lo, hi = 0, len(n) // 2 - 1
                while lo <= hi:
                    mid = (lo + hi) // 2
                    k = bytes(n[2 * mid])
                    if k == key:
                        return self.res(n[2 * mid + 1])
                    if k < key:
                        lo = mid + 1
                    else:
                        hi = mid - 1
                return None
            for kid in self.res(d.get('Kids', [])):
                kd = self.res(kid)
                lim = self.res(kd.get('Limits'))
                if bytes(lim[0]) <= key <= bytes(lim[1]):
                    d = kd
                    break
            else:
                return None
        return None

    # -- outlines ------------------------------------------------------
    def outlines(self):
        """Nested [(title, dest, children, count)], checking every link."""
        o = self.root.get('Outlines')
        if o is None:
            return None
        od = self.res(o)
        seen = set()

        def kids(ref, d):
            out = []
            cur = d.get('First')
            if (cur is None) != (d.get('Last') is None):
                raise PdfError('outline node %r has only one of First/Last' % (ref,))
            prev = None
            while cur is not None:
                if cur in seen:
                    raise PdfError('outline item %r reached twice' % (cur,))
                seen.add(cur)
                e = self.res(cur)
                if not isinstance(e, dict):
                    raise PdfError('outline item %r is not a dictionary' % (cur,))
                if e.get('Parent') != ref:
                    raise PdfError('outline item %r has Parent %r, expected %r' % (cur, e.get('Parent'), ref))
                if e.get('Prev') != prev:
                    raise PdfError('outline item %r has Prev %r, expected %r' % (cur, e.get('Prev'), prev))
                if not isinstance(e.get('Title'), PStr):
                    raise PdfError('outline item %r has no Title' % (cur,))
                out.append((bytes(e['Title']), e.get('Dest'), kids(cur, e), e.get('Count')))
                prev = cur
                cur = e.get('Next')
            if d.get('Last') != prev:
                raise PdfError('outline node %r has Last %r, expected %r' % (ref, d.get('Last'), prev))
            return out
        t = kids(o, od)
        return t, od.get('Count')
