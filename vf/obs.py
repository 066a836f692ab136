"""What a viewer shows: words with positions, lines, fills — from painted items."""


class OWord:
    __slots__ = ('text', 'chars', 'page', 'y', 'x1', 'x2', 'seq')

    def __init__(self, page, y):
        self.chars = []         # (ch, x, width, item)
        self.page = page
        self.y = y

    def done(self):
        self.text = ''.join(c[0] for c in self.chars)
        self.x1 = self.chars[0][1]
        self.x2 = self.chars[-1][1] + self.chars[-1][2]
        self.seq = self.chars[0][3].seq
        return self

    @property
    def size(self):
        return max(c[3].size for c in self.chars)

    def __repr__(self):
        return 'O(%r p%d %.2f..%.2f @%.2f)' % (self.text, self.page, self.x1, self.x2, self.y)


def page_words(page, tol=0.06, stop=None):
    """Words of a page in drawing order; a word also ends after the character stop."""
    out = []
    cur = None
    end = None
    for it in page.items:
        if it.kind != 'text':
            continue
        for ch, off, w, code in it.chars:
            if ch in ' \xa0':
                if cur:
                    out.append(cur.done())
                    cur = None
                continue
            x = it.x + off
            if cur is not None and (cur.chars[-1][0] == stop or abs(cur.y - it.y) > 0.01 or abs(x - end) > tol):
                out.append(cur.done())
                cur = None
            if cur is None:
                cur = OWord(page.index, it.y)
            cur.chars.append((ch, x, w, it))
            end = x + w
    if cur:
        out.append(cur.done())
    return out


def all_words(reader, stop=None):
    out = []
    for p in reader.pages:
        out.extend(page_words(p, stop=stop))
    return out


def encoding_ok(font):
    """Latin text is written in WinAnsiEncoding; Symbol and ZapfDingbats have an encoding of their own."""
    if font.type0:
        return True
    return (font.encoding is None) if font.base in ('Symbol', 'ZapfDingbats') else font.encoding == 'WinAnsiEncoding'


def lines(words):
    """Group words (in the given order) into lines: same page, same baseline, going right."""
    out = []
    for w in words:
        if out:
            l = out[-1][-1]
            if l.page == w.page and abs(l.y - w.y) < 0.01 and w.x1 >= l.x2 - 0.06:
                out[-1].append(w)
                continue
        out.append([w])
    return out
