"""Grid model of a table (independent of the code): spans, columns, selectors, borders, fills, margins."""
from . import model

BORDER = {'width': .5, 'color': 0, 'style': 'solid'}


def selector(s, n):
    """Positions selected by one half of a pos string, documented as python slices / lists of ints."""
    s = s.strip()
    if s == '':
        s = ':'
    if ':' in s:
        p = [int(v) if v.strip() else None for v in s.split(':')]
        return list(range(n))[slice(*p)]
    return [n + int(v) if int(v) < 0 else int(v) for v in s.split(',')]


def positions(pos, rows, cols):
    a, _, b = pos.partition(';')
    return [(i, j) for i in selector(a, rows) for j in selector(b, cols)]


class Cell:
    def __init__(self, i, j, el, grid):
        self.i, self.j, self.el = i, j, el
        d = el if isinstance(el, dict) else {}
        self.rs = d.get('rowspan', 1)
        self.cs = d.get('colspan', 1)
        st = dict(grid.style)
        for k in d:
            if k.startswith('.'):
                st.update(model.parse_key(k[1:]))
        st.update(model.resolve(d.get('style'), grid.formats))
        self.st = st
        m = st.get('cell_margin', 5)
        self.margin = {s: st.get('cell_margin_' + s, m) for s in ('left', 'right', 'top', 'bottom')}
        self.fill = st.get('cell_fill')

    @property
    def last(self):
        return self.i + self.rs - 1

    def __repr__(self):
        return 'cell(%d,%d)' % (self.i, self.j)


class Grid:
    def __init__(self, t, formats=None):
        self.formats = formats or {}
        self.rows = t['table']
        self.n, self.m = len(self.rows), len(self.rows[0])
        self.style = model.resolve(t.get('style'), self.formats)
        self.default = {k: self.style.get('border_' + k, BORDER[k]) for k in BORDER}
        self.spec_h, self.spec_v, self.spec_f = {}, {}, {}
        for b in t.get('borders') or []:
            d = dict(self.default, **{k: v for k, v in b.items() if k != 'pos'})
            v = b['pos'][0].lower() == 'v'
            for p in positions(b['pos'][1:], self.n + (not v), self.m + v):
                (self.spec_v if v else self.spec_h)[p] = d
        for f in t.get('fills') or []:
            for p in positions(f['pos'], self.n, self.m):
                self.spec_f[p] = f['color']
        self.owner = {}
        self.cells = []
        for i, row in enumerate(self.rows):
            for j, el in enumerate(row):
                if (i, j) in self.owner:
                    continue
                c = Cell(i, j, el, self)
                self.cells.append(c)
                for a in range(i, i + c.rs):
                    for b in range(j, j + c.cs):
                        self.owner[a, b] = c
        w = t.get('widths') or [1] * self.m
        self.frac = [sum(w[:j]) / sum(w) for j in range(self.m + 1)]

    def h(self, i, j):
        return self.spec_h.get((i, j), self.default)

    def v(self, i, j):
        return self.spec_v.get((i, j), self.default)

    def h_drawn(self, i, j):
        """Border above row i in column j, None when it is hidden or has no width."""
        if 0 < i < self.n and self.owner[i - 1, j] is self.owner[i, j]:
            return None
        b = self.h(i, j)
        return b if b['width'] > 0 else None

    def v_drawn(self, i, j):
        if 0 < j < self.m and self.owner[i, j - 1] is self.owner[i, j]:
            return None
        b = self.v(i, j)
        return b if b['width'] > 0 else None

    def pad(self, c):
        """Distances from the cell's edges to its content."""
        return {'left': c.margin['left'] + self.v(c.i, c.j)['width'] / 2,
                'right': c.margin['right'] + self.v(c.i, c.j + c.cs)['width'] / 2,
                'top': c.margin['top'] + self.h(c.i, c.j)['width'] / 2,
                'bottom': c.margin['bottom'] + self.h(c.i + c.rs, c.j)['width'] / 2}

    def color(self, c):
        return c.fill if c.fill is not None else self.spec_f.get((c.i, c.j))

    def x(self, j, x, w):
        return x + self.frac[j] * w


def dash(b):
    w = b['width']
    if b['style'] == 'solid':
        return ()
    if b['style'] == 'dashed':
        return (3 * w, 1.5 * w)
    return (0, 2 * w)


def spans_text(toks_words, nl):
    return '\n'.join(toks_words) if nl else ' '.join(toks_words)
