"""What the demonstrations share: the texts a page shows, read from its content stream."""
import io
import os
import re
import sys

sys.path.insert(0, os.getcwd())

TOK = re.compile(r'\((?:\\.|[^\\)])*\)|<[0-9a-fA-F]*>|[^\s()<>]+')


def stream(page):
    return b''.join(page.stream['__stream__'].values()).decode('latin')


def texts(page):
    """[(x, y, text)] of every shown string, in drawing order (x of the line, not of the string)."""
    out = []
    args = []
    x = y = 0
    for t in TOK.findall(stream(page)):
        if t == 'Tm':
            x, y = float(args[-2]), float(args[-1])
        elif t == 'Td':
            x, y = x + float(args[-2]), y + float(args[-1])
        elif t == 'Tj':
            out.append((x, y, re.sub(r'\\(.)', r'\1', args[-1][1:-1])))
        elif re.match(r'[(<\[/]|[-+.\d]', t):
            args.append(t)
            continue
        args = []
    return out


def words(pages):
    out = []
    for p in pages:
        at = None
        line = ''
        for x, y, t in texts(p):
            if (x, y) != at:
                out += line.split()
                line = ''
            line += t
            at = x, y
        out += line.split()
    return out


def written(pdf):
    b = io.BytesIO()
    pdf.output(b)
    return b.getvalue()


def objects(data):
    """{number: body} of a written file."""
    return {int(m.group(1)): m.group(2) for m in re.finditer(rb'^(\d+) 0 obj\n(.*?)\nendobj$', data, re.S | re.M)}


def expect(cond, what):
    if not cond:
        print('BROKEN: ' + what)
        sys.exit(1)
