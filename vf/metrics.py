import json
import pathlib

STD = json.loads((pathlib.Path(__file__).parent.parent / 'data' / 'metrics.json').read_text())
FAMILY = {
    'Helvetica': ('Helvetica', 'Helvetica-Bold', 'Helvetica-Oblique', 'Helvetica-BoldOblique'),
    'Times': ('Times-Roman', 'Times-Bold', 'Times-Italic', 'Times-BoldItalic'),
    'Courier': ('Courier', 'Courier-Bold', 'Courier-Oblique', 'Courier-BoldOblique'),
    'Symbol': ('Symbol',) * 4,
    'ZapfDingbats': ('ZapfDingbats',) * 4,
}


def base_font(family, b, i):
    return FAMILY[family][(1 if b else 0) + (2 if i else 0)]


def width(base, text, size):
    w = STD[base]
    return sum(w[ord(c)] for c in text) * size / 1000
