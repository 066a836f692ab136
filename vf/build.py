"""Drives the code under test through its public API."""
import io
import copy as _copy
import zlib

from . import pdfread

PAGE_CAP = 400


class PageCap(Exception):
    pass


class CodeError(Exception):
    """The code under test raised on input the property says is valid."""
    def __init__(self, exc):
        super().__init__(repr(exc))
        self.exc = exc


_installed = False
_pages = [0]


def install():
    """Hook page creation (in this process only): a deterministic cap on pages."""
    global _installed
    if _installed:
        return
    _installed = True
    import pdfme.pdf as m
    orig = m.PDF.add_page

    def add_page(self, *a, **k):
        if len(self.pages) >= _cap[0]:
            raise PageCap(_cap[0])
        return orig(self, *a, **k)
    m.PDF.add_page = add_page


_cap = [PAGE_CAP]


class cap:
    def __init__(self, n):
        self.n = n

    def __enter__(self):
        self.old, _cap[0] = _cap[0], self.n

    def __exit__(self, *a):
        _cap[0] = self.old


class guard:
    """with guard(): code under test; its exceptions become CodeError."""
    def __enter__(self):
        return self

    def __exit__(self, t, e, tb):
        if t is not None and issubclass(t, Exception) and not issubclass(t, (PageCap, CodeError, pdfread.PdfError)):
            raise CodeError(e) from e


TUPLES = ('table', 'group', 'widths', 'content', 'sections', 'footnote', 'borders', 'fills', 'margin', 'page_size', 'color')


def tuples(x, key=''):
    """A part of the lists, told by what they hold, as the tuples they may be as well."""
    if isinstance(x, dict):
        return {k: tuples(v, k) for k, v in x.items()}
    if isinstance(x, list):
        out = [tuples(v, 'row' if key == 'table' else '') for v in x]
        if (key.startswith('.') or key in TUPLES or key == 'row') and zlib.crc32(repr(x).encode()) % 4 == 0:
            return tuple(out)
        return out
    return x


def document(doc, context=None):
    """build_pdf on a deep copy; returns the bytes."""
    from pdfme import build_pdf
    buf = io.BytesIO()
    doc = tuples(_copy.deepcopy(doc))
    context = None if context is None else dict(context)
    with guard():
        build_pdf(doc, buf, context)
    return buf.getvalue()


def read(data):
    from . import pdfread
    return pdfread.Reader(data)


def output(pdf):
    buf = io.BytesIO()
    with guard():
        pdf.output(buf)
    return buf.getvalue()
