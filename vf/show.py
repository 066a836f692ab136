"""debug: dump a replay's case and observed words/lines"""
import json, sys, importlib, pprint
from . import build, obs
def main(f):
    rep = json.load(open(f)); prop = rep['property']
    mod = importlib.import_module('vf.props.' + prop.lower())
    build.install()
    pprint.pprint(rep['case'], width=150)
    if hasattr(mod, 'draw'):
        import tempfile; rd = build.read(mod.draw(rep["case"], tempfile.mkdtemp(prefix="vf-show-")) if mod.draw.__code__.co_argcount > 1 else mod.draw(rep["case"]))
        for p in rd.pages:
            for l in obs.lines(obs.page_words(p)):
                print(p.index, '%.2f' % l[0].y, ['%s %.1f-%.1f %g' % (w.text, w.x1, w.x2, w.size) for w in l])
main(sys.argv[1])
