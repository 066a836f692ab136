"""One-off: write data/metrics.json, the trusted advance widths of the 14 standard fonts
(published AFM data as carried by the pinned tree; the checks read the file, never the repo)."""
import json, sys
sys.path.insert(0, '/repo')
from pdfme.fonts import STANDARD_FONTS
out = {}
for fam, modes in STANDARD_FONTS.items():
    for m, f in modes.items():
        out[f['base_font']] = [f['widths'].get(chr(i), 0) for i in range(256)]
json.dump(out, open('/verif/data/metrics.json', 'w'))
