"""Fill the generated parts of DESIGN.md: the components of every property and the table of planted bugs."""
import importlib
import json
import os
import re
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [HERE, HERE + "/.vendor", "/repo"]
from vf import core  # noqa: E402

props = [json.loads(l) for l in open(HERE + "/properties.jsonl")]
out = ["| property | component | cases (quick / thorough) | a case counts as non-trivial when it is |", "|---|---|---|---|"]
for p in props:
    importlib.import_module("vf.props." + p["id"].lower())
    for name, c in core.PROPS[p["id"]].items():
        out.append("| %s | %s | %d / %d | %s |" % (p["id"], name, c.quick, c.thorough, c.rule.replace("|", "\\|")))
book = json.load(open(HERE + "/tools/detections.json")) if os.path.exists(HERE + "/tools/detections.json") else {}
tab = ["| planted bug | property | what it breaks | needs | caught by |", "|---|---|---|---|---|"]
for n in sorted(os.listdir(HERE + "/seeded"), key=lambda n: (json.load(open(HERE + "/seeded/%s/meta.json" % n))["property"], n)):
    m = json.load(open(HERE + "/seeded/%s/meta.json" % n))
    by = "; ".join("%s: %s" % (p, v if isinstance(v, str) else ", ".join(v)) for p, v in sorted(book.get(n, {}).items())) or "not run"
    tab.append("| %s | %s | %s | %s | %s |" % (n, m["property"], m["what_it_breaks"], m["needs"], by))
s = open(HERE + "/DESIGN.md").read()
for mark, text in (("components", out), ("bugs", tab)):
    s = re.sub(r"(<!-- %s -->\n).*?(<!-- end -->)" % mark, lambda m: m.group(1) + "\n".join(text) + "\n" + m.group(2), s, flags=re.S)
open(HERE + "/DESIGN.md", "w").write(s)
