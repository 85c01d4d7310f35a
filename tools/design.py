#!/usr/bin/env python3
"""Rewrites the table of planted bugs in DESIGN.md from seeded/*/meta.json."""
import json, os, re
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NOTE = {
 "c03-step-by-search": "strengthened: iterator steps compared with a tiny map",
 "c04-keys-shared": "strengthened: listings are scribbled over and taken again",
 "c08-shrink": "strengthened: waves of growth and shrinking",
 "c25-sub-overflow": "strengthened: intervals over the whole int64 range",
 "c29-one-per-round": "strengthened: crowds of up to 30 000 workers",
 "c32-no-copy-large": "strengthened: large messages without spare capacity",
 "c35-flatten": "strengthened: errors that are or wrap error lists",
 "c38-lost-first": "strengthened: first registrations for unseen types race",
 "c42-decrypt-in-place": "check used to fail instead of reporting; corrected",
 "c48-procs": "strengthened: small machines",
}
NOTE.update(json.load(open(os.path.join(R, "tools", "seednotes.json"))) if os.path.exists(os.path.join(R, "tools", "seednotes.json")) else {})
rows = ["| planted bug | property | needs | caught by its check |", "|---|---|---|---|"]
for d in sorted(os.listdir(os.path.join(R, "seeded"))):
    m = json.load(open(os.path.join(R, "seeded", d, "meta.json")))
    rows.append("| %s | %s | %s | %s |" % (d, m["property"], m["needs"].replace("|", "/"), "no" if NOTE.get(d, "").startswith("MISSED") else "yes" + ("; " + NOTE[d] if d in NOTE else "")))
p = os.path.join(R, "DESIGN.md")
s = open(p).read()
t = "<!-- seeds -->\n" + "\n".join(rows) + "\n<!-- /seeds -->"
s = s.replace("@TABLE@", t) if "@TABLE@" in s else re.sub(r"<!-- seeds -->.*<!-- /seeds -->", lambda _: t, s, flags=re.S)
open(p, "w").write(s)
print(len(rows) - 2, "planted bugs")
