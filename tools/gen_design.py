"""DESIGN.md = tools/design_head.md + tables of repairs, known findings and planted bugs."""
import glob
import json
import os

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
kf = json.load(open(os.path.join(V, "known_findings.json")))
out = [open(os.path.join(V, "tools", "design_head.md")).read(), "## 4. Genuine defects found\n", "Repaired (one `fix:` commit each; the check reports them again should they return):\n",
       "| property | commit | what failed |", "|---|---|---|"]
for k in kf:
    s = k.get("status", "")
    if s.startswith("fixed:"):
        _, p, c, w = s.split(" ", 3)
        out.append(f"| {p.split('=')[1]} | {c} | {w} |")
out += ["", "Not repaired (known findings; each suppressed by its exact signature only):\n", "| property | what fails |", "|---|---|"]
for k in kf:
    if not k.get("status", "").startswith("fixed:"):
        out.append(f"| {k.get('property')} | {k.get('what') or k.get('description') or k.get('sig')} |")
out += ["", "Further weaknesses seen, outside the statements or failing closed: the OAuth2 token helper does not revoke on code replay; introspection and others answer some "
        "refusals with an exception; the cookie max-age is an absolute time; PAR per RFC 9126 with only client_id and request_uri outside is refused by oidcmsg; DPoP proofs are not "
        "checked for freshness or replay; `registered frontchannel_logout_uri` origin is not compared with the redirect URIs.", "", open(os.path.join(V, "tools", "design_tail.md")).read(),
        "## 6. Planted bugs\n", "`tools/bugs*.py` hold their sources, `tools/plant.py` writes and validates them. Each is caught by the quick check of its property.\n",
        "Missed at first, and what was added: `empty-allowed-scopes` (C05: clients that may use no scope), `request-uri-from-content` (C18: the very same request pushed again), "
        "`page-remembers-links` (C26: the pages of two clients that registered different links, in any order).\n",
        "| bug | property | what it breaks | needs |", "|---|---|---|---|"]
for d in sorted(glob.glob(os.path.join(V, "seeded", "*", "meta.json"))):
    m = json.load(open(d))
    out.append(f"| {os.path.basename(os.path.dirname(d))} | {m['property']} | {m['what_it_breaks']} | {m['needs']} |")
open(os.path.join(V, "DESIGN.md"), "w").write("\n".join(out) + "\n")
