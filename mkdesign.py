"""DESIGN.md = the text below, with the tables generated from what is here:
bounds (mc/run BOUNDS via MANIFEST.json), fixes, planted bugs."""
import json, glob, os, re
H = os.path.dirname(os.path.abspath(__file__))
man = {c.get("property_id") or c.get("property"): c for c in json.load(open(H + "/MANIFEST.json"))["checks"]}
props = [json.loads(l) for l in open(H + "/properties.jsonl")]
fixes = json.load(open(H + "/known_findings.json"))
if isinstance(fixes, dict):
    fixes = fixes.get("findings") or fixes.get("entries")
how = json.load(open(H + "/design/how.json"))
text = open(H + "/design/text.md").read()


def bounds(i):
    n = man[i].get("level_note", "")
    m = re.search(r"working tree: (.*?)\. Trusts", n, re.S)
    return m.group(1) if m else n


rows = []
for p in props:
    i = p["id"]
    rows.append("### %s. %s\n\n*How:* %s\n\n*Oracle:* %s\n\n*Beyond tests:* %s\n\n*Bounds (quick):* %s.\n"
                % (i, p["title"], how[i][0], how[i][1], how[i][2], bounds(i)))
fx = ["| %s | %s | %s |" % (f["property"], f["commit"], f["text"].split(" ", 3)[3]) for f in fixes]
sd = []
for f in sorted(glob.glob(H + "/seeded/*/meta.json")):
    d = json.load(open(f))
    sd.append("| %s | %s | %s |" % (f.split("/")[-2], d["property"], d["needs"].replace("|", "/").replace("\n", " ")))
text = text.replace("@PROPERTIES@", "\n".join(rows)).replace("@FIXES@", "\n".join(fx))
text = text.replace("@SEEDED@", "\n".join(sd)).replace("@NSEEDED@", str(len(sd))).replace("@NFIXES@", str(len(fx)))
open(H + "/DESIGN.md", "w").write(text)
