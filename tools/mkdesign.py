"""The table of planted bugs of DESIGN.md, from seeded/*/meta.json."""
import glob, json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = ["| bug | caught by | what it breaks | needs |", "|-----|-----------|----------------|-------|"]
for p in sorted(glob.glob(V + "/seeded/*/meta.json")):
    m = json.load(open(p))
    rows.append(f"| {os.path.basename(os.path.dirname(p))} | {m['property']} | {m['what_it_breaks']} | {m['needs']} |")
path = V + "/DESIGN.md"
s = open(path).read()
table = "\n".join(rows)
s = s.replace("BUGTABLE", table) if "BUGTABLE" in s else re.sub(r"\| bug \| caught by.*?\n\n", lambda _: table + "\n\n", s, flags=re.S)
open(path, "w").write(s)
