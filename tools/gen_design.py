"""Fills the generated tables of DESIGN.md (between the markers) from known_findings.json and, when present, seeded/*/meta.json."""
import json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); p = os.path.join(V, "DESIGN.md"); s = open(p).read()
F = json.load(open(os.path.join(V, "known_findings.json")))["findings"]
def block(name, text):
    global s
    s = re.sub(r"(<!-- %s -->\n).*?(<!-- /%s -->)" % (name, name), lambda m: m.group(1) + text + m.group(2), s, flags=re.S)
block("fixed", "".join("* %s `%s` %s\n" % (f["property"], f["commit"][:7], re.sub(r"^fixed: property=\S+ \S+ ", "", f["what"])) for f in sorted(F, key=lambda f: f["property"]) if f["status"] == "fixed"))
block("known", "".join("* %s `%s`: %s\n" % (f["property"], f["key"], f["what"]) for f in F if f["status"] == "known"))
d = os.path.join(V, "seeded"); t = "| id | property | needs | caught by |\n|---|---|---|---|\n"
for i in sorted(os.listdir(d)) if os.path.isdir(d) else []:
    m = json.load(open(os.path.join(d, i, "meta.json"))); t += "| %s | %s | %s | %s |\n" % (i, m["property"], m["needs"].replace("|", "/").replace("\n", " "), m.get("caught_by", "?"))
block("seeded", t); open(p, "w").write(s)
