"""Fills the section on the properties in DESIGN.md. Called by properties.py."""
import os, re


def write(root, props, not_applicable):
    path = os.path.join(root, "DESIGN.md")
    if not os.path.exists(path):
        return
    src = open(os.path.join(root, "harness/src/props/mod.rs")).read()
    rules = {m[0]: (m[1], m[2]) for m in re.findall(r'prop\("(\w+)", "((?:[^"\\]|\\.)*)", ([\d_]+), ', src)}
    na = {x["property"]: x for x in not_applicable}
    out = []
    for x in props:
        out.append("### %s %s" % (x["id"], x["title"]))
        out.append("")
        if x["id"] in na:
            out.append("Not applicable: " + na[x["id"]]["reason"])
        else:
            rule, quick = rules.get(x["id"], ("", ""))
            out.append("*Decided by* " + x["technique"] + ". *Quantified* " + x["text"] + ".")
            out.append("*Generated:* " + rule.replace('\\"', '"') + " Quick: " + quick.replace("_", " ") + " cases, thorough: see the evidence file.")
            out.append("*Why tests can't:* " + x["why"])
        out.append("")
    s = open(path).read()
    a = s.index("<!-- properties -->\n") + len("<!-- properties -->\n")
    b = s.index("<!-- end -->")
    open(path, "w").write(s[:a] + "\n" + "\n".join(out) + s[b:])
