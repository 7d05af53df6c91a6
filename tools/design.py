"""Assembles DESIGN.md."""
import ast, glob, json, os

root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def rule(pid):
    p = os.path.join(root, "rules", pid.lower() + ".py")
    m = ast.parse(open(p).read())
    assume = []
    for n in m.body:
        if isinstance(n, ast.Assign) and getattr(n.targets[0], "id", "") == "ASSUMPTIONS":
            try:
                assume = ast.literal_eval(n.value)
            except ValueError:
                assume = []
    return " ".join((ast.get_docstring(m) or "").split()), assume


def write(P, implemented, na):
    out = [open(os.path.join(root, "tools", "design_head.md")).read()]
    seeds = {}
    for f in sorted(glob.glob(os.path.join(root, "seeded", "*", "meta.json"))):
        j = json.load(open(f))
        seeds.setdefault(j["property"], []).append((os.path.basename(os.path.dirname(f)), j))
    out.append("## Claimed properties\n\n")
    for p in P:
        if p["id"] not in implemented or not p["claim"]:
            continue
        doc, assume = rule(p["id"])
        m = implemented[p["id"]]
        out.append("### %s %s\n\n%s\n\n* **Decided by** %s. %s\n* **Oracle, bounds, limits**: %s.\n" % (
            p["id"], p["title"], p["statement"], m["technique"], doc, m["note"].rstrip(".")))
        if assume:
            out.append("* **Assumes**: %s.\n" % "; ".join(assume))
        out.append("* **Why tests cannot**: %s\n" % p["why"])
        if m.get("tried"):
            out.append("* **Tried**: %s\n" % m["tried"])
        for n, j in seeds.get(p["id"], []):
            out.append("* **Planted** `%s`%s: %s\n" % (n, "" if j.get("caught", True) else " (missed)", j["what_it_breaks"]))
        out.append("\n")
    out.append("## Not applicable\n\n")
    for pid, title, reason in na:
        out.append("* **%s %s**: %s\n" % (pid, title, reason))
    out.append("\n")
    out.append(open(os.path.join(root, "tools", "design_notes.md")).read())
    out.append("## Findings repaired in /repo\n\n")
    for l in open(os.path.join(root, "known_findings.txt")):
        if l.startswith("fixed:"):
            out.append("* %s\n" % l[len("fixed: property="):].strip())
        elif l.startswith("known:"):
            out.append("* **open** %s\n" % l.strip())
    open(os.path.join(root, "DESIGN.md"), "w").write("".join(out))
