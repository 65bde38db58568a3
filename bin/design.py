"""Writes DESIGN.md: the text below, the properties of props.py, the table of planted bugs (from CAUGHT)."""
import json, os, re, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import props

V = props.VERIF
COST = {"C01": 5, "C02": 10, "C03": 25, "C04": 50, "C05": 50, "C06": 120, "C07": 25, "C08": 40, "C09": 60, "C11": 100, "C12": 25, "C13": 65, "C14": 30,
        "C15": 30, "C16": 100, "C17": 45, "C18": 25, "C19": 75, "C20": 40, "C21": 100, "C22": 40, "C23": 60}
HEAD = open(os.path.join(V, "bin", "design_head.md")).read()
TAIL = open(os.path.join(V, "bin", "design_tail.md")).read()


def main():
    out = [HEAD, "\n## The properties and how each is decided\n"]
    for k in sorted(props.P):
        p = props.P[k]
        src = open(os.path.join(V, "checks", k + ".cpp")).read()
        facets = re.findall(r'pbt::add\("([^"]+)", (\d+), (\d+)', src)
        out.append("\n### %s %s\n\n" % (k, p["title"]))
        out.append("*Specified:* %s\n\n" % p["statement"])
        out.append("*Generated, judged against:* %s.\n\n" % p["rule"].rstrip("."))
        out.append("*Bounds:* %s. Facets (cases quick / thorough): %s. About %d s quick on eight idle cores.\n\n" % (
            p["note"].rstrip("."), ", ".join("%s %s / %s" % f for f in facets), COST[k]))
        out.append("*Beyond the tests:* %s\n" % p["why"])
        if p["assumptions"]:
            out.append("\n*Assumptions:* %s.\n" % "; ".join(a.rstrip(".") for a in p["assumptions"]))
    out.append("\n## Planted bugs\n\nEach is in `seeded/<id>/` with its demonstration. All were run against the quick checks; the column says which check reports them.\n\n")
    out.append("| bug | property | needs | caught by |\n|---|---|---|---|\n")
    S = os.path.join(V, "seeded")
    for d in sorted(os.listdir(S)) if os.path.isdir(S) else []:
        m = json.load(open(os.path.join(S, d, "meta.json")))
        out.append("| %s | %s | %s | %s |\n" % (d, m["property"], m["needs"].replace("|", "\\|"), CAUGHT.get(d, "?")))
    out.append(TAIL)
    open(os.path.join(V, "DESIGN.md"), "w").write("".join(out))


CAUGHT = json.load(open(os.path.join(V, "bin", "caught.json")))
if __name__ == "__main__":
    main()
