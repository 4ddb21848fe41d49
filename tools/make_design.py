"""Rewrites the section of DESIGN.md between the markers from properties.jsonl and the property modules; python3 tools/make_design.py"""
import ast, json, pathlib, textwrap
ROOT = pathlib.Path(__file__).resolve().parent.parent
A, B = "<!-- properties -->\n", "<!-- end properties -->\n"


def main():
    out = []
    for line in (ROOT / "properties.jsonl").read_text().splitlines():
        p = json.loads(line)
        i = p["id"]
        d = {}
        for n in ast.parse((ROOT / f"pydv/props/{i}.py").read_text()).body:
            if isinstance(n, ast.Assign) and n.targets[0].id in ("EXPLANATION", "ASSUMPTIONS"):
                d[n.targets[0].id] = eval(compile(ast.Expression(n.value), "", "eval"))
        t = f"**{i} {p['title']}.** {d['EXPLANATION']}"
        if d["ASSUMPTIONS"]:
            t += " *Assumes:* " + "; ".join(d["ASSUMPTIONS"]) + "."
        out.append(textwrap.fill(" ".join(t.split()), 140) + "\n")
    f = ROOT / "DESIGN.md"
    s = f.read_text()
    f.write_text(s[:s.index(A) + len(A)] + "\n" + "\n".join(out) + "\n" + s[s.index(B):])


main()
