"""Writes DESIGN.md from the registry, the checks' own rules, the findings and the planted bugs."""
import ast, json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
read = lambda *p: open(os.path.join(V, *p)).read()
props = [json.loads(l) for l in read("properties.jsonl").splitlines() if l.strip()]
man = json.loads(read("MANIFEST.json"))
known = json.loads(read("known_findings.json"))

def consts(pid):
    out = {}
    for n in ast.parse(read("checks", pid + ".py")).body:
        if isinstance(n, ast.Assign) and n.targets[0].id in ("RULE", "REQUIRED", "ASSUMPTIONS") if isinstance(n, ast.Assign) and isinstance(n.targets[0], ast.Name) else False:
            try:
                out[n.targets[0].id] = ast.literal_eval(n.value)
            except ValueError:
                pass
    return out

out = [read("tools", "design_head.md"), "## The properties and how each is decided\n"]
for p in props:
    pid = p["id"]
    if not os.path.exists(os.path.join(V, "checks", pid + ".py")):
        continue
    c = consts(pid)
    out.append(f"### {pid} — {p['title']}\n")
    out.append(f"{p.get('statement', '')}\n")
    out.append(f"*Decided by*: {c.get('RULE', '')}\n")
    out.append("*Must have been observed (quick tier, at least)*: " + ", ".join(f"{k} ≥ {v}" for k, v in c.get("REQUIRED", {}).items()) + ".\n")
    if c.get("ASSUMPTIONS"):
        a = c["ASSUMPTIONS"]
        out.append("*Assumes*: " + ("; ".join(a) if isinstance(a, (list, tuple)) else str(a)) + "\n")
out.append("## Findings recorded and not repaired\n")
out += [f"* **{f['property']}** `{f['mechanism']}` — {f['what']}" for f in known["findings"]]
out.append("\n## Defects found and repaired (one `fix:` commit each)\n")
out += ["* " + f for f in known["fixed"]]
out.append("\n## Planted bugs\n\n| bug | property | caught by | breaks | needs |\n|---|---|---|---|---|")
caught = json.loads(read("tools", "caught.json")) if os.path.exists(os.path.join(V, "tools", "caught.json")) else {}
sd = os.path.join(V, "seeded")
for b in sorted(os.listdir(sd)) if os.path.isdir(sd) else []:
    m = json.loads(read("seeded", b, "meta.json"))
    one = lambda s: " ".join(str(s).split()).replace("|", "/")
    out.append(f"| {b} | {m['property']} | {caught.get(b, m['property'])} | {one(m['what_it_breaks'])} | {one(m['needs'])} |")
out.append("\n" + read("tools", "design_notes.md"))
open(os.path.join(V, "DESIGN.md"), "w").write("\n".join(out))
