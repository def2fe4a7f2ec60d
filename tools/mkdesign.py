"""Write DESIGN.md: tools/design_head.md and the table of planted bugs (tools/planted.json has what is known about their history)."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
head = open(os.path.join(V, "tools", "design_head.md")).read()
notes = json.load(open(os.path.join(V, "tools", "planted.json")))
rows = ["| id | property | needs | first | strengthened |", "|---|---|---|---|---|"]
for d in sorted(os.listdir(os.path.join(V, "seeded"))):
    m = json.load(open(os.path.join(V, "seeded", d, "meta.json")))
    n = notes.get(d, {})
    rows.append(f"| {d} | {m['property']} | {m['needs'].replace('|', '/')} | {n.get('first', 'caught')} | {n.get('note', '')} |")
with open(os.path.join(V, "DESIGN.md"), "w") as f:
    f.write(head + "\n".join(rows) + "\n")
