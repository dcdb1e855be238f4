"""Print the table of planted bugs for DESIGN.md."""
import json
import os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
for d in sorted(os.listdir(os.path.join(V, 'seeded'))):
    m = json.load(open(os.path.join(V, 'seeded', d, 'meta.json')))
    print(f"| {d}: {m['what_it_breaks']} | {m['property']} | needs {m['needs']} |")
