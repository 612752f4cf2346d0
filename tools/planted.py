"""Prints the table of planted bugs of DESIGN.md from seeded/*/meta.json."""
import json
import os

S = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'seeded')
print('| bug | caught by | what it breaks | what it needs |\n|---|---|---|---|')
for d in sorted(os.listdir(S)):
    m = json.load(open(os.path.join(S, d, 'meta.json')))
    cut = lambda s: ' '.join(str(s).split()).replace('|', '/')
    print(f"| {d} | {m['property']} | {cut(m['what_it_breaks'])} | {cut(m['needs'])} |")
