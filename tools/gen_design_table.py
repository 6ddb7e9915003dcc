#!/usr/bin/env python3
"""Prints the table of planted bugs at the end of DESIGN.md from seeded/*/meta.json; replaces the old one."""
import json, pathlib
V = pathlib.Path(__file__).resolve().parent.parent
rows = ["| planted bug | caught by | needs |", "|---|---|---|"]
for d in sorted((V / "seeded").iterdir()):
	m = json.load(open(d / "meta.json"))
	rows.append(f"| {d.name} | {m['property']} | {' '.join(m['needs'].split())[:160]} |")
s = (V / "DESIGN.md").read_text().split("| planted bug |")[0].rstrip() + "\n\n" + "\n".join(rows) + "\n"
(V / "DESIGN.md").write_text(s)
