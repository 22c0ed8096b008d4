#!/usr/bin/env python3
"""Prints the table of planted bugs for DESIGN.md from seeded/*/meta.json."""
import json,os,sys
d=sys.argv[1] if len(sys.argv)>1 else os.path.join(os.path.dirname(os.path.abspath(__file__)),'..','seeded')
print('| planted bug | caught by | what it breaks | needs |\n|---|---|---|---|')
for i in sorted(os.listdir(d)):
    m=json.load(open(os.path.join(d,i,'meta.json')))
    print(f"| {i} | {m['property']} | {m['what_it_breaks']} | {m['needs']} |")
