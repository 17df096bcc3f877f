"""Prints what survived a mutation campaign: survivors.py FILE [start]"""
import json
import sys

for i, x in enumerate(map(json.loads, open(sys.argv[1]))):
    if i >= int((sys.argv + [0])[2]) and x['res'].startswith('SURV'):
        print(x['file'], x['n'], x['line'], x['kind'], x['res'][9:])
        print('   ' + '\n   '.join(
            line for line in x['diff'] if line[:1] in '+-' and
            line[:3] not in ('+++', '---')))
