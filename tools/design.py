#!/usr/bin/env python3
"""
Writes DESIGN.md: the text of tools/design_head.md, one section per property
(from the tables of tools/meta.py, the oracles below, the last measured times
in tools/times.json) and the planted bugs of seeded/.
"""
import json
import os
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(HERE, 'tools'))

ORACLE = {
    'C01': """a Python dict plus `sorted`; every public query of the collection
is asked after every step, and after every operation's exception.""",
    'C02': """the contents as a dict per collection, and the rule "refuse iff
the result would be larger than the capacity of the collection concerned".
Which collection an id belongs to is asked of the group (`group[id]`), so the
hash may change freely.""",
    'C03': """one Python dict for the whole group. Nothing is assumed of the
order of unbounded listings, only of range queries.""",
    'C04': """trial division and the plain definition of the smallest prime
number of collections that is enough.""",
    'C05': """a list of dicts, one per group; reads take the first group in the
order of the container that has the id, writes go to the primary.""",
    'C06': """the same list of dicts; after resizing and condensing every id has
to read as before, and the groups have to be those documented.""",
    'C07': """the set of objects before the operation: at every crash point and
after every fault and conflicting commit each object has to be readable with
its value, and finishing the operation later has to reach the normal end.""",
    'C08': """the figures computed from the listed contents and the maximum
sizes (`Status` boundaries from the enumeration's documentation).""",
    'C09': """one dict; exceptions must leave it and the database unchanged.""",
    'C10': """two dicts, what this connection sees and what another connection
to the same storage sees; they are equal with autocommit, and the second only
changes by a commit without.""",
    'C11': """the dict before the block and the one after; another connection
must see one of them, decided by whether the block ended normally.""",
    'C12': """all serial orders of the transactions that reported success: the
final contents and every value returned have to be those of one of them.
Transactions that reported a conflict must have had no effect.""",
    'C13': """the list of contents after each acknowledged commit: a file cut at
byte n has to open as the state of the last commit that is completely inside n
bytes, or a later acknowledged one.""",
    'C14': """a record of what was created, committed and with which options.""",
    'C15': """the list of the values given to the databases.""",
    'C16': """one dict and one size.""",
    'C17': """the set of files under the scratch directory before and after,
with a stand-in hook (`Box`) that keeps every destructive call inside it.""",
    'C18': """a dict of registrations and the last committed copy of it.""",
    'C19': """a table context -> function and a stack of contexts per object.""",
    'C20': """the properties of the object listed by hand for the test classes,
with names, values and registered rewrites; the output is compared as data.""",
    'C21': """an independent table of the vocabulary written from the
ActivityStreams 2.0 recommendation (`mc/as2.py`), not from the code.""",
    'C22': """a small JSON-LD type expansion written for the contexts used, and
the table of registered classes.""",
    'C23': """a graph of classes given as tuples; the copy has to be isomorphic
and share no class with the original.""",
    'C24': """set algebra on the types registered in each operand.""",
    'C25': """a map address -> page served by a stand-in web; nothing is fetched
from anywhere else.""",
    'C26': """the ranges of the recommendation (`mc/as2.py`).""",
    'C27': """a separate parser of ISO 8601 / RFC 3339 texts built from the
parts the text was composed of.""",
    'C28': """the parts an address was composed of, and the pages of a stand-in
web with a counter of requests.""",
    'C29': """one dict per storage of the server.""",
    'C30': """two dicts (committed and working), a number of containers, and
    whether a block or manual mode is on. Schedules are judged like those of C12.""",
    'C31': """the list of all dicts there were, one per transaction.""",
}


def main():
    import importlib.util
    spec = importlib.util.spec_from_file_location(
        'meta', os.path.join(HERE, 'tools', 'meta.py'))
    meta = importlib.util.module_from_spec(spec)
    spec.loader.exec_module(meta)
    times = {}
    path = os.path.join(HERE, 'tools', 'times.json')
    if os.path.exists(path):
        times = json.load(open(path))
    caught = {}
    path = os.path.join(HERE, 'tools', 'caught.json')
    if os.path.exists(path):
        caught = json.load(open(path))
    out = [open(os.path.join(HERE, 'tools', 'design_head.md')).read()]
    out.append('\n## The properties\n')
    for p in sorted(meta.P, key=lambda p: p['id']):
        i = p['id']
        out.append(f"\n### {i} {p['title']}\n")
        out.append(f"* *Explored*: {p['text']}")
        out.append(f"* *Oracle*: {' '.join(ORACLE[i].split())}")
        out.append(f"* *Why tests cannot settle it*: {p['why']}")
        out.append(f"* *Method and bounds*: {p['technique']}. {p['note']}")
        if i in times:
            q, t = times[i]['quick'], times[i].get('thorough')
            text = f"{q['states']} states, {q['transitions']} transitions, " \
                   f"{q['traces']} executions of the code in {q['s']} s"
            if t:
                text += f"; thorough: {t['states']}, {t['transitions']}, " \
                        f"{t['traces']} in {t['s']} s"
            out.append(f'* *Cost* (8 cores): quick: {text}.')
    out.append('\n## Planted bugs\n')
    out.append('Each is in `seeded/<id>`, changes original lines only, passes '
               'the stable tests and has a demonstration.\n')
    out.append('| bug | property | needs | caught by |\n|---|---|---|---|')
    for s in sorted(os.listdir(os.path.join(HERE, 'seeded'))):
        m = json.load(open(os.path.join(HERE, 'seeded', s, 'meta.json')))
        needs = ' '.join(str(m['needs']).split()).replace('|', '/')
        c = caught.get(s)
        out.append(f"| {s} | {m['property']} | {needs} | "
                   f"{c or 'not run'} |")
    with open(os.path.join(HERE, 'DESIGN.md'), 'w') as f:
        f.write('\n'.join(out) + '\n')


if __name__ == '__main__':
    main()
