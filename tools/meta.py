#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the tables below."""
import json
import os
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = '/opt/venv/bin/python'
P = []


def prop(id, title, statement, over, text, why, files, mechanism, observe,
         technique, note, state=()):
    assert len(title) <= 80, title
    P.append(dict(id=id, title=title, statement=' '.join(statement.split()),
                  over=over, text=' '.join(text.split()),
                  why=' '.join(why.split()), files=files, mechanism=mechanism,
                  observe=observe, technique=technique,
                  note=' '.join(note.split()), state=list(state)))


S = 'citrine/storage/'
HIST = 'explicit-state model checking of the real code: all operation ' \
       'histories to a bound against a reference model'

prop('C01', 'A collection is an ordered map',
     """A collection behaves as one ordered map from string ids to arbitrary
     values (false-like values, empty strings and None included): after any
     sequence of insert, update, setdefault, pop, popitem and clear, every
     lookup, membership test, size, key/value/item view, bounded range
     iteration, smallest/largest key query and by-value listing agrees with
     exactly the items stored. Inserting an id that is present changes nothing
     and says so; removing one returns what was stored, and removing a missing
     id without a default raises KeyError and changes nothing.""",
     ['histories', 'inputs'],
     """Every sequence of operations over three ids and three values to depth 3
     (4 thorough), strict or not; every assignment of values to five ids;
     collections of up to a few hundred items inserted in several orders; all pairs of 63 unusual ids and of 50 unusual
     values.""",
     """The tests run one fixed script per method on truthy values; sequences,
     falsy values and interactions of removal with ranges are not reached.""",
     [S + 'collection.py'],
     [{'name': 'Collection operations', 'where': S + 'collection.py'}],
     ['Collection public methods'], HIST,
     """The implementation itself is executed; bounds: 3 ids x 3 values,
     depth 3/4, merged by (contents, last 1/2 operations).""")

prop('C02', 'Strict capacity is exact and refusals change nothing',
     """In strict mode a collection, a group of collections or a container
     never comes to hold more objects than its capacity: an operation that
     would exceed it raises a capacity error and leaves all contents as they
     were. An operation that fits (including any that only overwrites ids
     already stored) is never refused, a non-strict one never refuses
     anything, and strictness can be switched at any time and applies to the
     next operation.""",
     ['histories', 'configurations'],
     """Every layout of one to three collections with capacities 1-3, strict
     and not, and every history of inserts, bulk updates, setdefaults, pops,
     writes, deletes and strictness changes to depth 3-5.""",
     """The tests fill one collection once; boundary conditions depend on
     which collection an id is kept in and on the history.""",
     [S + 'collection.py', S + 'group.py', S + 'container.py'],
     [{'name': 'capacity checks', 'where': S + 'collection.py insert/update/'
       'setdefault'},
      {'name': 'capacity checks', 'where': S + 'group.py insert/update/'
       'setdefault'}],
     ['Collection, Group, Container public methods'], HIST,
     'Bounds: up to 3 collections of capacity 1-3, 4 ids, depth 3-5.')

prop('C03', 'A group of collections behaves as one ordered map',
     """A group that spreads its items over any number of collections is
     indistinguishable from a single ordered map: each id is kept in exactly
     one collection, found again by every operation, and every lookup, bulk
     update, view, bounded range iteration (in ascending id order across
     collections), smallest/largest key query and descending by-value listing
     covers exactly the items stored, false-like ids and values included.""",
     ['histories', 'inputs', 'configurations'],
     """Groups of 1, 2, 3, 5 and 7 collections; every history over three ids
     and three values to depth 3 with every pair of range bounds; complete spaces of by-value inputs and bulk sizes; all pairs of 63 unusual
     ids and of 50 unusual values.""",
     """The tests use a fixed data set; merging of the per-collection
     iterators depends on how ids are distributed and on empty collections.""",
     [S + 'group.py'],
     [{'name': 'key routing', 'where': S + 'group.py get_group_index/groupfn'},
      {'name': 'merging iterators', 'where': S + 'group.py iterkeys/iteritems/'
       'byValue/minKey/maxKey'}],
     ['Group public methods'], HIST,
     'Bounds: up to 7 collections, 3 ids x 3 values, depth 3.')

prop('C04', 'Capacity planning yields enough collections, a prime number',
     """Asking for a capacity with a maximum collection size creates the
     smallest prime number of collections (1 counts) that can hold it, each no
     larger than that maximum, all empty, distinct and all of them used by some
     ids; the planned size for growth covers one and a half times the capacity
     in the same way. Custom layouts, which are not changed themselves, put
     each size at its position and fill gaps with the default size, given collections are taken as they are, and invalid
     sizes or positions or an identifier twice are refused; the
     underlying prime enumeration and primality test are exact.""",
     ['inputs'],
     """Every capacity up to 500 (2000) by every collection size up to 40 (80)
     and selected large ones; every number up to 8000 (60000); every custom
     layout over four positions.""",
     """The tests check a handful of sizes; off-by-one errors show only at
     particular residues and primes.""",
     [S + 'utils.py', S + 'group.py', S + 'container.py'],
     [{'name': 'prime sizing', 'where': S + 'utils.py'},
      {'name': 'custom layouts', 'where': S + 'group.py Group.new'},
      {'name': 'containers', 'where': S + 'container.py Container.new'}],
     ['number_of_collections, next_number_of_collections, get_primes, is_prime,'
      ' Group.new, Container.new'],
     'exhaustive enumeration of a finite input space on the real code, '
     'against trial division',
     'Complete within the stated grid; nothing is sampled.')

prop('C05', 'A container reads, writes and deletes across all its groups',
     """Whatever ids the groups of a container hold, reading an id gives the
     value of the first group that has it (even a false-like one) or the given
     default, writing puts the value into the primary group only, and deleting
     removes the id from every group that has it and returns all removed
     values in group order. Counting an id tells in how many groups it is, and
     the container's size and use follow its contents.""",
     ['histories', 'configurations'],
     """Every distribution of three ids over one to three groups, every
     position of the primary (also outside the groups), every history of writes and deletes to depth 1-5; all pairs of 63 unusual
     ids and of 50 unusual values.""",
     """The tests use containers whose groups hold the same or no keys and
     only truthy values.""",
     [S + 'container.py'],
     [{'name': 'has/read/write/delete', 'where': S + 'container.py'}],
     ['Container.read/has/write/delete, Container.groups'], HIST,
     'Bounds: up to 3 groups, 3-4 ids, depth 1-5.')

prop('C06', 'Resizing and condensing preserve every object',
     """Resizing a container and condensing its groups never lose, duplicate or
     alter an object: afterwards every id reads exactly as before, the new
     primary has at least the requested capacity within the collection size
     limit, and the transferred groups are emptied, removed from the container
     and returned (without transfer, the sources keep their contents). If a
     strict primary refuses an object the operation raises, and still every id
     can be read; a capacity below the number of stored objects is refused
     without any change.""",
     ['histories', 'configurations'],
     """Every distribution of 2-3 ids over one to three groups, each position
     of the primary, strict or not; histories of up to three resizes (three
     capacities, three collection sizes, condense/transfer on and off), condenses, writes and deletes; every number
     of objects to 70 (and some to 3000) resized and condensed.""",
     """The tests condense fixed containers with distinct ids and enough room;
     duplicates, refusals and secondary primaries are never combined.""",
     [S + 'container.py'],
     [{'name': 'resize/condense', 'where': S + 'container.py'}],
     ['Container.resize, Container.condense, Container.read'], HIST,
     """Bounds as stated; ids held by several groups are judged by the value
     read, where the primary is the first group.""")

prop('C07', 'Resizing and condensing survive crashes, faults and other writers',
     """When a transaction manager is given, a resize or condense moves one
     object per transaction, and at every moment in between - after a crash
     between any two commits, after any one of its commits is refused by the
     storage, or as seen by another connection - every id reads as it did
     before; it can then simply be repeated. A change or deletion that another
     connection commits between two of its transactions is neither lost nor
     undone.""",
     ['crash_points', 'fault_sequences', 'schedules'],
     """Every commit of every resize/condense of containers with two or three
     groups as a crash point and as a fault; every transaction boundary as the
     place of another connection's update or delete.""",
     """No test crashes, injects a storage fault or runs a second connection
     during a resize.""",
     [S + 'container.py', S + 'transaction.py'],
     [{'name': 'individual transactions', 'where': S +
       'container.py condense'}],
     ['database contents after each commit, read by a new connection'],
     'model checking by exhaustive crash-point, fault-point and '
     'scheduling-point enumeration on the real code',
     """MVCC history of an in-memory storage gives the durable state after
     every commit; bounds: 2-3 ids, 2-3 groups.""")

prop('C08', 'Size, usage and status figures always follow the contents',
     """Size, capacity, maximum sizes, usage percentages and the status level
     (0, 60, 70, 80 or 90: the highest one not above the usage in percent,
     rounded up) of a collection, a group and a container are at every moment
     those of the objects actually stored: sums over collections, the fullest
     and emptiest collection, the worst status of any collection, and the
     primary group's figures for a container.""",
     ['histories', 'inputs'],
     """Every fill of every collection size up to 60 (120) including overfull
     ones; every history of inserts, writes, deletes and clears to depth 3 (4)
     over containers of one to three groups of differing layouts.""",
     """The tests check a few fills; thresholds and aggregation over uneven
     collections depend on the exact numbers.""",
     [S + 'collection.py', S + 'group.py', S + 'container.py'],
     [{'name': 'metadata objects', 'where': S + 'collection.py CollectionMeta,'
       ' group.py GroupMeta, container.py'}],
     ['size/usage/status properties'], HIST,
     'Bounds as stated; levels accept floating point or exact rounding.')

C = 'citrine/connection/container_connection.py'
prop('C09', 'A database connection is one map with create, update, delete',
     """Through a connection, creating stores an object under a free id and
     raises an overwrite error, changing nothing, if the id is taken; updating
     stores it in any case and returns the previous value; deleting removes it
     and returns what was removed; reading gives exactly the stored value (even
     a false-like one) or the default. Indexing with one id returns its value or
     raises KeyError, with several ids their values in order with None for
     missing ones, raising KeyError only if none exists; figures and strictness
     are those of the container.""",
     ['histories', 'configurations'],
     """Databases whose container has one to three groups with ids in several
     of them, strict and not; every history of create/update/delete over three ids and falsy values to depth 3 (4); all pairs of 63 unusual
     ids, unusual values, up to 3000 objects in one block.""",
     """The tests mock or use a single-group database with truthy values.""",
     [C, S + 'container.py'],
     [{'name': 'create/read/update/delete/indexing', 'where': C}],
     ['ContainerConnection public methods, through this and a new connection'],
     HIST, 'Bounds: 3 ids, depth 3/4, 14 initial databases.')

prop('C10', 'With autocommit each change is durable, without it none is',
     """While autocommit is on, every successful create, update and delete is
     durable and visible to new connections when the call returns, and one that
     raises (refused, or the storage fails in between) changes nothing, neither
     durably nor for the connection itself, and does not disturb later ones.
     While it is off nothing becomes durable until the transaction is
     committed, all of it does then, and aborting returns the connection to the
     durable state, which includes whether the container is strict.""",
     ['histories', 'fault_sequences'],
     """Every history to depth 4 (6) of changes, commits, aborts, switches of
     autocommit and commits refused by the storage, for each kind of
     transaction manager, strict and not; every history to depth 5 (6) of
     changes and blocks that switch strictness; the storage failing at each of
     its calls, once or from then on, while changing, committing or opening.""",
     """The tests check single successful operations; failures and switching
     are not combined, durability is not observed from elsewhere.""",
     [C, S + 'transaction.py'],
     [{'name': 'autocommit decorator and managers', 'where': S +
       'transaction.py'},
      {'name': 'autocommit property', 'where': C}],
     ['a connection opened after each step (what a restarted process reads)'],
     HIST + ', with storage faults as operations',
     'Bounds: two ids, depth 4/6; in histories the storage refuses at its '
     'vote, single changes meet a failure of any of its calls.')

prop('C11', 'A transaction block is all or nothing',
     """Changes made inside a connection's transaction block are visible to
     that connection at once and to nobody else before the block ends; if it
     ends normally all of them become durable together. If an exception leaves
     the block, or the storage fails before the end, none of them does, the
     connection sees the durable state again and the exception reaches the
     caller; either way the connection afterwards goes on to work with
     autocommit on.""",
     ['histories', 'crash_points', 'fault_sequences'],
     """Every block body of up to three changes left after any number of them,
     by its end, an exception or a refused commit; every history of blocks and
     autocommitted changes to depth 5 (7), with commits and aborts inside; the
     storage failing at each of its calls, once or from then on.""",
     """The tests run a block of one or two statements to its end.""",
     [C, S + 'transaction.py'],
     [{'name': 'block enter/exit', 'where': C + ' __enter__/__exit__'},
      {'name': 'manager enter/exit', 'where': S + 'transaction.py'}],
     ['a new connection and the connection itself, inside and after'],
     HIST + ', with every stopping point and commit fault',
     'Bounds: two ids, bodies up to 3 changes, depth 5/7.')

prop('C12', 'Concurrent connections never lose or mix up changes',
     """When several connections change a database at the same time, each
     transaction (a single autocommitted change or a block, resizing and
     condensing included) sees exactly the state committed when it began plus its own changes, and either commits as
     a whole or raises a conflict error and leaves no trace; a conflict is only
     reported if something was committed meanwhile. A committed change of an id
     is never overwritten by a transaction that began before it, two connections
     never both create the same id, and a strict container is not overfilled.""",
     ['schedules', 'programs'],
     """All schedules (begin, change and commit are the scheduling points) of
     all pairs of programs of one change or a block of 2-3, selected programs
     of two transactions and triples of single changes, resizing and condensing
     in one transaction or step by step next to anything else, over several
     initial databases, with and without merging storages.""",
     """No test opens two connections; the outcome depends on the schedule.""",
     [C, S + 'transaction.py', S + 'collection.py'],
     [{'name': 'one transaction per operation', 'where': S +
       'transaction.py autocommit'},
      {'name': 'capacity guard', 'where': S + 'collection.py'}],
     ['results of all operations and the final database'],
     'stateless model checking: exhaustive schedule exploration of real '
     'threads under a controlled scheduler',
     """All interleavings at transaction granularity (preemption bound 1 for
     triples and for movers with blocks in the quick tier).""")

exec(open(os.path.join(HERE, 'tools', 'meta_more.py')).read()) \
    if os.path.exists(os.path.join(HERE, 'tools', 'meta_more.py')) else None

NOT_APPLICABLE = []


def main():
    with open(os.path.join(HERE, 'properties.jsonl'), 'w') as f:
        for p in sorted(P, key=lambda p: p['id']):
            anchors = {'files': p['files'], 'mechanism': p['mechanism'],
                       'observe_at': p['observe'], 'hook_needed': None}
            if p['state']:
                anchors['state'] = p['state']
            f.write(json.dumps({
                'id': p['id'], 'title': p['title'],
                'statement': p['statement'],
                'quantifier': {'over': p['over'], 'text': p['text']},
                'why_tests_cant': p['why'], 'anchors': anchors},
                ensure_ascii=False) + '\n')
    checks = [{
        'property': p['id'],
        'quick_cmd': f'{PY} check.py {p["id"]} --tier quick',
        'thorough_cmd': f'{PY} check.py {p["id"]} --tier thorough',
        'technique': p['technique'], 'level': 'model_checking',
        'level_note': p['note'],
    } for p in sorted(P, key=lambda p: p['id'])]
    with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as f:
        json.dump({'version': 1, 'setup_cmd': f'{PY} check.py --selftest',
                   'checks': checks, 'not_applicable': NOT_APPLICABLE,
                   'notes': 'The checks run the code in /repo as it is; no '
                            'hooks are needed. See DESIGN.md.'}, f, indent=1)
        f.write('\n')
    for p in P:
        n = p['statement'].count('. ') + 1
        if n > 3:
            sys.exit(f'{p["id"]}: {n} sentences')
        for path in p['files']:
            assert os.path.exists('/repo/' + path), path


if __name__ == '__main__':
    main()
