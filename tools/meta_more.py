D = 'citrine/database/'
M = 'citrine/cluster_tools/dbmodule/'

prop('C13', 'A crash loses no acknowledged change and tears none',
     """If a process using a database file dies at any moment after the database
     was created, even in the middle of writing, the file opens again and holds
     exactly the changes that were acknowledged: every autocommitted operation,
     block or manual commit that had returned, nothing of one that had been
     undone, and nothing partial of the one in progress. Resizing and condensing
     are covered as well (no object is lost or changed whatever the moment),
     and the reopened database accepts and keeps further changes.""",
     ['crash_points', 'histories'],
     """Programs of one to three steps (create, update, delete, blocks, undone
     blocks, manual commits, resize, condense) on a real file, cut after every
     single byte written, without an index file or with the one left by an
     earlier clean shutdown.""",
     """The tests never end a process early; the outcome depends on the byte at
     which writing stops.""",
     [D + 'containerdb.py', C, S + 'transaction.py', S + 'container.py'],
     [{'name': 'commit per operation', 'where': S + 'transaction.py'},
      {'name': 'opening existing storages', 'where': D + 'containerdb.py'}],
     ['the contents of the database opened from the cut file'],
     'fault injection: exhaustive enumeration of torn writes (crash points) '
     'of operation histories on the real code',
     """The storage appends only, so the states a crash can leave are the
     prefixes of the file; all of them are opened. Creation of the file itself
     is not covered. Bounds: three steps, three ids.""")

prop('C14', 'Opening, reopening and closing a database keeps what it holds',
     """A container database, new or existing, on a path, a storage object or in
     memory, opened in any of the provided ways and any number of times, holds
     exactly what was committed to it before, with the strictness and capacity
     it was created with and every option given in effect; creating never silently reuses what is there and a
     database that is not a container database is refused and left unharmed.
     A block of a database always gives an open connection of its own, closed at
     the end, also when blocks are nested or used by several threads at once.""",
     ['histories', 'schedules', 'configurations'],
     """Every history of creating, opening (five ways), changing and closing a
     database file to depth 4 (5); foreign databases; storages in memory; every
     option of a database (two: thorough) and of its file for every way of
     opening; all schedules of nested blocks in up to three threads; all pairs of 63
     unusual ids in a file that is closed and opened again.""",
     """The tests open each kind of database once, in one thread.""",
     [D + 'containerdb.py'],
     [{'name': 'initialisation', 'where': D + 'containerdb.py create/load/new'},
      {'name': 'with blocks', 'where': D + 'containerdb.py __enter__/__exit__'}],
     ['connections to the database'],
     HIST + ', and exhaustive schedules of threads',
     'Bounds: one file, depth 4/5; three threads, blocks nested twice.')

prop('C15', 'Several databases are read as one',
     """Reading an id through a group of databases gives the value stored in the
     one database that has it (false-like values included) and nothing if none
     has it; if several have it, a plain read reports the duplicate instead of
     choosing one, while asking for all values gives exactly one value per
     database that has the id. This holds with and without a time limit and
     for any number of databases, and each connection uses the options given
     for it in place of the common ones.""",
     ['inputs', 'configurations'],
     """Every assignment of absence or one of three values to up to three (four)
     databases, with and without time limit, with default, shared and individual
     transaction managers.""",
     """No test covers the group connection.""",
     ['citrine/connection/group_connection.py'],
     [{'name': 'reading', 'where':
       'citrine/connection/group_connection.py'}],
     ['GroupReadConnection.read'],
     'exhaustive enumeration of a finite input space on the real code, '
     'against the values stored',
     'Bounds: up to four databases. Time limits are never reached.')

prop('C16', 'The legacy container keeps objects across growth',
     """A legacy container of any number of parts finds every object written
     under an id until it is deleted, gives the latest value written, counts
     its objects, and raises KeyError when deleting what is not there. Growing
     it keeps every object reachable, and shrinking it is refused.""",
     ['histories'],
     """Every history of writes, deletes and expansions to depth 4 (5), from one and three parts, ids of different types; all pairs of 63 unusual
     ids and of 50 unusual values.""",
     """No test covers the legacy container.""",
     ['citrine/persistence.py'],
     [{'name': 'DbContainer', 'where': 'citrine/persistence.py'}],
     ['has, read, size'], HIST, 'Bounds: four ids, depth 4/5, up to 8 parts.')

prop('C17', 'Deleting a database module removes only what belongs to it',
     """Creating a database module makes a directory of the given name (or
     of a new one if none is given) that is
     recognised as a module, is discoverable unless not asked for, and opens as
     a database of that name, its own, keeping what is stored in it; an existing directory
     is only replaced if overwriting was asked for. Deleting a module removes
     its own files and nothing else: other files in the directory, modules and
     files with similar names and everything outside remain (the directory
     itself goes only if asked for and empty but for the module's compiled
     form, or with everything in it if that was asked for), however its path is written. A group of modules always
     lists exactly the modules there are, each usable by its name, with the
     size of what it stores.""",
     ['histories', 'inputs'],
     """Every history of creating (also over existing ones), adding foreign
     files, using, deleting (every option and form of path) and discovering
     modules with similar names to depth 4 (5), the whole directory tree being
     compared after each step, with and without compiled bytecode; histories of a group of modules to depth 4 (6)
     and of modules of the same name in several directories to depth 6 (8);
     modules among every pair of 20 kinds of files that are not theirs (deleted
     in each way or replaced), and every choice of arguments given.""",
     """No test covers the module tools; what is deleted depends on names and
     on what happened before.""",
     [M + 'dbmodule.py', M + 'dbgroup.py'],
     [{'name': 'creating and deleting', 'where': M + 'dbmodule.py'},
      {'name': 'module groups', 'where': M + 'dbgroup.py'}],
     ['the directory tree, discovery and the databases themselves'],
     HIST,
     """Runs as an unprivileged user on a scratch directory, changes elsewhere
     are intercepted. Depth 4/5.""")

prop('C18', 'Registries stored in a database keep every change',
     """A module registry or legacy container stored in a database, whether
     created empty or from given (plain or persistent) mappings, keeps exactly
     the changes made before a commit: later connections find all of them, and
     none of those that were aborted.""",
     ['histories'],
     """Every history of writes, deletes, expansions, commits and aborts to depth
     4 (6), for each way of creating it, seen from the connection and a new one after each step; all pairs of 63
     unusual names.""",
     """No test stores a registry; whether a change is noticed depends on how
     the registry was created and on the order of changes and commits.""",
     ['citrine/cluster_tools/clusterdb/container.py', 'citrine/persistence.py'],
     [{'name': 'ClusterRegistryContainer', 'where':
       'citrine/cluster_tools/clusterdb/container.py'},
      {'name': 'DbContainer', 'where': 'citrine/persistence.py'}],
     ['has and read, from this and a new connection'], HIST,
     'Bounds: two ids written, depth 4/6.')

prop('C29', 'Clients of a database server share one consistent database',
     """Clients connected to a server see each committed change of every other
     client once synchronized, nothing of an undone block or of a change made
     while the server was away, and exactly these changes are in the database of
     the server afterwards; the first client of
     a new storage sets it up (with the strictness it asked for) and later ones,
     whatever they ask for, use what is there without changing it. Overlapping
     blocks of clients commit, or conflict and leave nothing behind; the
     storages of one server stay apart, a read-only client changes nothing,
     options given take effect, and a client refuses to create database files.""",
     ['histories', 'configurations', 'fault_sequences'],
     """A real server on the loopback network with two clients, new or existing
     storage, strict or not: every program of one to three (four) steps, each by
     either client; two storages of one server, a read-only client, and every
     overlap of two one-operation blocks of two clients; each option given; a
     server that is away while changes and blocks are tried or ended.""",
     """No test covers the client.""",
     ['citrine/client/container_client.py'],
     [{'name': 'ContainerClient', 'where':
       'citrine/client/container_client.py'}],
     ['both clients and the file of the server'], HIST,
     'Bounds: two clients, one to three (four) steps, two overlapping blocks of '
     'one operation (C12 covers overlapping transactions in depth).')

J = 'jsonld/'
A = 'activitystreams/'
CASES_T = """Exhaustive enumeration of a bounded space of inputs and histories
on the real code, each compared with a reference model."""

prop('C19', 'A contextual property does what the context of its object says',
     """Reading, assigning or deleting a contextual property of an object uses
     the getter, setter or deleter registered for the context the object is in
     at that time, the default one if there is none for that context, and
     raises AttributeError if there is neither. Contexts of an object nest,
     leaving one (normally or by an exception, which is passed on) restores the
     one before, and objects do not affect each other. Deriving a property with
     another default getter, setter or deleter keeps everything else and leaves
     the original as it was; iterating over an object or selecting properties
     by name gives the values its getters give, a KeyError for other names.""",
     ['histories', 'configurations'],
     """Every history of entering and leaving contexts and of assigning and
     deleting, on two objects, to depth 3 (6 for some), for every choice of
     registered getters and several of setters and deleters; every chain of up
     to two (three) derivations, with its documentation.""",
     """No test covers it; what applies depends on the nesting at the time and
     on how the property was made.""",
     [J + 'base.py'],
     [{'name': 'ContextualProperty', 'where': J + 'base.py'},
      {'name': 'JsonContextAwareManager', 'where': J + 'base.py'}],
     ['reading, iterating, selecting, and what the functions recorded'], HIST,
     'Bounds: two objects, contexts A, B, an unknown one and None, depth 3/6.')

prop('C20', 'Writing an object gives exactly its properties',
     """The data or JSON of an object contains exactly its properties that have
     a value (all, if None is asked for), as their getters give them for
     output, under their JSON-LD names unless renamed, restricted to included
     and without excluded properties and rejected values; plain values stay
     what they are, iterables become lists, and objects embedded at any depth
     are written likewise, without their processing context. JSON, minified or
     indented, parses to the same data. Writing, also when a getter fails,
     changes nothing about any object or its context.""",
     ['inputs', 'configurations'],
     """Every value of a domain (plain, nested, embedded up to three deep) in
     every property with every one of 15 choices of options, pairs of values,
     all included and excluded sets of up to three properties (all), all
     renamings of pairs, failing getters at every place.""",
     """No test covers writing.""",
     [J + 'jsonld.py', J + 'base.py', J + 'utils.py'],
     [{'name': 'PropertyJsonLD.data and json', 'where': J + 'jsonld.py'}],
     ['data, json, str, and the object afterwards'], CASES_T,
     """Seven properties, 26 values, 15 options. Known finding: the documented
     parameter transforms is ignored.""")

prop('C21', 'Documents survive loading and writing',
     """An Activity Streams document loaded by an engine becomes an object of
     the class of its type with each value it contains (numbers, texts, times
     as the same moment, links, embedded objects of their own classes at any
     depth, in order in lists), and writing it gives an equivalent document:
     every property with the same value, links as addresses, times as the same
     moment, the same type and context; a collection without totalItems gets
     the number of items listed, and iterating over it gives its items. Creating
     the same object in code gives the same document, loading what was written gives the same again, and the
     data given is not changed.""",
     ['inputs'],
     """Every type with every property in every form (about 5000 documents),
     pairs of properties (of 6 types; of all), complete documents, every type
     embedded in every reference, chains of embedded objects, and the examples
     of the specification: about 29000 (190000) documents.""",
     """No test loads a document; what is kept depends on the type, the
     property, the form of its value and the other properties.""",
     [A + 'models.py', A + 'properties.py', A + 'package.py',
      J + 'engine/json_input.py'],
     [{'name': 'from_json', 'where': J + 'engine/json_input.py'},
      {'name': 'models', 'where': A + 'models.py'},
      {'name': 'properties', 'where': A + 'properties.py'}],
     ['classes and values of the object, its data and JSON'], CASES_T,
     """Against an independent table of the vocabulary. Out of scope: extension
     properties, language maps, several types, untyped embedded data, links
     with more than an address (only that is written).""")

prop('C22', 'The type of data decides its class',
     """Data loaded by an engine, from text or as a dict, becomes an instance of
     the class registered for its type as its JSON-LD context defines it,
     however the type is written (term, alias, prefix, full name, in a list,
     other keyword; the first of several) and wherever it is embedded, and never
     of another engine's class; data of an unknown type is refused with ValueError (embedded, it is
     no object) unless a default class is registered. A name can be registered
     only once, later attempts change nothing. Selecting from an engine by one
     text or a list or tuple of texts loads each into an object of its own, in order, and anything else
     is a TypeError.""",
     ['inputs', 'histories'],
     """Every way of writing types (terms, aliases, redefinitions, prefixes,
     full names) in 8 contexts at 5 places with each keyword, all 54 types of
     the vocabulary; every history of registrations to depth 3 (5); two engines
     used in every order.""",
     """No test loads data; the class depends on the expansion by the context,
     and on what was registered before.""",
     [J + 'engine/json_input.py', J + 'engine/jsonld_engine.py'],
     [{'name': '_get_object_class', 'where': J + 'engine/json_input.py'},
      {'name': 'register_class, __getitem__',
       'where': J + 'engine/jsonld_engine.py'}],
     ['classes of what is loaded'], CASES_T, 'Bounds: see technique.')

prop('C23', 'Packages have their own copies of classes, related as before',
     """Whatever classes a package is made of, in whatever order they are
     listed, it has one copy of each, with the same name, namespace, attributes (nested classes, callable values),
     methods, static methods and properties, derived from the copy of another exactly if the
     originals are; properties linked to a class are on its copy and those
     derived from it, and nowhere else. The originals, and other packages of
     them, do not change. An object of an original class that a property or
     method of the package returns, alone or in lists, becomes an object of the
     copy with its values kept; other objects stay what they are.""",
     ['configurations', 'inputs'],
     """Every hierarchy of up to four classes with multiple inheritance, every
     order of every part of it, with and without overridden methods and linked
     properties (29000 packages); original objects returned by every class of
     hierarchies of up to three (four); the vocabulary itself.""",
     """No test creates a package; the copies depend on the whole hierarchy and
     the order it is listed in.""",
     [J + 'kamino.py', J + 'package.py', J + 'base.py'],
     [{'name': 'ClassCloner', 'where': J + 'kamino.py'},
      {'name': 'JsonLdPackage', 'where': J + 'package.py'}],
     ['class relations, attributes, methods, properties, data'], CASES_T,
     'Bounds: four classes; objects one package deep. Open: what class methods return.')

prop('C24', 'Packages and engines combine to exactly what they contain',
     """The sum of packages has the classes, properties and links of both, those
     of the right one where both have a name; a difference has those of the
     left whose names the right one does not have; classes kept together stay
     related, linked properties are those of the result, and the packages
     combined stay what they are; linking or removing a property later shows at
     once in the classes concerned, those derived from them and their objects,
     with all functions and the documentation of the property. Engines made of several packages, or adding or
     subtracting packages or engines, load exactly the data of the classes they
     then have, with these classes. Anything else is refused with TypeError, as
     are links to classes or properties a package lacks, and property classes
     without exactly one property, with ValueError.""",
     ['histories', 'configurations'],
     """Every sum and difference of up to three (four) packages with names in
     common, each intermediate result checked at the end; engines of one or two
     (three) packages extended and reduced by every package and pair, twice;
     every history of linking and removing properties to depth 3 (4).""",
     """No test combines packages; mistakes show only for names in common, and
     some only after another operation.""",
     [J + 'package.py', J + 'engine/jsonld_engine.py'],
     [{'name': '__add__ and __sub__ of packages', 'where': J + 'package.py'},
      {'name': '__add__ and __sub__ of engines',
       'where': J + 'engine/jsonld_engine.py'}],
     ['classes, properties, values, and loading data of all types'], CASES_T,
     """Open: whether a class keeps a property once linked whose property class
     was subtracted.""")

prop('C25', 'Reading a single link gives the object behind it, or the link',
     """Reading a property that holds a single link gives what is at its
     address at that time, loaded by the engine of the link (of the object, if
     it has none), and its own links can be followed likewise; if anything goes
     wrong (no answer, no JSON, no or unknown type, values out of range) it
     gives the link itself. Links in lists, mentions and objects are given as
     they are, without a request. Writing never makes a request and gives the
     address.""",
     ['histories', 'fault_sequences'],
     """Every history of assigning 12 kinds of values to a property of 4 types
     and of two pages appearing, changing and disappearing to depth 3 (4), read
     twice and written at each step; every linking property with every kind of
     value and of answer (14, most of them failures).""",
     """No test covers links; the answer may change or fail at any time.""",
     [A + 'models.py', A + 'properties.py', J + 'utils.py'],
     [{'name': 'Link.get, expand, href_only', 'where': A + 'models.py'}],
     ['values read, requests made, documents written'], CASES_T,
     'All requests are answered by a stand-in; nothing leaves the sandbox.')

prop('C26', 'Properties refuse values outside their range',
     """Each property of each Activity Streams type accepts exactly values in
     the range the vocabulary gives it (objects or links, pages, collections,
     texts, numbers, non-negative integers, times; lists unless it is
     functional, each member being in the range), by assignment, construction
     or loading; anything else is refused with ValueError, and the object stays
     as it was. What was accepted is what reading gives (addresses as links,
     times as the moment), None clears it, and other properties are not
     affected.""",
     ['inputs', 'histories'],
     """Every property with each of 49 values, with and without a previous one;
     refusals; every sequence of two (for some three) assignments; loading,
     also embedded: about 70000 (1.2 million) cases.""",
     """No test covers the vocabulary.""",
     [A + 'properties.py', J + 'tools/type.py', J + 'tools/number.py'],
     [{'name': 'SetterValidator', 'where': J + 'tools/type.py'},
      {'name': 'properties', 'where': A + 'properties.py'}],
     ['values read, errors, the document written'], CASES_T,
     """Nothing is said about booleans as numbers, addresses of replies, texts
     of durations, and untyped dicts for some properties.""")

prop('C27', 'Times and durations keep their meaning',
     """A time given to a property as text (date, hours and minutes, optional
     seconds and fraction of up to six digits, Z or an offset) or as a datetime
     (UTC if it has no zone) is read, written and loaded again as the same
     moment, and any other text is refused with ValueError. A duration given as
     a timedelta, also negative, zero or fractional, is written as a valid
     duration of the same length (a year being 365 days, a month 30).""",
     ['inputs'],
     """All combinations of 35 dates, 4 clock times, 4 seconds, 11 fractions and
     11 zones; every text one character away from three of them; datetimes with
     8 offsets; durations over days -800..800 (-4000..4000) with 66 times of day
     each, and all (every seventh) seconds of days.""",
     """No test covers them; mistakes show for single fields, digits, signs.""",
     [J + 'tools/datetime.py', A + 'properties.py'],
     [{'name': 'parse_activitystream_datetime, datetime_str, timedelta_str',
       'where': J + 'tools/datetime.py'}],
     ['values read, texts written'], CASES_T,
     'Years 1000 to 9999; leap seconds are left open.')

prop('C28', 'Only acceptable addresses are used, and documents are kept',
     """An address is acceptable exactly if it has the scheme https (or http,
     unless secure ones are asked for) and a host of letters, digits, dots,
     colons, hyphens and underscores; a document loader requests a document only
     from an acceptable address and otherwise, and for any failure, raises
     JsonLdError. A caching loader requests each document once and then always
     gives what it got, for all caching loaders, but a failure is not kept;
     other loaders ask each time. The document comes with its address, content
     type, linked context (more than one is an error, none counts for JSON-LD)
     and alternate, as its headers say; jsonld_get asks once, accepting linked
     data unless told otherwise, and gives the document or the response.""",
     ['inputs', 'histories', 'fault_sequences'],
     """Every host of up to two (three) characters out of 15 with 8 schemes and
     5 endings; every history of five loaders and twelve addresses whose
     documents come, change, break and go to depth 3 (4); all combinations of
     content types and link headers.""",
     """No test covers addresses or loaders; what is given depends on the
     requests and failures before.""",
     [J + 'docloader.py', J + 'tools/url.py', J + 'engine/utils.py'],
     [{'name': 'CachedRequestsJsonLoader', 'where': J + 'docloader.py'},
      {'name': 'validate_url', 'where': J + 'tools/url.py'}],
     ['results, errors, requests made'], CASES_T,
     """Requests are answered by a stand-in. Open: whether a secure loader may
     give a document an insecure one cached before.""")

prop('C30', 'Connections of legacy databases keep and show what was committed',
     """A connection to a database that keeps its objects in a DbContainer is a
     map from ids to values: create and update store, delete removes (KeyError
     for an unknown id), read and indexing by an id or an iterable of ids give
     the values or None, a slice is a TypeError. Every change is
     committed at once, and other and later connections see exactly what was
     committed, unless it is made in a with-block of the connection,
     which commits if it ends normally and undoes everything if it or the
     storage fails, or
     while auto_transaction is off, when commit or abort decide. Transactions of
     several connections at the same time commit as a whole without undoing
     each other's changes or conflict, and for both
     transaction managers expand_containers adds
     containers without losing or moving anything out of reach, refusing a
     number below one with ValueError, size and num_containers count, and setup
     makes a container only if there is none.""",
     ['histories', 'fault_sequences'],
     """Every history to depth 3 (4) of creations, updates and deletions with
     three ids, blocks that end or fail, manual commits and aborts, expansions,
     setup again and changes of another connection, for both transaction managers and databases new or with two containers;
     all pairs of 63 unusual ids, unusual values, up to 3000 objects in
     one block; all schedules of pairs of programs of two connections; the
     storage failing at each of its calls.""",
     """The tests use stand-ins for each part, so what a connection does with
     them together is not covered.""",
     ['citrine/connection/connection.py', 'citrine/persistence.py'],
     [{'name': 'CitrineConnection',
       'where': 'citrine/connection/connection.py'}],
     ['values read, exceptions, sizes'], CASES_T,
     'Databases in memory; two connections at the same time.')

prop('C31', 'Connections to the past see exactly what was committed then',
     """A connection opened at a past transaction (from a database, a database
     module or as part of a group) sees exactly the ids and values there were
     after that transaction, one opened before it those of the transaction
     before, and size agrees. It keeps seeing them for as long as it is open,
     whatever is changed, removed, resized or undone afterwards, and also after
     the database was closed and opened again. Changing anything through
     it is refused with a read-only error and changes nothing, and giving
     both moments at once is a ValueError.""",
     ['histories'],
     """Every history to depth 3 (4) of creations, updates, deletions, blocks
     that end, fail or do nothing, resizes and restarts, for databases in
     memory, over another storage, in files and of modules; after each step
     connections kept since every earlier transaction and new ones at and
     before each.""",
     """No test opens a connection to the past; what it reads depends on all
     that was done since.""",
     ['citrine/database/containerdb.py', 'citrine/cluster_tools/dbmodule/'
      'dbmodule.py', 'citrine/connection/group_connection.py'],
     [{'name': 'ContainerDb.open',
       'where': 'citrine/database/containerdb.py'},
      {'name': 'ContainerConnection.__init__',
       'where': 'citrine/connection/container_connection.py'}],
     ['values read, sizes, exceptions'], CASES_T,
     """Moments are given as transaction ids, not as times. Open: packing,
     which forgets the past, and moments before there was a container.""")
