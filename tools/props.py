# The properties, and what the checks of each claim. gen.py turns this into
# properties.jsonl and MANIFEST.json.

PATHS = ("path-sensitive abstract interpretation (typestate dataflow) of the type-checked SSA, "
         "helpers inlined, loops summarised to a fixed point")
ROWFILES = ["table.go", "table_unsafe.go", "index.go", "batch.go", "bond.go"]
NOTE = ("Every path of the functions named in the evidence is interpreted abstractly, including every "
        "failure of every storage, serializer and index call on it; loops are run to a fixed point. "
        "Trusted: Go's type checker and SSA builder, the models of library calls in checker/, and that "
        "user functions (keys, filters, serializers) and Pebble do what their documentation says.")

PROPS = [
 dict(id="C01", title="Acknowledged writes are synced to disk",
  statement="When an insert, update, upsert, delete (their unsafe variants included) or reindex is called without a batch and reports success, every row and index entry it wrote has been committed, and committed with a synchronous flush. A write or commit that asks for a synchronous flush is handed to the storage engine as one, and the write-ahead log is never switched off.",
  over=["crash_points", "inputs", "configurations"],
  quant="every table, batch size and set of rows; every point at which the process may die after the call returned",
  why="Tests never lose unsynced data: a missing commit on one path or an asynchronous commit leaves every read in the same process unchanged.",
  files=ROWFILES + ["options.go", "options_medium_perf.go"],
  mech=[("internal batch committed with Sync before nil is returned", "table.go, table_unsafe.go"), ("write options translated to the engine's", "options.go"), ("batch commit passes its option on", "batch.go")],
  technique=PATHS + "; constant and flow checks of the option translation", level_note=NOTE),
 dict(id="C02", title="A write call is one atomic batch",
  statement="Everything one insert, update, upsert or delete call writes, rows and index entries, goes into one batch: the caller's if one is given, which the call never commits, applies, resets or closes, and otherwise an internal one that is committed once, after the last write. A call that returns an error has committed nothing.",
  over=["inputs", "crash_points", "fault_sequences"],
  quant="every set of rows, every failing storage or serializer call, with and without the caller's batch",
  why="Tests see only the final state of successful calls; a row written directly, a second batch or a commit before a failing step needs a crash or a fault at one point to show.",
  files=ROWFILES,
  mech=[("external or internal batch, commit at the end", "table.go Insert/Update/Delete/Upsert, table_unsafe.go")],
  technique=PATHS, level_note=NOTE),
 dict(id="C03", title="Every row change updates every secondary index",
  statement="Whenever a write call stores, replaces or removes a row, it also has every secondary index of the table add the new row, move from the row that was stored to the new one, or drop the row that was stored, in the same batch. Reindexing puts every row of the table into each of the indexes it was given.",
  over=["inputs", "histories"],
  quant="every set of rows, stored state and set of indexes; the failing paths excluded",
  why="Tests use few indexes and rows that change in few ways; an index entry computed from the wrong old row is only noticed by a query on that index for that value.",
  files=["table.go", "table_unsafe.go", "index.go"],
  mech=[("index callbacks after each row", "table.go Insert/Update/Delete/Upsert/ReIndex, table_unsafe.go")],
  technique=PATHS, level_note=NOTE),
 dict(id="C04", title="An index holds exactly the entries of the rows it accepts",
  statement="For a row an index accepts, the index adds its entry on insert and removes it on delete. On update it removes the entry of the old row if it accepted that one and adds the entry of the new row if it accepts that one, except that it may leave an entry that is the same for both; for rows it does not accept it touches nothing. The entry written and the entry removed are each computed from the row they belong to.",
  over=["inputs"], quant="every combination of rows, filter verdicts and equal or different entries, with and without buffers",
  why="Tests update a few fields of rows the index accepts; the verdict changing between old and new row, or two keys built in one buffer, are rare.",
  files=["index.go", "keys.go"], mech=[("truth table of index maintenance", "index.go OnInsert, OnUpdate, OnDelete")],
  technique=PATHS, level_note=NOTE),
 dict(id="C05", title="Insert only adds rows, update only replaces them",
  statement="Insert writes a row only after it established that no row is stored under its key, and update only after it established that one is. Upsert writes what the conflict function made of the stored row and the given one when a row is stored, and the given row itself when none is.",
  over=["inputs", "histories"],
  quant="every mixture of present and absent keys, with and without a membership filter",
  why="Tests use a handful of mixtures; the decision depends on key order, on the iterator position and on the filter.",
  files=["table.go"], mech=[("seek and compare before each write", "table.go Insert, Update, Upsert")],
  technique=PATHS, level_note=NOTE),
 dict(id="C06", title="Rows given twice in one call have a defined outcome",
  statement="If rows of one call have the same key, insert fails, update stores the one given last, and upsert combines all of them with the conflict function in the order they were given.",
  over=["inputs"], quant="every order and multiplicity of keys in a call",
  why="It needs particular multiplicities at particular places in key order; unstable sorting only shows from thirteen rows on.",
  files=["table.go"], mech=[("stable sort of the keys and comparison with the neighbour", "table.go sortKeys, keyDuplicate")],
  technique=PATHS, level_note=NOTE),
 dict(id="C07", title="Reads inside a call go through the given batch",
  statement="A write call given a readable batch decides existence and reads old rows through that batch. A read call given a batch reads everything through it: rows, index entries and scans.",
  over=["inputs", "histories"],
  quant="every history of uncommitted changes in the batch; every operation that takes a batch",
  why="Each operation has its own reads; tests pass a batch to some operations with some selectors only.",
  files=["table.go", "index.go", "query.go", "bond.go"], mech=[("optional batch passed to each read", "table.go, index.go, query.go")],
  technique=PATHS, level_note=NOTE),
 dict(id="C08", title="A failed read is never taken for absence",
  statement="Where an operation that can report an error looks for a row and finds none, it distinguishes that from a read that failed: a read error is returned as such, and no row is written or reported missing because of it.",
  over=["fault_sequences", "inputs"], quant="every read error at every read of an operation",
  why="No test injects read errors.",
  files=["table.go", "table_unsafe.go", "index.go"], mech=[("iterator error looked at after an unsuccessful seek", "table.go")],
  technique=PATHS, level_note=NOTE),
 dict(id="C09", title="Cancelled operations stop and say so",
  statement="A write call, a scan and an intersection look at their context before each row they process, process no row after they found it cancelled, and then return an error.",
  over=["schedules", "inputs"], quant="cancellation at every moment of every write call, scan and intersection",
  why="Tests cancel before the call or not at all.",
  files=["table.go", "table_unsafe.go", "index.go"], mech=[("select on the context's channel in each loop", "table.go, table_unsafe.go, index.go")],
  technique=PATHS, level_note=NOTE),
 dict(id="C10", title="A scan delivers every entry once, in order, with its row",
  statement="A scan hands every entry of the selection to the callback exactly once, in the scan's direction, with the entry's key and that entry's row, whatever rows the callback reads and however entries are read ahead. It stops when the callback says so or fails and returns the callback's error; otherwise it succeeds only at the iterator's end. A scan into a slice adds every row, in that order, or returns an error.",
  over=["inputs", "histories"], quant="every number of entries, read-ahead size, direction, and pattern of row reads by the callback",
  why="Entries are read ahead only when the callback asks for a row, in batches whose size depends on the table; tests use a few sizes and always read every row.",
  files=["table.go", "lazy.go"], mech=[("read-ahead batches", "table.go scanForEachSecondaryIndex"), ("plain scan", "table.go scanForEachPrimaryIndex"), ("collecting scans", "table.go ScanIndex")],
  technique=PATHS, level_note=NOTE),
 dict(id="C11", title="A query returns the rows it asks for, no more and no less",
  statement="Of the rows that the scan of its selection in its direction, or the intersection with its other queries' selections, yields, a query returns those that pass its filter, sorted by its order if it has one, from behind the After row on, without the first offset rows, and at most limit rows; these are applied in this order, once each. Without an order, the scan for a query with an After row starts at that row. Intersecting with a query that has a filter, order, After row, offset, limit or intersections of its own fails.",
  over=["inputs"], quant="every combination of filter, order, direction, After row, offset, limit and intersections, and every number of rows",
  why="Offset and limit are applied in different places depending on the other options; tests try a few of the combinations.",
  files=["query.go"], mech=[("scan with early offset and limit", "query.go executeQuery"), ("intersections", "query.go executeIntersect"), ("selection from the After row on", "query.go selectorWithAfter")],
  technique=PATHS, level_note=NOTE),
 dict(id="C12", title="Building on a query leaves the query it started from as it was",
  statement="Each builder call of a query (With, Filter, Order, Reverse, Offset, Limit, After, Intersects) returns a query that differs from the one it is called on only in what the call names, and leaves that one and all queries built from it as they were. A new query is one of all the table's rows by the primary index, without filter, order, After row, offset, limit or intersections.",
  over=["histories"], quant="every chain of builder calls, with several queries built from a common start",
  why="Sharing shows only when two queries are built from one that already has intersections, and both are run.",
  files=["query.go", "table.go"], mech=[("value receivers", "query.go"), ("own list of intersections", "query.go Intersects")],
  technique=PATHS, level_note=NOTE),
 dict(id="C13", title="An index iterator covers exactly the selected entries",
  statement="The iterator an index opens for a selector runs over this table's and this index's entries only: for a point, the entries of that index key at or after the point's own; for a range, every entry from the lower row's to the upper row's, both included; for several points or ranges, the same for each, in the order given. An unknown selector yields an iterator that reports an error, no selector yields entries of another index or table, and a scan or query without a selector starts at the first row. A selector selects what it was made with, or set to last.",
  over=["inputs"], quant="every selector, index number, table number and key content, including keys and numbers that end in 0xff",
  why="Tests use a few low-numbered indexes and short keys; the ends of the key space and inclusive ends need particular bytes.",
  files=["index.go", "keys.go"], mech=[("bounds of each selector", "index.go Iter"), ("smallest key above all keys with a prefix", "keySuccessor")],
  technique=PATHS, level_note=NOTE),
 dict(id="C14", title="A multi-range iterator walks all ranges and frees its buffers once",
  statement="An iterator over several ranges visits every range, forwards from First and Next and backwards from Last and Prev, skipping empty ranges, and reports the end only after the last range or on an error. It has one engine iterator open at a time, which is the one it answers for, and closes each. Closing it, or a plain iterator, frees the buffers of the bounds after the engine's iterators are closed, and each buffer once, however often it is closed.",
  over=["inputs", "histories"], quant="every number of ranges, empty or not, every sequence of moves, every failing engine iterator",
  why="Tests go forwards over ranges with rows; a buffer returned twice corrupts an unrelated operation later.",
  files=["iter.go"], mech=[("range switching", "iter.go _iteratorMulti"), ("release on close", "iter.go _iterator.Close, _iteratorMulti.Close")],
  technique=PATHS, level_note=NOTE),
 dict(id="C15", title="Iterators, batches and read handles are always closed",
  statement="Every iterator, batch and read handle an operation opens is closed on every path, or handed to the caller as the result.",
  over=["inputs", "fault_sequences"], quant="every path, including every failing call and cancellation",
  why="A leaked iterator pins memory and blocks closing the database, but only on the early exits that tests do not take.",
  files=["table.go", "table_unsafe.go", "index.go", "query.go", "bond.go", "table_utils.go", "dump.go"], mech=[("deferred and explicit closes", "throughout")],
  technique=PATHS, level_note=NOTE),
 dict(id="C17", title="Batch and database callbacks run at their moment",
  statement="Committing or applying a batch first calls its commit callbacks, writes nothing and returns the error if one refuses, and after the write calls its committed callbacks if it succeeded or its error callbacks if it failed, never both. Closing a batch or the database calls the close callbacks first. Every callback registered on that batch is called, in the order of registration and once each; resetting a batch forgets its callbacks and writes and gives it a new number.",
  over=["inputs", "fault_sequences", "histories"], quant="every number of callbacks, refusing callbacks and failing engine steps",
  why="Tests register one callback of a kind and never make the engine's commit fail.",
  files=["batch.go", "bond.go"], mech=[("callback lists and notifications", "batch.go"), ("close callbacks", "bond.go Close")],
  technique=PATHS, level_note=NOTE),
 dict(id="C16", title="What goroutines share is only touched under its lock",
  statement="A table's secondary indexes, a synchronised batch's batch, filter buckets, the id sequence and the buffer pools are read and changed only under their lock, held exclusively by whoever changes them, whatever exported functions run at once. Every lock taken is released on every path out of the function that took it, and none is taken again while held.",
  over=["schedules"], quant="every pair of exported functions running at the same time, every path through them",
  why="A race needs two goroutines at one place at one moment; the tests run nearly everything in one goroutine and without the race detector.",
  files=["table.go", "sync.go", "helpers.go", "utils/sync.go", "filter.go", "bloom/bloom_filter.go", "table_unsafe.go"],
  mech=[("the table's read-write lock", "table.go"), ("lock around the batch", "sync.go"), ("filter and bucket locks", "bloom/bloom_filter.go")],
  technique="lockset analysis: " + PATHS + "; pairs of accesses to a shared field must share a lock", level_note=NOTE),
 dict(id="C18", title="Sequence ids are unique and strictly increase",
  statement="Each id a NumberSequence hands out is greater than every id it handed out before, whatever the clock does, and goroutines that ask at once get different ids. An id's time and sequence parts are the ones it was made from: the sequence part never overflows into the time.",
  over=["schedules", "inputs", "histories"], quant="every clock reading, including a clock that stands still or goes back, and any number of ids per tick",
  why="Tests draw a few ids in one goroutine; an overflow or a step back of the clock does not occur.",
  files=["helpers.go"], mech=[("time and sequence in one word, under a mutex", "helpers.go NumberSequence")],
  technique=PATHS + "; interval and bit-layout facts", level_note=NOTE),
 dict(id="C19", title="A pool hands an item to one user at a time",
  statement="An item that a preallocated buffer pool returned is not returned again until it was put back. An item put back is returned at most once, and a nearly empty or full pool neither blocks nor loses an item that is in it.",
  over=["schedules", "histories"], quant="every sequence of gets and puts by any number of goroutines",
  why="Two users of one buffer corrupt each other's keys only when they overlap.",
  files=["utils/sync.go"], mech=[("locked free list with fallback", "utils/sync.go PreAllocatedPool")],
  technique=PATHS + "; lockset analysis", level_note=NOTE),
 dict(id="C20", title="Keys are laid out alike wherever they are made and read",
  statement="Wherever the database builds a key, it is made of the table's number, the index's number, the length of the index key and the index key, the index order and the primary key, in that order and whole; wherever it takes a key apart, each part is read from where it was put. Scan bounds are prefixes of these keys, and a row's key made from an index entry has that entry's primary key. The store compares keys byte by byte and splits them behind the index key.",
  over=["inputs"], quant="every table and index number, index key, order and primary key",
  why="A builder and a reader that disagree do so only for some lengths of index keys, or in one of the many places where keys are made.",
  files=["keys.go", "table.go", "index.go", "utils.go", "bond.go"], mech=[("encoding and decoding", "keys.go"), ("split", "keys.go _KeyPrefixSplitIndex")],
  technique=PATHS + "; byte-content domain with symbolic lengths", level_note=NOTE),
 dict(id="C21", title="Encoded numbers sort like the numbers",
  statement="The bytes that a key builder writes for an int16, int32, int64, uint16, uint32, uint64 or byte compare like the numbers, for all values; index orders written descending compare the opposite way. Fields of a key are numbered consecutively, byte and string fields contain what was given, and what was given is not changed.",
  over=["inputs"], quant="every value of every fixed-size integer type, in both directions",
  why="Values at the borders of sign and width are the ones that sort wrongly; tests compare a handful.",
  files=["keys.go", "index.go"], mech=[("sign byte and big-endian number", "keys.go Add*Field"), ("complement for descending orders", "index.go Order*")],
  technique=PATHS + "; exact piecewise-linear analysis of the encoded integers over their whole range", level_note=NOTE),
 dict(id="C23", title="A filter hides no row it was told about",
  statement="Every new key a table stores is added to the table's filter before the call succeeds; where a filter is asked, it is asked about the key that is looked up, and a key it may contain is then looked up in the store. A filter that can be initialised says that it may contain every key until it is; initialisation succeeds only after the filter was loaded or the key of every row of every given table was added, and keys added meanwhile reach it.",
  over=["inputs", "histories", "fault_sequences"], quant="every write and lookup of every table with a filter, before, during and after the filter's initialisation",
  why="A key missing from the filter shows only when that key is looked up, and a wrong answer by a bloom filter looks like chance.",
  files=["table.go", "table_unsafe.go", "filter.go"], mech=[("keys added on insert, asked on lookup", "table.go, table_unsafe.go"), ("initialisation", "filter.go FilterInitialize, FilterInitializable")],
  technique=PATHS, level_note=NOTE),
 dict(id="C24", title="A bloom filter finds every key that was added",
  statement="After a key was added to a bloom filter, the filter says that it may contain it: both look at the same bucket, which depends on nothing but the key and the fixed layout, and no operation removes bits or replaces a bucket. A bucket is marked as changed whenever adding a key changed it, and buckets and filter are used under their locks.",
  over=["inputs", "schedules", "histories"], quant="every key, number of buckets, and interleaving of adds, lookups, loads and saves",
  why="A hasher that is not reset, or shared, changes buckets only when another key was hashed by it before or at once.",
  files=["bloom/bloom_filter.go"], mech=[("bucket by consistent hash, pooled hashers", "bloom/bloom_filter.go hash, HashBytes"), ("bucket locks", "bloom/bloom_filter.go")],
  technique=PATHS + "; lockset and effect analyses", level_note=NOTE),
 dict(id="C25", title="A saved bloom filter is loaded complete or not at all",
  statement="A save that succeeds has stored the number of buckets and, completely and under a key of its own, every bucket that changed since it was last stored or was never stored; only then is a bucket marked as stored. A load that succeeds found the same number of buckets and added the stored content of every bucket, from the keys a save uses; the handles it reads from are closed. Clearing removes everything a save stored, whatever prefix the keys have, and nothing that does not begin with it.",
  over=["inputs", "fault_sequences", "histories"], quant="every number of buckets, history of saves and loads, and failing storage or compression step",
  why="The tests save and load whole filters without faults; a bucket left out shows as a missing key after a restart.",
  files=["bloom/bloom_filter.go"], mech=[("changed and stored marks", "bloom/bloom_filter.go Save, Load"), ("keys of buckets", "bloom/bloom_filter.go buildKey, buildBucketNumKey")],
  technique=PATHS, level_note=NOTE),
 dict(id="C26", title="A dump is a complete and consistent copy",
  statement="A Dump that succeeds has written every row of every given table, and with withIndex every entry of each of its indexes, all from a single snapshot taken before, together with the data version. Each entry is written once with its own key and value into a file that was completed, in the directory of its table or index; files are not overwritten, and a failure of reading or writing any of them fails the dump.",
  over=["inputs", "schedules", "fault_sequences"], quant="every content and size of tables, set of indexes, concurrent write, and failing read or write",
  why="The tests dump small tables without concurrent writers or faults; entries lost at the switch to a second file, at the ends of a range or after an iterator error are outside of them.",
  files=["bond.go"], mech=[("snapshot and bounds", "bond.go Dump"), ("writing of files", "bond.go iteratorToSST"), ("listing of indexes", "bond.go tableIndexIDs")],
  technique=PATHS, level_note=NOTE),
 dict(id="C27", title="A restore reads exactly what was asked for",
  statement="Restore ingests all table files of the given tables, those of their indexes only with withIndex, and no other file. It fails without having ingested anything if the backup has another data version, if the directory of a given table is missing, or if a part of the backup cannot be read. The backup can be restored again.",
  over=["inputs", "fault_sequences"], quant="every list of tables, content of the backup directory, version, and failing read",
  why="The tests restore complete, valid backups; tables whose numbers begin alike, missing directories and unreadable files are not among them.",
  files=["bond.go"], mech=[("choice of files", "bond.go Restore"), ("version file", "bond.go Dump, Restore")],
  technique=PATHS, level_note=NOTE),
 dict(id="C28", title="A database is opened only in the versions it was written with",
  statement="Open succeeds only if the recorded Pebble format version is the one in the options and the recorded data version is the current one; where none is recorded it records them, under the key and file they are read from. The engine is always opened with bond's key comparer, and is closed when opening fails. A migration records exactly the version that the engine was migrated to, after it was; the version file is only ever replaced by a complete, synced one, and a version that cannot be read or parsed is an error.",
  over=["inputs", "crash_points", "fault_sequences"], quant="every recorded content and option, and every failing or interrupted step of opening and migrating",
  why="The tests open with matching versions, and neither fail a step nor crash between two steps.",
  files=["bond.go", "version.go", "options.go"], mech=[("format version file", "bond.go Open, MigratePebbleFormatVersion, PebbleFormatVersion"), ("data version key", "version.go"), ("engine options", "options.go DefaultPebbleOptions")],
  technique=PATHS, level_note=NOTE),
 dict(id="C29", title="Inspecting a database returns what its tables contain",
  statement="Inspect.Query queries the named table and index with the given index point, filter, limit and after row, and returns the rows of that query or its error; a filter accepts exactly the rows whose named fields have the given values, and a value is converted to the type of a field only if that type represents it. Tables, Indexes and EntryFields list every name. The remote Inspect and the HTTP handler agree on paths and on the field that carries each parameter, and pass on the result unchanged or fail.",
  over=["inputs", "fault_sequences"], quant="every table, parameter and failing request",
  why="The tests call it with a few combinations of parameters whose types fit; dropped parameters, lossy conversions and failing requests are not among them.",
  files=["inspect/inspect.go", "inspect/inspect_handler.go", "inspect/inspect_handler_client.go"], mech=[("reflected query", "inspect/inspect.go"), ("HTTP handler", "inspect/inspect_handler.go NewInspectHandler"), ("remote client", "inspect/inspect_handler_client.go")],
  technique=PATHS, level_note=NOTE),
 dict(id="C30", title="Conditions mean what their names say",
  statement="Eq, Gt, Gte, Lt, Lte hold for exactly the rows whose value, taken from that row, compares so with the given one. And, Or and Not hold for exactly the rows for which all, at least one, or not the given condition holds, and Func for those for which the given function returns true.",
  over=["inputs"], quant="every row, value and nesting of conditions",
  why="Boundary rows (equal values, no condition, the first or last of several conditions) are combinations the tests sample sparsely.",
  files=["cond/cond.go"], mech=[("conditions", "cond/cond.go")],
  technique=PATHS, level_note=NOTE),
 dict(id="C31", title="Serializers keep what they are given and report failures",
  statement="Every serializer encodes the value it is given, into bytes that no later call of it overwrites, and decodes the given bytes into the given value, with one and the same codec both ways; a codec's error is returned. A table uses the serializer it was made with, or the database's, for every row it writes and every row it reads.",
  over=["inputs", "fault_sequences", "histories"], quant="every serializer, value, codec failure, and sequence of calls that share pooled encoders and buffers",
  why="Bytes that lie in a pooled buffer are right until the next call from another goroutine; codecs hardly ever fail in tests.",
  files=["serializers/", "serializer.go", "table.go"], mech=[("codecs", "serializers/*.go"), ("pooled encoders and buffers", "serializers/msgp.go, msgp_gen.go, cbor.go, json.go"), ("choice of the serializer", "table.go NewTable")],
  technique=PATHS + "; backward slices of every serializer use", level_note=NOTE),
 dict(id="C32", title="A type-erased scanner scans exactly as the typed one",
  statement="A table scanner made for values of any type passes the context, index, selector, direction and batch of each scan on to the table's scanner, with an index that builds the same keys, orders and verdicts. It delivers exactly that scan's rows, in its order, with its keys, and its errors; the callback's verdict and error are those the scan sees.",
  over=["inputs", "fault_sequences"], quant="every scan, index with or without order and filter, and failing scan",
  why="The tests scan small tables in one direction without a batch; dropped arguments and swallowed errors do not show.",
  files=["table_utils.go"], mech=[("wrapping closures", "table_utils.go TableAnyScanner")],
  technique=PATHS, level_note=NOTE),
 dict(id="C33", title="Keys and rows are not overwritten while still in use",
  statement="While a table, index or query operation still reads a key, bound or serialized row, the memory it lies in has not been overwritten, given back to a buffer pool, or invalidated by moving or closing the iterator or read handle it came from. A buffer is not used after it was given back, and is not given back twice. Each row that is decoded has a cell of its own, so that decoding the next does not change it.",
  over=["inputs", "schedules"], quant="every operation, key length, buffer capacity and sharing of pooled buffers between goroutines",
  why="Whether a reused buffer is overwritten depends on capacities and on what other goroutines take from the pool; tests with short keys and one goroutine see the right bytes.",
  files=["table.go", "table_unsafe.go", "index.go", "query.go", "utils/"], mech=[("key, value and array pools", "table.go, index.go, bond.go"), ("consecutive keys in one buffer", "table.go, index.go")],
  technique=PATHS, level_note=NOTE),
 dict(id="C34", title="A failing step makes the operation fail",
  statement="An operation that can report an error does not report success when a storage, serializer, index or filter step it performed failed. Initialising a filter may go on without the stored copy only once that was cleared.",
  over=["fault_sequences"], quant="every failing call in every operation that writes or reads rows",
  why="No test injects faults into storage or indexes.",
  files=["table.go", "table_unsafe.go", "index.go", "query.go"], mech=[("error checks after each call", "throughout")],
  technique=PATHS, level_note=NOTE),
 dict(id="C35", title="A scan ends right behind the selected prefix",
  statement="The upper bound computed for a scan of a table, an index or an index key is the smallest key behind every key that starts with the prefix: the prefix up to its last byte below 0xff, with that byte one greater. So a scan neither misses a row of the prefix nor goes on into what follows it, whatever bytes the prefix holds.",
  over=["inputs"], quant="every prefix (any table or index id, any index key bytes, runs of 0xff included)",
  why="Tests use small ids and short index keys; carries over 0xff bytes and long keys are not sampled.",
  files=["table.go", "index.go"], mech=[("keySuccessor", "table.go:1329"), ("its uses as upper bounds", "index.go:193")],
  technique=PATHS, level_note=NOTE),
 dict(id="C38", title="A call handles every row it was given, once, each under its own key",
  statement="Insert, Update, Upsert, Delete and their unsafe forms handle every row of the argument, in whatever number and order the rows come and whatever keys they share, before they report success; what is written under a key is the row that the key was made from, and of several rows with one key Upsert calls the conflict function with what is there before and the next row. Get of several points returns one row for each point, in their order, with the value stored under its own key. The lists that keys and values are put in have a buffer of their own for each, and a call that spans several chunks lets each chunk see the rows of those before it.",
  over=["inputs"], quant="every number of rows, order of rows, set of repeated keys and chunk boundary",
  why="Tests write few rows in one order; sorting, chunk ends and repeated keys go wrong at particular lengths and permutations only.",
  files=["table.go", "table_unsafe.go", "bond.go", "utils/common.go"], mech=[("chunks", "table.go batched, persistentBatchSize"), ("sorting and its inverse", "table.go sortKeys, reorderValues"), ("key and value lists", "table.go keysExternal; bond.go getKeyArray")],
  technique=PATHS, level_note=NOTE),
 dict(id="C22", title="A table keeps and lists every index that was added to it",
  statement="AddIndex registers each given index under its own id before it reports success or fills it, refuses an id that is already taken, and with reindexing asked for fills exactly the indexes given and returns the error of doing so. Indexes and SecondaryIndexes list all of them, Indexes with the primary index and by ascending id. A table and an index are what their options say, and the defaults neither order nor leave out rows.",
  over=["inputs", "configurations"], quant="every list of indexes, any ids among those already registered, and every combination of options",
  why="Tests add a few indexes with distinct ids, all at once.",
  files=["table.go", "index.go"], mech=[("registry", "table.go AddIndex, secondaryIndexes"), ("lists", "table.go Indexes, SecondaryIndexes"), ("constructors", "table.go NewTable; index.go NewIndex")],
  technique=PATHS, level_note=NOTE),
 dict(id="C37", title="The file storer returns what was stored and removes exactly a range",
  statement="What FilterFSStorer sets under a key is what a later Get of the key returns, under any key a filter of bond uses, with a handle that can be closed; a file that cannot be read, written or removed makes the call fail. DeleteRange removes every file of the storer's directory whose name lies in the range, and no other: none before its start, none from its end on, none outside the directory.",
  over=["inputs", "fault_sequences"], quant="every key, range, content of the directory and failing file operation",
  why="The one test deletes a range that covers all files there are, and never looks whether any were deleted.",
  files=["filters/filter_fs_storer.go"], mech=[("names of files", "filters/filter_fs_storer.go prepareFilePath"), ("walk over the directory", "filters/filter_fs_storer.go DeleteRange")],
  technique=PATHS, level_note=NOTE),
 dict(id="C36", title="Contexts and batches keep what they were made with",
  statement="The batch a context was given is the one found in it, whatever type of batch it is, and so is the synchronised batch, neither taking the other's place; a context without one yields nil. A batch is write-only exactly when that was asked for, says so itself at any time, and has a number of its own. WithSync calls its function once, with the batch, while no other call does. An iterator that could not be opened has no rows and reports why, when asked and when closed.",
  over=["inputs", "schedules", "fault_sequences"], quant="every context and batch put into it, every type and history of a batch, every interleaving of WithSync, and every failure to open an iterator",
  why="Tests use one kind of context value at a time, batches of one implementation, and iterators that open.",
  files=["context.go", "batch.go", "bond.go", "sync.go", "iter.go"], mech=[("keys of contexts", "context.go contextKeyName, contextSyncKeyName"), ("kinds of batches", "batch.go newBatch, Type; bond.go Batch"), ("iterator that failed to open", "iter.go errIterator")],
  technique=PATHS, level_note=NOTE),
 dict(id="C39", title="The command line hands on what its flags say, and fails when that fails",
  statement="Each command of bond-cli does what its flags say: dump and restore open the database of --bond-dir, and hand on --dir, --with-index and every number of --tables as it is, or refuse to run when a number is no id of a table; inspect asks the database of --url, remote when that is an http or https url and with each of --headers under its name, and passes --table, --index, --index-selector, --filter, --limit, --after and --deadline on as the parameters they name. Every flag a command reads is one it has, of the kind it is read as. What the called function answers is printed; when it fails, when an argument cannot be decoded or when nothing can be opened, the command fails and the program's exit status is not zero.",
  over=["inputs", "fault_sequences"], quant="every value of the flags, present or not, and every failure of what is called",
  why="No test runs the commands.",
  files=["cmd/bond-cli/bond-cli.go", "cmd/bond-cli/dump.go", "cmd/bond-cli/restore.go", "inspect/inspect_cli.go"], mech=[("dump and restore", "cmd/bond-cli DumpCommand, RestoreCommand"), ("inspection", "inspect/inspect_cli.go NewInspectCLI"), ("exit status", "cmd/bond-cli main")],
  technique=PATHS, level_note=NOTE),
 dict(id="C40", title="An intersection has the keys that are in every selection",
  statement="Intersect returns the primary keys of exactly those rows that the index has in its selection and every other given index has in the selection given with it: each such key once, none that is missing from one of the selections, in ascending order, and each with memory of its own. It looks at every selection before it returns, unless none of the rows is in all of those before.",
  over=["inputs"], quant="every number of indexes and selections, and every set of rows in each, none and all included",
  why="Tests intersect two selections of a few rows; what one selection leaves behind for the next shows only with three.",
  files=["index.go"], mech=[("sets of keys", "index.go Intersect"), ("order of the result", "index.go Intersect sort.Slice")],
  technique=PATHS, level_note=NOTE),
]

# Properties a user relies on that no static argument in reach decides here.
PROPS += [
 dict(id="N01", title="Concurrent write calls are linearizable",
  statement="Write calls that run at once on one table leave rows and index entries that some order of the calls, each taken alone, would have left. In particular two inserts of one new key never both succeed.",
  over=["schedules", "histories"], quant="every set of concurrent calls and every interleaving of their reads and commits",
  why="A test runs few interleavings, and calls overlap between read and commit only by chance.",
  files=["table.go", "batch.go"], mech=[("reads, then one batch commit", "table.go Insert, Update, Upsert, Delete")]),
 dict(id="N02", title="Rows survive encoding and decoding unchanged",
  statement="Decoding what a serializer made of a row gives a row equal to it, for every serializer and row type.",
  over=["inputs"], quant="every row type and value",
  why="Tests encode a few values of a few types.",
  files=["serializers/"], mech=[("codecs", "serializers/*.go")]),
 dict(id="N03", title="Different index keys and primary keys give different entries",
  statement="Two rows that differ in their primary keys, or index keys made of different field values, have different keys in the store.",
  over=["inputs"], quant="every pair of field values, of variable length in particular",
  why="Tests do not choose values in which one field's end looks like the next one's beginning.",
  files=["keys.go"], mech=[("key fields", "keys.go KeyBuilder")]),
 dict(id="N04", title="Everything synced is there after a crash",
  statement="After a crash at any point, reopening the database shows all rows of every call that had returned success and, of the calls that were running, all or nothing.",
  over=["crash_points", "histories"], quant="every history and crash point",
  why="No test crashes the process.",
  files=["bond.go", "batch.go", "options.go"], mech=[("write-ahead log and recovery", "Pebble")]),
 dict(id="N05", title="A scan over an index sees one state of the database",
  statement="A scan over a secondary index delivers rows that all belonged to one state of the database, each one the row its entry was made from.",
  over=["schedules"], quant="every scan and every set of writes that run meanwhile",
  why="Tests do not write while they scan.",
  files=["table.go", "index.go", "query.go"], mech=[("iterator for entries, gets for rows", "table.go ScanIndexForEach")]),
 dict(id="N06", title="Reads and writes keep their cost as tables grow",
  statement="The cost of a lookup grows with the logarithm of the table, that of a query with an index with the number of rows it selects, and that of a filter stays bounded.",
  over=["inputs", "configurations"], quant="every size of tables, indexes and filters",
  why="Tests use small tables and do not measure.",
  files=["table.go", "query.go", "options.go", "bloom/bloom_filter.go"], mech=[("indexes, filters, engine options", "throughout")]),
]

NOT_APPLICABLE = [
 ("N01", "Interleavings of the reads and commits of several calls, a history property; the code takes no lock between read and commit, so nothing in its shape settles it. The parts visible in the code are claimed as C02 (one atomic batch), C05 and C06 (one call alone) and C16 (locks)."),
 ("N02", "Round-trip equality is a numerical result of third-party codecs (JSON, CBOR, MessagePack) on run-time types. C31 claims the structural part: the same codec both ways, on the value given, its errors returned, its bytes not overwritten."),
 ("N03", "False in general for strings and byte fields (the fields are neither escaped nor prefixed with a length), and otherwise dependent on the values an application puts in: a fact about data, not about the code. C20 and C21 claim the layout and the fixed-size fields."),
 ("N04", "Recovery after a crash is done by Pebble, whose source is not part of this repository. C01, C02 and C28 claim what bond has to do for it: synced commits, one batch per call, version files replaced atomically."),
 ("N05", "Depends on the interleaving with other writers; the code reads entries and rows from different states by design, so there is no structural condition to check. C07 and C10 claim that both come from the reader given and that each row is the one of its entry."),
 ("N06", "Timing and sizes are run-time quantities; no static rule in reach bounds them."),
]
