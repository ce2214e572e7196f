"""The properties: what's claimed, why tests can't settle it, and how it's decided"""
C = "bfffs-core/src/"
PROPS = [
    dict(id="C01", title="Write-back credit: bounded, fair, and nobody waits forever",
         statement="""The total of write-back credit lent at any time never exceeds the configured limit. Requests are
         granted in the order in which they had to wait, and a small request never overtakes an earlier, larger one.
         Whenever enough credit has been repaid for the request at the front, it is granted; one that was abandoned
         while it waited delays nobody and costs nothing.""",
         over=["schedules", "histories"],
         text="Every interleaving of any number of borrowers' and repayers' atomic steps, and every history of requests, repayments (whole or in part) and abandonments.",
         why="""The unit tests run single-threaded, with at most two borrowers; the loss of a wakeup needs a repayment
         between two particular atomic operations of a borrower (this was a real defect).""",
         files=[C + "writeback/writeback.rs"],
         mech=[("atomic supply with a sleepers flag in bit 0, and a queue under a mutex", C + "writeback/writeback.rs: borrow, awaken, repay")],
         technique="TLA+ model of the bank's atomic steps and its API, checked with TLC; histories of the real code under Shuttle's controlled scheduler validated against the API spec",
         note="""TLC checks the step-level model exhaustively for small banks (safety, FIFO, no lost wakeup). The real source
         is compiled with Shuttle's std::sync; bounded-exhaustive, random and PCT schedules, and sequential histories
         with known outcomes, are recorded as API events and checked against Bank.tla. Sequential consistency is
         assumed. Dropping a request after it was granted but before it was polled is outside the property."""),
    dict(id="C02", title="Write-back credit is conserved by every operation on it",
         statement="""Splitting, halving, taking, merging and signed splitting of write-back credit move credit and neither
         create nor destroy it, also when several threads split one credit at once. Unsigned splits yield at most what
         was asked for and at most what there was, comparisons tell the true amount, and credit that isn't zero cannot be
         dropped unnoticed.""",
         over=["histories", "inputs", "schedules"],
         text="Every sequence of these operations with any amounts (odd, zero, exactly or more than what is there, negative remainders), and every schedule of concurrent splits.",
         why="Unit tests do one split each, of amounts chosen by hand, on one thread.",
         files=[C + "writeback/writeback.rs"],
         mech=[("credit is an integer whose halves and remainders always add up", C + "writeback/writeback.rs: Credit")],
         note="""TLC proves conservation of the purse model in small scope; long random histories with boundary-biased
         amounts, and concurrent splits under Shuttle, are validated step by step (exact value of every purse)."""),
    dict(id="C03", title="RAID code: any f lost columns are recovered exactly",
         statement="""For every stripe of m columns, f of them parity, the contents of all data columns can be computed exactly from
         any m-f surviving columns. Whichever way parity is computed (at once, from scattered pieces, or one column at a
         time) the result is the same, and it is the code that earlier versions wrote to disk.""",
         over=["inputs", "configurations", "fault_sequences"],
         text="Every m and f within the field's limits, every content and length of columns, every fragmentation, every set of up to f lost columns.",
         why="The unit tests cover a few geometries and random data, without an independent statement of the code; they cannot notice a change of the on-disk code that is its own inverse.",
         files=[C + "raid/codec.rs", "bfffs-isa-l/src/lib.rs", C + "raid/sgcursor.rs"],
         mech=[("Cauchy matrix over GF(2^8), inverted for the surviving columns", C + "raid/codec.rs: Codec")],
         note="""The code is specified in TLA+ as arithmetic in GF(2^8); TLC checks that all square submatrices are invertible
         (m up to 8, thorough 14). Real encodings are compared with the specified parity byte by byte, and decodings of every
         (small m) or random (large m) erasure set with the original data."""),
    dict(id="C04", title="RAID layout: a balanced bijection that keeps stripes apart",
         statement="""Data and parity chunks map one to one onto disk locations without gaps, the chunks of any one stripe
         lie on different disks, parity and reconstruction load are equal on all disks, and the inverse mapping and iteration
         agree with the forward mapping at any address. The layout is fixed: it's the one earlier versions wrote to disk.
         Impossible geometries are refused.""",
         over=["inputs", "configurations"],
         text="Every prime number of disks up to the limit, every stripe width and redundancy, every chunk address up to the end of the largest disks.",
         why="Unit tests check about a dozen geometries near address 0 (large numbers of disks overflowed: this was a real defect).",
         files=[C + "raid/prime_s.rs", C + "raid/declust.rs"],
         mech=[("modular arithmetic of PRIME-S", C + "raid/prime_s.rs: PrimeS")],
         note="""TLC checks the axioms (distinct disks, bijection, balance, periodicity) on the specified layout for n up to 7
         (thorough 11), all k and f. The real layout's answers are compared with the specification exhaustively for n up to 7 and
         by boundary-biased samples for all primes up to 211 and addresses up to 2^45 repetitions."""),
    dict(id="C05", title="Block cache: right block, bounded memory, LRU order",
         statement="""A block found in the cache is the block that was cached under that name. The cache's memory use never exceeds its
         capacity, except by blocks that are in use, and is always reported exactly; blocks are evicted only when room is needed, no
         more than needed, in order of least recent use, and never while somebody has a handle to them. Caching different contents under one name never goes unnoticed.""",
         over=["histories", "inputs"],
         text="Every history of insertions, lookups, peeks, removals and held handles of blocks of any sizes.",
         why="The unit tests do at most four operations each; the linked list's states are reached only by longer mixed histories.",
         files=[C + "cache/lru.rs", C + "cache/mod.rs"],
         mech=[("hash table of entries linked in order of use", C + "cache/lru.rs: LruCache")],
         note="""TLC checks the sequence model's invariants in small scope; random mixed histories of the real cache (few keys,
         tight capacities, zero-sized blocks) are validated operation by operation, including the exact size and eviction set."""),
    dict(id="C06", title="Scatter-gather lists, padding, checksums and ranges are exact",
         statement="""Preparing scattered data for the disk preserves its bytes in order, pads only with zeros and only up to the next
         block, and does not alter the caller's buffers. Stepping through a list yields each byte once. A checksum depends on all
         the bytes and on nothing else, in particular not on fragmentation, and a range is called empty exactly if nothing can be
         in it.""",
         over=["inputs"],
         text="Every list of any fragmentation in the documented domain, every step size, every combination of bounds.",
         why="Unit tests use a few hand-made lists; the accumulation across fragment boundaries has cases none of them reach.",
         files=[C + "util.rs", C + "raid/sgcursor.rs"],
         mech=[("accumulator of partial blocks", C + "util.rs: copy_and_pad_sglist"), ("cursor", C + "raid/sgcursor.rs")],
         note="""Random lists biased to block boundaries; each result is checked against the specification (contents compared as
         run-length encodings). Lists in which a whole block follows a partial one are outside the documented domain."""),
    dict(id="C07", title="Dataset properties: one meaning from user to disk and back",
         statement="""A property assignment is accepted exactly if its name and value are valid and it may be set by users, with the
         meaning documented for it; otherwise the right kind of error is reported. What is displayed can be parsed again with the
         same meaning, inheritance maps each property as documented, and stored properties keep their encoding, so that those
         stored by earlier versions keep their meaning.""",
         over=["inputs"],
         text="Every property name and value, valid or not; every source; every stored encoding.",
         why="The unit tests assert a fixed list of strings (one of which was wrong: this was a real defect) and never look at display or encoding.",
         files=[C + "property.rs"],
         mech=[("FromStr, Display and serialization", C + "property.rs")],
         note="""The language, display and encoding are specified in TLA+; the whole table of names and boundary values, and random
         strings, are validated. Nonstandard numerals (leading + or zeros) may be accepted or refused, but not misread."""),
    dict(id="C08", title="Pool creation syntax: what is written is what gets built",
         statement="""Of all command lines that describe a pool's devices, exactly those of the documented grammar are accepted, and the tree of
         mirrors, RAIDs and disks that results is the one described, with every number and every disk in its place. Others are
         reported as errors and never crash the program.""",
         over=["inputs"],
         text="Every sequence of words, including reserved words, numbers of any length and adjacent groups.",
         why="The unit tests parse some dozen sentences; numbers out of range crashed the parser (this was a real defect).",
         files=["bfffs/src/bin/bfffs/pool_create_parser.lalrpop", "bfffs/src/bin/bfffs/pool_create_ast.rs"],
         mech=[("LALRPOP grammar", "bfffs/src/bin/bfffs/pool_create_parser.lalrpop")],
         technique="TLA+ specification of the language; TLC generates sentences that the real parser must treat as specified, and validates its answers to random ones",
         note="""The grammar is specified as a recursive-descent recogniser in TLA+. TLC enumerates every sentence up to 4 words
         (thorough: 5) over 7 words; these and random longer ones are parsed by the parser generated from the repository's grammar
         and compared."""),
    dict(id="C09", title="Concurrent cached reads: one disk read, everybody served",
         statement="""While a block is being read from disk for one reader, others who want it wait for that read instead of starting
         another, and everybody gets the right block. Nobody waits unless a read is under way that will answer him, even if reads fail
         or readers give up; whoever shared a failed read is told of an error, and the block can be read again.""",
         over=["schedules", "histories", "fault_sequences"],
         text="Every interleaving of readers' polls with completions, failures and abandonment of reads and with evictions.",
         why="No unit test has two readers of the same block, nor a failing read; readers waited forever after one (this was a real defect).",
         files=[C + "cache/mod.rs", C + "cache/lru.rs"],
         mech=[("table of pending insertions", C + "cache/mod.rs: get_or_insert")],
         note="""TLC checks safety and liveness (everybody is answered) of the protocol with 3 readers and 2 blocks; random schedules of
         4 readers, polled by hand over a store whose reads are completed, failed or abandoned at will, are validated event by event."""),
    dict(id="C10", title="Addresses, record IDs, UUIDs and errors keep encoding and order",
         statement="""Block addresses, record and transaction numbers, UUIDs and error numbers have a fixed encoding and are read back
         unchanged. Addresses are ordered by cluster and then by block, the other numbers numerically. Every error number that has a name
         survives the way through the program unchanged, and one that has none is never exposed as if it had.""",
         over=["inputs"],
         text="Every value, including the extremes of each type.",
         why="Unit tests look at the lengths of two default values, one UUID and two error numbers.",
         files=[C + "types.rs"],
         mech=[("derived and hand-written serialization", C + "types.rs")],
         note="""Encodings and orders are specified in TLA+ over byte sequences; boundary-biased values and all error numbers up to 400 are
         validated. Error numbers are checked with the constants of the build platform (Linux here)."""),
    dict(id="C11", title="Name space: every name leads to the right file",
         statement="""Files, directories, links and symbolic links are found under exactly the names under which they were created, linked or
         renamed, and under no others, whatever the names are and however their hashes collide. Link counts and parents are always those of the
         tree as it is. Operations that POSIX refuses (removing or replacing a directory that isn't empty, looking up what isn't there) are refused with the
         right error and change nothing, and those that succeed change nothing else.""",
         over=["histories", "inputs", "crash_points"],
         text="Every history of create, lookup, link, unlink, rmdir, rename, readdir, sync and remount, with any names, including ones whose hashes collide.",
         why="""The functional tests do a few operations each on one or two files, and never have more than two colliding names
         (link overwrote an entry of another name: this was a real defect).""",
         files=[C + "fs.rs", C + "fs_tree.rs"],
         mech=[("directory entries in hash buckets", C + "fs.rs: htable, do_create, link, unlink, rmdir, rename"), ("keys", C + "fs_tree.rs")],
         note="""Fs.tla specifies the file system as a function from inodes to their contents, and TLC checks its invariants in small scope (FsMC). Random histories
         on the whole real stack (file system to simulated disks), with names chosen so that many hashes collide, remounts
         and concurrent background flushes, are validated step by step. Operations on one directory are serialised, as the VFS does."""),
    dict(id="C12", title="File data: reads return what was last written",
         statement="""Reading a file returns, for each byte, what was last written there, or zero where nothing was written since the file was extended, truncated
         or deallocated there. Sizes, holes and data as shown by lseek, and the space used, are exact. Data that a reader was
         given doesn't change afterwards.""",
         over=["histories", "inputs"],
         text="Every history of writes, reads, truncations, deallocations, seeks, syncs and remounts at any offsets and lengths, for every record size.",
         why="""The functional tests are single operations with hand-made offsets; the result depends on where records, what's flushed and what is cached begin and end
         (two panics in such combinations were real defects).""",
         files=[C + "fs.rs", C + "fs_tree.rs"],
         mech=[("extents that are inline or blobs", C + "fs_tree.rs: InlineExtent, BlobExtent"), ("read, write, deallocate, truncate", C + "fs.rs")],
         note="""Contents are specified as runs of tagged bytes plus stored records; TLC compares the runs with a byte-array model in small scope (FsDataMC). Random
         boundary-biased histories of the whole real stack are validated, with data that identifies the write which produced each byte. Whether SEEK_HOLE
         returns the first hole or the file's size beyond the last data is left open, as POSIX does."""),
    dict(id="C13", title="readdir: every entry exactly once, wherever it resumes",
         statement="""A directory that is read in pieces, resumed from any offset that was returned before, yields each entry that is there all the
         while exactly once, with its file's number and type, and never one that isn't there, even while other entries come and go.""",
         over=["histories", "inputs"],
         text="Every history of partial readdirs, resumed at any of their cookies, interleaved with changes of the directory and remounts.",
         why="The functional tests resume once, in directories of few entries without concurrent changes (two defects in buckets of colliding names were real).",
         files=[C + "fs.rs", C + "fs_tree.rs"],
         mech=[("cookies from hashes and positions in a bucket", C + "fs.rs: readdir")],
         note="""Random histories with many colliding names, sessions that stop anywhere and resume from any earlier cookie. An entry whose hash
         collides with that of one which came or went meanwhile may be missed or returned twice: cookies have no room to tell them apart."""),
    dict(id="C14", title="Extended attributes: exact contents by namespace and name",
         statement="""Getting an extended attribute returns what was last set under that namespace and name, and an error if there is none or it was deleted;
         listing returns each attribute once. Attributes of other names, namespaces and files are unaffected, however names collide
         and whenever attributes are flushed to disk.""",
         over=["histories", "inputs", "schedules"],
         text="Every history of set, get, delete, list, sync and remount, with any sizes, namespaces and names, including colliding ones.",
         why="The functional tests use at most two colliding attributes and flush only at the end (an attribute flushed while its bucket was rebuilt was lost: a real defect).",
         files=[C + "fs.rs", C + "fs_tree.rs"],
         mech=[("attributes in hash buckets, inline or as blobs", C + "fs.rs: setextattr, htable; " + C + "fs_tree.rs: ExtAttr")],
         note="Random histories of the whole real stack with colliding names, inline and blob-sized values and flushes between steps are validated step by step."),
    dict(id="C15", title="Attributes and timestamps are exact",
         statement="""A file's mode, owner, flags, link count, size, device number, block size, space and times are those that its history implies: each operation updates exactly
         the times that POSIX says it does, explicitly set attributes stay as set, to the nanosecond, and all survive a remount.""",
         over=["histories", "inputs"],
         text="Every history of operations and setattrs of any subset of attributes, with times before and after the epoch, with and without atime.",
         why="Each functional test looks at the times after one operation on a new file.",
         files=[C + "fs.rs", C + "fs_tree.rs"],
         mech=[("inode", C + "fs_tree.rs: Inode, Timespec"), ("setattr and each operation's time updates", C + "fs.rs")],
         note="""Each update's time is bounded by an interval around the operation. Times are compared in coarse units of the driver's clock. Whether rename and
         setextattr update the file's own ctime is left open."""),
    dict(id="C16", title="Unlinked open files live exactly as long as needed",
         statement="""A file that is unlinked while it's open remains fully usable through its handle and keeps its data, and is gone when it is closed; if the system goes down first, it's gone
         after the next mount. No other file is affected, and no inode number is given to two files at a time.""",
         over=["histories", "crash_points"],
         text="Every history of opens, unlinks, uses through handles, closes, syncs and remounts with any number of such files.",
         why="The functional tests unlink one open file.",
         files=[C + "fs.rs", C + "fs_tree.rs"],
         mech=[("records of dying inodes, processed at mount", C + "fs.rs: Fs::new, inactive, unlink; " + C + "fs_tree.rs: DyingInode")],
         note="""TLC checks the invariants in small scope (FsMC); random histories are validated. Inode numbers may be reused after a remount. Rename over an open file deletes
         it at once, as the repository's own tests demand."""),
    dict(id="C17", title="After a power failure, a consistent state no older than the last sync",
         statement="""If power fails at any moment, whatever the disks' volatile caches had or hadn't written, then the pool can be imported and every file system in it is exactly as it was at
         one moment between the start of the last sync that completed and the power failure: every operation is there wholly or not at all, and none without those before it. The pool's
         self-check passes, and it can go on being used, and fail again, without harm.""",
         over=["crash_points", "histories", "schedules"],
         text="""Every moment of every history of operations, syncs, background flushes, cleaning and remounts; every subset (even torn) of the writes which were not yet stable; every
         pool layout; repeated failures.""",
         why="""The tests don't simulate power failures. Whether an order of writes is safe is visible only in rare windows, on many disks, or at the second failure
         (five defects were real, one of which TLC found in the specification first).""",
         files=[C + "database/database.rs", C + "label.rs", C + "cluster.rs", C + "vdev_block.rs", C + "pool.rs", C + "mirror.rs", C + "raid/mod.rs", C + "idml/idml.rs"],
         mech=[("order of flush, sync and labels", C + "database/database.rs: sync_transaction_priv"), ("space maps", C + "cluster.rs: flush, FreeSpaceMap"),
               ("choice of label at import", C + "vdev_block.rs: read_label; " + C + "pool.rs: import"), ("reuse of space", C + "cluster.rs: reap, advance_transaction")],
         spec="Commit.tla, CommitTrace.tla, FsTrace.tla",
         note="""Commit.tla models the labels, space maps, zones and the drives' volatile caches, and TLC checks it for every failure of every schedule in small scope, with several in a row. Journals of the
         real system's disks are validated against the orders that it requires. And the real stack runs on simulated disks, power fails at random moments of recorded histories, losing or tearing
         random unsynced writes, and what the real mount code then finds is validated against Fs.tla's history. A sync that itself fails with an I/O error is not covered."""),
    dict(id="C18", title="Space is neither lost nor used twice, and cleaning gets it back",
         statement="""After every sync, and after recovery from a power failure, each block of the pool that's in use is used by exactly one thing: a node of one of the pool's trees, or a record that exactly one
         of them refers to. Every other block is accounted for as free: what the zones say has been freed and what's in use add up. Deleting, overwriting, truncating and destroying give space back; cleaning a
         zone of which enough is free vacates it completely, without losing or changing what's in it.""",
         over=["histories", "schedules", "crash_points"],
         text="Every history of writes, deletions, creation and destruction of datasets, cleaning, remounts and power failures, on every layout, with caches small enough to evict nodes mid-operation.",
         why="""Leaked or doubly used blocks show only when everything that every tree stores is added up, long after the operation that caused it; the tests mock the layers from each other. A real defect
         (direct nodes' blocks freed in zones that were still open) needed a history of several transactions.""",
         files=[C + "idml/idml.rs", C + "ddml/ddml.rs", C + "cluster.rs", C + "cleaner.rs", C + "tree/tree/mod.rs", C + "tree/node.rs", C + "fs.rs", C + "fs_tree.rs", C + "database/database.rs"],
         mech=[("indirection and allocation tables", C + "idml/idml.rs: put, pop, delete, clean_zone, check"), ("free space map", C + "cluster.rs: FreeSpaceMap"),
               ("nodes' transaction ranges", C + "tree/node.rs, " + C + "tree/tree/mod.rs: clean_zone")],
         spec="Space.tla, SpaceTrace.tla",
         note="""Space.tla models allocation, freeing, zones, cleaning and transactions at the level of blocks; TLC checks it exhaustively in small scope, with liveness of cleaning. Snapshots of the real pool (every tree's
         nodes, every table's entries, every zone's state) are taken after each sync of random histories, and after recovering from power failures at random moments; TLC checks each one and how it follows from the last.
         Pools of one to three disks of every layout, with dozens to hundreds of blocks in use."""),
    dict(id="C19", title="Concurrent operations are atomic, durable once synced, and always finish",
         statement="""Operations, syncs, cleaning and flushing may run concurrently. Each operation takes effect at one moment and has the same effect as if it were alone: none fails, panics, reads
         anything but what its own file system contains, or waits forever, no matter how little memory there is for caches and dirty data, what the cleaner moves, or how slow the disks are. Once a sync
         returns, every operation that finished before it began survives a power failure. What a power failure leaves is some state that respects the operations' order.""",
         over=["schedules", "crash_points", "histories"],
         text="""Every interleaving of concurrent tasks on several files, directories and datasets, with concurrent syncs, flushes and cleaning; every timing of disk operations; every size of cache and
         writeback; every moment for a power failure.""",
         why="""The tests run one task at a time. Ten defects were real: lost transactions, cleaning that erased what was being read or deleted, deadlocks for want of credit; each needed a window of a few
         disk operations.""",
         files=[C + "database/database.rs", C + "idml/idml.rs", C + "cleaner.rs", C + "writeback/writeback.rs", C + "raid/vdev_raid.rs", C + "tree/tree/mod.rs", C + "ddml/ddml.rs", C + "fs.rs", C + "vdev_block.rs"],
         mech=[("transactions", C + "database/database.rs: fswrite, sync_transaction_priv; " + C + "idml/idml.rs: txg, advance_transaction"), ("credit", C + "writeback/writeback.rs; " + C + "idml/idml.rs: borrow_credit"),
               ("cleaning", C + "idml/idml.rs: clean_zone, MoveLocks; " + C + "cleaner.rs"), ("stripes in flight", C + "raid/vdev_raid.rs: read_at, write_stripe"), ("opening file systems", C + "database/database.rs: open_filesystem")],
         spec="Durable.tla, Deadlock.tla, ConcTrace.tla",
         note="""Durable.tla models operations, the dirty flag, the transaction lock and concurrent syncs; Deadlock.tla models the writeback's credit, the transaction lock and the syncer, with deadlock and liveness; TLC checks both
         in small scope. The real stack runs tasks interleaved at random, on simulated disks with random (sometimes extreme) delays, with small caches; power fails at random moments; what is found then is validated
         against the order of the operations' beginnings and ends. The interleaving is of one thread's tasks at their points of suspension: data races between threads aren't explored."""),
    dict(id="C20", title="A tree is an ordered map, balanced, and all of it is in the store",
         statement="""Concurrent insertions, removals, lookups, range queries and range deletions on a tree act on each key at one moment, as on an ordered map, whatever is flushed, cleaned and evicted meanwhile.
         Whenever nothing is under way, the tree is sound: the keys are in order and in the right nodes, every node's size is within the limits, all leaves are at the same depth, and each node's range of
         transactions includes those in which it and its descendants were written. The store holds exactly the nodes and values that the tree refers to; once flushed, the tree is complete there, reopens
         the same, and has no more dirty nodes; cleaning a zone moves everything out of it. All credit is with the leaves that need it, and is given back.""",
         over=["histories", "schedules", "inputs"],
         text="Every history of concurrent operations, flushes and cleaning; fanout limits, sequential or balanced splitting; every eviction from the cache; values with and without records of their own.",
         why="""The unit tests start with a hand-written tree and do one operation. Splits, merges and the two-pass range deletion have many cases, which combine with whatever the flusher, the cleaner and other tasks
         did to neighbouring nodes. Four defects were real.""",
         files=[C + "tree/tree/mod.rs", C + "tree/node.rs", C + "cache/lru.rs"],
         mech=[("B+-tree with lock coupling", C + "tree/tree/mod.rs: insert, remove, fix_int, range_delete_pass1, range_delete_pass2, RangeQuery"), ("copy on write", C + "tree/node.rs: xlock, xlock_nc, drain_xlock; " + C + "tree/tree/mod.rs: flush_once"),
               ("cleaning in two passes", C + "tree/tree/mod.rs: CleanZonePass1, get_dirty_nodes, rewrite_node"), ("credit", C + "tree/node.rs: LeafData")],
         spec="BTree.tla, TreeTrace.tla",
         note="""BTree.tla models splitting, merging and the two passes of range deletions on nested nodes; TLC checks soundness, contents and searchability for every history on few keys. The real trees, with small fanouts and an
         in-memory store with random delays, a forgetful cache, zones and exact accounting, run concurrent tasks' operations; the results are validated against the map for every key, and dumps of the tree and the
         store against the rules of soundness."""),
    dict(id="C21", title="What a file system has stored is always consistent with itself",
         statement="""After every sync, and after recovery from a power failure, each file system's stored items make sense together: every directory entry leads to an inode of the right kind, link counts and the numbers
         of bytes and blocks are right, extents neither overlap nor exceed their file, directories form one tree with the right parents, no item belongs to an inode that isn't there, and unreferenced inodes are listed
         as dying until they're gone. The pool's datasets form a forest that agrees with the list of their trees.""",
         over=["histories", "crash_points", "schedules"],
         text="Every history of operations on files, directories, links, attributes and datasets, with files open across deletion, remounts, and power failures at any moment.",
         why="""Applications see only what they ask for: a stale item, wrong link count or leaked inode shows up much later, if at all; there's no fsck that would notice.""",
         files=[C + "fs.rs", C + "fs_tree.rs", C + "database/database.rs"],
         mech=[("items keyed by inode, type and offset", C + "fs_tree.rs: FSKey, FSValue"), ("dying inodes", C + "fs.rs: do_inactive, do_delete_inode, Fs::new"), ("forest", C + "database/database.rs: create_fs, destroy_fs")],
         spec="FsStore.tla, Sound.tla, FsckTrace.tla",
         note="""FsStore.tla models which items each operation stores in which transaction, and power failures between them; TLC checks that Sound.tla's predicate is invariant. The same predicate is evaluated by TLC on
         complete dumps of the real file systems, after each sync of random histories, and before and after recovery from power failures at random moments."""),
    dict(id="C22", title="Datasets form a hierarchy, whose members inherit properties",
         statement="""A pool's datasets form one tree of names. Creating, destroying, mounting, unmounting, listing, and getting or setting a property each act on exactly the dataset that is named, at one moment, whatever else
         runs concurrently, or fail with the right error and no effect: only what exists can be used, nothing is created twice or without its parent, and nothing is destroyed that is mounted or has children. No name leads
         outside the hierarchy. A property's value is the dataset's own or that of its nearest ancestor that has one, or the default, and its source says which; a mountpoint is inherited with the rest of the path appended.
         Datasets' contents are separate. All of it survives an export or a crash after a sync.""",
         over=["histories", "inputs", "schedules"],
         text="Every history of concurrent requests on datasets of any names (also malformed or of other pools), with exports and imports between.",
         why="""The tests create a few file systems one after another. Seven defects were real: names that merely begin with the pool's name, empty components, a second root, orphans, races between creation and destruction,
         an unmount that was never noticed, and a list that panicked after an error.""",
         files=[C + "controller.rs", C + "database/mod.rs", C + "database/database.rs", C + "property.rs"],
         mech=[("names and locks", C + "controller.rs: strip_pool_name, create_fs, destroy_fs"), ("forest", C + "database/mod.rs: Forest; " + C + "database/database.rs: lookup_fs, create_fs, destroy_fs, readdir"),
               ("properties", C + "database/database.rs: get_prop, get_prop_configurable; " + C + "controller.rs: set_prop")],
         spec="Datasets.tla, DatasetsMC.tla, DatasetsTrace.tla",
         note="""Datasets.tla models the forest, properties and every request's effect and result; DatasetsMC.tla checks in small scope that the implementation's steps and locks refine it for all interleavings. The real
         Controller on the real stack runs tasks' requests, interleaved at random on simulated disks, with exports, imports and file system contents; every history is validated against the specification. Excluded: changing the
         mountpoint of a mounted file system (upstream: TODO, panics), and the effect of inherited properties on open children's behaviour (TODO)."""),
]
NOT_APPLICABLE = []
