"""What each property's check builds and runs."""

SYNC = "gogenerics/gconcurrent/sync"
MR = "gogenerics/gconcurrent/mr"
CONS = "gogenerics/gconstraints"
BITSET = "library/bitset"
CACHEX = "library/cachex"
SKIP = "gogenerics/gds/gskiplist"
CRYPTOX = "library/cryptox"
STRINGX = "library/stringx"
RBT = "gogenerics/gds/grbt"
CONT = "gogenerics/gcontainers/"
FASTRAND = "github.com/miniLCT/gosb/hack/fastrand=gosbverif/vrand"

PROPS = {
    "C01": dict(
        pkg="c01", dict=[SYNC],
        variants=[
            dict(name="sched", overlay=[SYNC], run="TestSched|TestSeq", shards=8),
            dict(name="race", race=True, run="TestStress", shards=3, procs=4),
        ],
        technique="linearizability checking of recorded histories (seeded schedule perturbation in virtual time; real parallel runs under the race detector)",
        rule="random programs of 2-6 clients on 1-3 keys over 16 key/value types (values of no size, values that look alike, NaN, slices) and 8 operation mixes, started from a random internal state of the map; single clients and 2-7 clients in parallel on up to 12000 keys; a history counts when calls of different clients overlap, identified by its interleaving of calls and results",
        assumptions=["porcupine's verdict", "statement-level scheduling points plus real parallelism reach the relevant interleavings"],
    ),
    "C02": dict(
        pkg="c02", dict=[SYNC],
        variants=[
            dict(name="sched", overlay=[SYNC], run="TestSched|TestSeq", shards=8),
            dict(name="race", race=True, run="TestStress", shards=3, procs=4),
        ],
        technique="offline checker over recorded Range events against single-writer key histories (seeded schedule perturbation in virtual time; race detector)",
        rule="2-4 clients, each owning its keys, mix all calls with Ranges whose callbacks stop early, write, delete or range again; Ranges over up to 4000 keys that stay, change or come and go; an execution counts when a write overlaps a Range, identified by its event order",
        assumptions=["statement-level scheduling points plus real parallelism reach the relevant interleavings"],
    ),
    "C03": dict(
        pkg="c03", dict=[MR],
        variants=[
            dict(name="sched", overlay=[MR, CONS], run="TestC03Sched", shards=8),
            dict(name="race", race=True, run="TestC03Stress", shards=3, procs=4),
        ],
        technique="event-ledger monitor over every callback (seeded schedule perturbation in virtual time; race detector)",
        rule="random plans over all six entry points: 0-40 items, 0-3 values each, every kind of worker option, reducers reading all, some or none and writing 0-3 results; items, values and results of 7 other groups of types with their zero values; crowds of up to 1600 items with as many mappers at once; streams of 2000-4000 items with slow mappers or reducer; a call counts when it has at least two items, identified by plan and observed parallelism",
        assumptions=["goroutines of the code under test are recognised by the functions in their stacks"],
    ),
    "C04": dict(
        pkg="c03", dict=[MR],
        variants=[
            dict(name="sched", overlay=[MR, CONS], run="TestC04Sched", shards=8),
            dict(name="race", race=True, run="TestC04Stress", shards=3, procs=4),
        ],
        technique="outcome monitor against the faults that actually fired, goroutine-leak and stuck-call detection in virtual time, race detector",
        rule="random plans with 1-4 faults among cancel (nil and non-nil errors of several types), panics in generator, mapper or reducer and contexts ended before or during the call; a call counts when a fault fired before it returned; crowds of up to 1100 items",
        assumptions=["user callbacks return once they are no longer blocked by the call"],
    ),
    "C05": dict(
        pkg="c05", dict=[CONS],
        variants=[
            dict(name="sched", overlay=[CONS], run="TestSched", shards=8),
            dict(name="race", race=True, run="TestStress", shards=3, procs=4),
        ],
        technique="linearizability checking of recorded Set/Load histories over mixed error types, race detector",
        rule="1-5 clients with up to 6 (12) calls of Set with errors of 11 kinds, nil included, and Load; a history counts when calls of different clients overlap, identified by its interleaving",
        assumptions=["porcupine's verdict"],
    ),
    "C06": dict(
        pkg="c06", dict=[CACHEX],
        variants=[dict(name="seq", run="TestC06", shards=8)],
        technique="online model checker beside every call in virtual time (state-set simulation of the cache rules)",
        rule="5-65 random calls on caches of 6 key/value type pairs, capacity 1-40, use limits 0-5, TTLs negative, short and long, clock advances; caches of up to 6000 entries (up to 140000 when the sources contain constants that large), use limits up to 70000; an execution counts when reads hit and sets happen at capacity, identified by its call trace; slices handed out earlier are overwritten by the caller and compared later",
        assumptions=["the clock never stands exactly on an expiry instant", "expired or used-up entries keep their place until they are touched, as the documentation says for expiry"],
    ),
    "C07": dict(
        pkg="c06", dict=[CACHEX],
        variants=[
            dict(name="sched", overlay=[CACHEX], run="TestC07Sched", shards=8),
            dict(name="race", race=True, run="TestC07Stress|TestC07Load", shards=3, procs=4),
        ],
        technique="linearizability checking of whole-cache histories (seeded schedule perturbation in virtual time; race detector), use-count ledger",
        rule="2-4 clients with up to 5 (8) calls after a random prefill, final reads included; a history counts when calls of different clients overlap, identified by its interleaving; groups of up to 500 keys always set, deleted and read together behave like one key",
        assumptions=["porcupine's verdict"],
    ),
    "C08": dict(
        pkg="c08", dict=[CACHEX],
        variants=[dict(name="seq", run="TestC08", shards=8)],
        technique="online model checker beside every call in virtual time on a scratch directory, with injected file damage",
        rule="5-50 random calls by up to 3 stores on one directory, 11 key/value type pairs whose keys print or encode alike, values and keys that cannot be encoded, TTLs from negative to the largest duration, clock advances, damaged files, several rounds of clean-up; pairs of keys that collide under common short hashes, 1000 keys stored and 20000 others asked for; an execution counts when reads hit, identified by its call trace",
        assumptions=["values survive encoding/json", "the clock never stands exactly on an expiry instant"],
    ),
    "C09": dict(
        pkg="c08", dict=[CACHEX],
        variants=[
            dict(name="sched", overlay=[CACHEX], run="TestC09Sched|TestC09Cleanup", shards=8),
            dict(name="race", race=True, run="TestC09Stress", shards=3, procs=4),
        ],
        technique="offline checker over recorded per-key histories with expiry intervals (seeded schedule perturbation in virtual time; race detector), directory ledger for clean-up",
        rule="2-5 clients with up to 6 (20) calls on 1-3 keys while clean-up runs on every call, foreign files in the directory; an execution counts when a read overlaps a write of its key, identified by its history",
        assumptions=["all clients share one FileStore object"],
    ),
    "C10": dict(
        pkg="c10", dict=[CACHEX],
        variants=[
            dict(name="seq", run="TestC10$", shards=4),
            dict(name="race", race=True, run="TestC10Race", shards=2, procs=4),
        ],
        technique="trace monitor over every call reaching a scripted level, compared with the level-by-level specification",
        rule="0-5 (20) scripted levels over 6 key/value type pairs (nil pointers, nil and empty slices, values of any type) with independent contents and random read, write and delete failures, 1-8 chain calls on up to 1500 keys with repeated keys under a context whose value every level must see, times to live of every kind (0, negative, huge); an execution counts when a lower level filled an upper one, identified by its trace; 2-6 goroutines with keys of their own on one chain of up to 4 shared caches, 60 calls each; slices handed out earlier are overwritten by the caller and compared later",
        assumptions=["a failing level returns no results"],
    ),
    "C11": dict(
        pkg="c10", dict=[CACHEX],
        variants=[dict(name="seq", run="TestC11", shards=4)],
        technique="trace monitor over every view of a batch result against the raw cache answer",
        rule="random answers of up to 30 (4000) positions with repeated keys over 4 type pairs, every range also stopped early, and the package's own caches; an execution counts with at least 2 positions, identified by keys and hits; slices handed out earlier are overwritten by the caller and compared later",
        assumptions=["a cache answers every position"],
    ),
    "C12": dict(
        pkg="c12", dict=[BITSET],
        variants=[dict(name="seq", run="TestC12", shards=4)],
        technique="online model checker (list of bits) beside every call, every other live set compared after every call",
        rule="1-5 sets of 0-40 (6000; 140000 when the sources contain constants that large) bytes made by every constructor, 5-30 calls with offsets around every boundary; every execution counts, identified by its trace; slices handed out earlier are overwritten by the caller and compared later",
        assumptions=["sets are built from memory nobody else changes", "offsets small enough for the set to fit in memory"],
    ),
    "C13": dict(
        pkg="c12", dict=[BITSET],
        variants=[
            dict(name="sched", overlay=[BITSET], run="TestC13Sched", shards=8),
            dict(name="race", race=True, run="TestC13Stress", shards=3, procs=4),
        ],
        technique="linearizability checking of single-set histories, state-interval checking of combined results, stuck-call detection in virtual time, race detector",
        rule="2-5 clients with up to 5 (8) calls on 1-3 sets, a third of them counting from the end of growing sets, combinations with repeated and identical operands; 2-6 clients with bits of their own in two sets of up to 24000 bits; calls up to bit 96000 under the scheduler; whole-range reads of sets of up to 250 (8000 on real threads) bytes while 1-2 writers of known sequences change bits far apart, judged against the states during the call; a history counts when calls of different clients overlap, identified by its interleaving",
        assumptions=["porcupine's verdict", "combined results are judged in executions where each set has one writer"],
    ),
    "C14": dict(
        pkg="c14", dict=[SKIP],
        variants=[
            dict(name="heights", overlay=[SKIP], subst=FASTRAND, run="TestC14", shards=4),
            dict(name="real", run="TestC14", shards=4),
        ],
        technique="online model checker (sorted map) beside every call, full walks in both directions; node heights real and scripted",
        rule="20-1200 random calls on 1-2 lists (up to 8000 entries; 140000 when the sources contain constants that large) of 7 key/value type pairs, growing and shrinking phases, ascending and descending runs, emptied and reused at the end; an execution counts when it deleted an entry, identified by its writes",
        assumptions=["keys are totally ordered (no NaN)"],
    ),
    "C15": dict(
        pkg="c15", dict=[RBT],
        variants=[dict(name="seq", run="TestC15", shards=8)],
        technique="online model checker (sorted map) beside every call, every live tree and view compared after every call",
        rule="15-1000 random calls on 1-4 trees (up to 8000 entries; 140000 when the sources contain constants that large) (range views become trees themselves) of 9 key/value/order kinds; an execution counts when it deleted an entry, identified by its writes; slices handed out earlier are overwritten by the caller and compared later",
        assumptions=["the comparison is a strict total order consistent with ==", "a range whose two bounds are the same key is only judged when both are included or both are not"],
    ),
    "C16": dict(
        pkg="c15", dict=[RBT],
        variants=[dict(name="seq", run="TestC16", shards=8)],
        technique="monitor in the caller's comparison function counting the entries each lookup passes; tree shape rebuilt from the lookup paths and checked with the printed colours",
        rule="insertion and deletion patterns (ascending, descending, alternating, bit-reversed, runs, random; from the ends, the middle, random) up to 1600 (6100) entries, every step checked below 70 entries; identified by the sequence of insertions and deletions",
        assumptions=["a lookup compares each entry it passes with the key, except the one that is equal", "colours are judged only as long as the tree prints them"],
    ),
    "C17": dict(
        pkg="c17", dict=[CONT + "gheap"],
        variants=[dict(name="seq", run="TestC17", shards=8)],
        technique="online ledger of the elements held beside every Push and Pop",
        rule="1-2 heaps of 10 element/order kinds (equal elements, all equal, descending) built empty or from up to 1700 (38000; 140000 when the sources contain constants that large) elements, up to 150 calls, then popped empty and reused; identified by the calls",
        assumptions=['the order is a strict weak order'],
    ),
    "C18": dict(
        pkg="c18", dict=[CONT + "glist"],
        variants=[dict(name="seq", run="TestC18", shards=8)],
        technique="online model checker (sequence of element handles) beside every call, all lists walked both ways after every call",
        rule="5-85 calls on 1-3 lists (zero, New, Init; up to 8000 elements; 140000 when the sources contain constants that large) of 4 value types with own, foreign, removed and stray elements; an execution counts when a foreign element was used, identified by its calls",
        assumptions=['Init is only called on an empty list'],
    ),
    "C19": dict(
        pkg="c19", dict=[CONT + "gqueue", CONT + "glist"],
        variants=[dict(name="seq", run="TestC19", shards=8)],
        technique="online model checker (sequence) beside every call",
        rule="5-125 calls on 1-2 queues of 5 element types (up to 20000 elements; 140000 when the sources contain constants that large), slices and results overwritten by the caller, iterators read at once or later; identified by its calls; slices handed out earlier are overwritten by the caller and compared later",
        assumptions=[],
    ),
    "C20": dict(
        pkg="c20", dict=[CONT + "gring"],
        variants=[dict(name="seq", run="TestC20", shards=8)],
        technique="online model checker (cyclic sequences) beside every call, every ring walked both ways after every call",
        rule="3-43 calls on rings of 1-60 (4000; 140000 when the sources contain constants that large) elements made by New or as zero rings, links between and within rings; an execution counts with at least two links or unlinks, identified by its calls",
        assumptions=['the result of Unlink(n) with n a positive multiple of the length is not judged'],
    ),
    "C21": dict(
        pkg="c21", dict=[CONT + "gmap", CONT + "gset"],
        variants=[dict(name="seq", run="TestC21", shards=8)],
        technique="online oracle (the built-in map itself) over every helper's result, multisets of entries compared, sources and results overwritten in turn",
        rule="maps of 0-3200 (40000; 140000 when the sources contain constants that large) entries over 7 key/value type pairs (NaN keys and values, nil and zero values), pairs of maps one change apart, a map and itself; sets with up to 65 calls; identified by contents; slices handed out earlier are overwritten by the caller and compared later",
        assumptions=[],
    ),
    "C22": dict(
        pkg="c22", dict=[CONT + "gslice"],
        variants=[dict(name="seq", run="TestC22", shards=8)],
        technique="oracle by linear definition on every result; backing arrays of the inputs compared around every call and address ranges of results checked for overlap",
        rule="slices of 0-2200 (40000; 140000 when the sources contain constants that large) elements of 8 types inside larger arrays with spare capacity, near copies, slices sharing an array, repeated elements; identified by contents; long slices in which one position decides",
        assumptions=['IsSorted is not judged on NaN'],
    ),
    "C23": dict(
        pkg="c23", dict=[CRYPTOX],
        variants=[
            dict(name="seq", run="TestC23$", shards=7),
            dict(name="source", run="TestC23Source", shards=4),
            dict(name="race", race=True, run="TestC23Race", shards=2, procs=4),
        ],
        technique="oracle by standard AES on every output and input, watched arrays around every argument, ledger of all IVs seen, race detector on shared arguments",
        rule="plaintexts of 0-400000 bytes in arrays with spare capacity, all key sizes, modes and encodings, after calls with almost the same key and text in the same or other memory, sources of randomness that give few bytes at a time or fail after 0-16 bytes (in child processes); identified by mode, encoding and plaintext; slices handed out earlier are overwritten by the caller and compared later",
        assumptions=["crypto/aes and crypto/cipher are right"],
    ),
    "C24": dict(
        pkg="c23", dict=[CRYPTOX],
        variants=[dict(name="seq", run="TestC24", shards=8)],
        technique="oracle by standard AES and a direct PKCS#7 definition on hostile keys and ciphertexts, panic monitor",
        rule="random data, whole blocks, good ciphertexts, chosen paddings (0 to 255, partial runs), truncation, bit flips, malformed encodings, wrong key sizes; an execution counts when it must be rejected, identified by its arguments",
        assumptions=["crypto/aes and crypto/cipher are right", "base64 text with line breaks or loose final bits may be taken or refused"],
    ),
    "C25": dict(
        pkg="c23", dict=[CRYPTOX],
        variants=[
            dict(name="seq", run="TestC25$", shards=6),
            dict(name="race", race=True, run="TestC25Race", shards=2, procs=4),
        ],
        technique="oracle by the standard digests and a direct FNV-1a definition, watched arrays, race detector on shared inputs",
        rule="every length from 0 to 599, then random lengths up to 20000 and some of a megabyte; identified by content",
        assumptions=["crypto/md5, sha1, sha256, sha512 are right"],
    ),
    "C26": dict(
        pkg="c26", dict=[STRINGX],
        variants=[
            dict(name="seq", run="TestC26$", shards=6),
            dict(name="race", race=True, run="TestC26Race", shards=2, procs=4),
        ],
        technique="oracle by encoding/json decoding and direct scans of the output, ledger of earlier results, race detector",
        rule="every byte, every character below U+3000, then strings of control, special, broken and wide characters up to 20000 pieces; counts when something was escaped, identified by the string; slices handed out earlier are overwritten by the caller and compared later; runs of one kind of character around powers of two",
        assumptions=['encoding/json decodes right'],
    ),
    "C27": dict(
        pkg="c26", dict=[STRINGX],
        variants=[
            dict(name="seq", run="TestC27$|TestC27None", shards=6),
            dict(name="race", race=True, run="TestC27Race", shards=2, procs=4),
        ],
        technique="oracle by construction (texts assembled from codes and code-free text), panic monitor on hostile text, ledger of earlier results, race detector",
        rule="texts of up to 30 (4000) pieces in bases 2-36 with repeated codes, codes that begin like others, numbers in no such base, codes with and without semicolon; counts with at least one code, identified by text and base; runs of one kind around powers of two; signs and underscores after a code's start",
        assumptions=['codes of no character may stay or become U+FFFD, runs of semicolons are not judged'],
    ),
    "C28": dict(
        pkg="c26", dict=[STRINGX],
        variants=[
            dict(name="seq", run="TestC28$", shards=6),
            dict(name="race", race=True, run="TestC28Race", shards=2, procs=4),
        ],
        technique="oracle by an independent rewriting to the (unique) normal form and by lines, ledger of earlier results, race detector",
        rule="every text of up to 5 characters over six, then mixtures of all foldable and other whitespace, words and broken UTF-8; counts when something was folded, identified by the text; runs of one kind around powers of two",
        assumptions=['indenting the empty text is not judged'],
    ),
    "C29": dict(
        pkg="c26", dict=[STRINGX],
        variants=[
            dict(name="seq", run="TestC29$", shards=6),
            dict(name="race", race=True, run="TestC29Race", shards=2, procs=4),
        ],
        technique="oracle by direct definitions of the three conversions (words split first, written afterwards), panic monitor on arbitrary bytes, ledger of earlier results, race detector",
        rule="every identifier of up to 4 characters over eight, mixtures of letters, digits, underscores and initialisms, every initialism in every position and spelling; counts when something changed, identified by the identifier; runs of one kind around powers of two; letters with special case forms",
        assumptions=['identifiers are valid UTF-8 and letters outside ASCII have plain case mappings'],
    ),
    "C30": dict(
        pkg="c30", dict=["library/password"],
        variants=[
            dict(name="seq", run="TestC30$", shards=7),
            dict(name="race", race=True, run="TestC30Race", shards=1, procs=4),
        ],
        technique="oracle by a direct definition of the policy on every call, race detector",
        rule="every byte alone and after compliant text under every flag, then passwords of 0-100 (5000) characters of chosen classes with single intruders, flags near and far, limits around the length; identified by the arguments",
        assumptions=[],
    ),
    "C31": dict(
        pkg="c31", dict=["hack/fastrand"],
        variants=[
            dict(name="seq", run="TestRange|TestFree|TestPerm|TestRead", shards=6),
            dict(name="race", race=True, run="TestParallel|TestRead", shards=4, procs=4),
            dict(name="asan", asan=True, run="TestRead", shards=4, optional=True),
            dict(name="src", pkg="c31src", run="TestSource", shards=2, optional=True),
            dict(name="link", pkg="c31link", run="TestLink", shards=1),
        ],
        technique="statistical monitors over the drawn values (tail bounds below 1e-15 per test), range monitors with a hostile source, canaries, checkptr, AddressSanitizer and the race detector around Read, a linked program",
        rule="bounds of all sizes and around powers of two, all ranges up to 64, every bit of the unbounded functions, all orders of up to 6 elements, sixteenths of the elements in sixteenths of the places of up to 100000, reads of 0-5000 bytes at all alignments; identified by function and bound or by the values drawn; slices handed out earlier are overwritten by the caller and compared later",
        assumptions=["Uintn(0), Uint32n(0), Uint64n(0) and Perm of a negative number are not judged", "bias of the Uint*n functions for bounds near the word size is not judged"],
    ),
    "C32": dict(
        pkg="c32", dict=[CONT + "gpool"],
        variants=[
            dict(name="seq", run="TestSeq", shards=3),
            dict(name="par", run="TestPar", shards=2, procs=4),
            dict(name="race", race=True, run="TestPar", shards=3, procs=4),
        ],
        technique="online ownership ledger around every Get and Put with holder marks and content snapshots, race detector",
        rule="1-7 clients on 1-2 pools of 9 element types (nil interface values too) and slice pools of 5 element types, garbage collections in between, strange objects and re-sliced slices put; counts when objects were made and recycled, identified by the calls",
        assumptions=["dropping a pooled object is allowed", "values without identity are counted, not tracked"],
    ),
    "C33": dict(
        pkg="c33", dict=["gogenerics/gnumerics", "gogenerics/gconstraints"],
        variants=[dict(name="seq", run="Test", shards=8)],
        technique="oracle by linear definition, watched arrays around every collection",
        rule="collections of 0-500 elements of 14 ordered types with repeats and extreme values, By forms under 4 preorders with tagged equal elements, values of 18 types; identified by contents; collections of up to 40000 elements (140000 when the sources contain constants that large) whose extreme stands at one position",
        assumptions=["NaN is not ordered and not judged in Max and Min"],
    ),
    "C34": dict(
        pkg="c34", dict=["hack/unsafex"],
        variants=[
            dict(name="seq", run="TestView", shards=3),
            dict(name="checkptr", gcflags="all=-d=checkptr=2", run="TestView", shards=2),
            dict(name="asan", asan=True, run="TestView", shards=2, optional=True),
            dict(name="race", race=True, run="Test", shards=2, procs=4),
        ],
        technique="online monitors on content, length, capacity and address of every view, views kept across garbage collections, AddressSanitizer, checkptr and the race detector",
        rule="every length from 0 to 299, then up to 1 MB, inside larger arrays and strings; identified by content",
        assumptions=["the file for Go before 1.20 cannot be compiled here"],
    ),
    "C35": dict(
        pkg="c35", dict=[CONT + "gheap"],
        variants=[dict(name="seq", run="TestC35", shards=8)],
        technique="weak-pointer ledger of every value put in and taken out, compared with what a garbage collection leaves",
        rule="up to 4 rounds of up to 40 (3000) random calls on heaps, lists, queues, rings, skip lists, trees, maps, caches and sets of pointers, each followed by a garbage collection; counts when something was taken out, identified by container and calls",
        assumptions=["runtime.GC collects everything unreachable"],
    ),
    "C36": dict(
        pkg="c36", dict=[SKIP],
        variants=[
            dict(name="steps", overlay=[SKIP], run="TestC36", shards=8),
            dict(name="time", run="TestTimeC36", shards=2),
        ],
        technique="work monitor: statements executed in the package, counted by inserted hooks, time and allocated memory of calls, against the documented growth",
        rule="lists of 200 to 25000 (200000) entries inserted and deleted in 6 orders, half or all deleted and inserted again, averages over 100 and more calls; the same calls timed on 64 and 131072 entries; identified by sizes and orders",
        assumptions=["averages over at least 100 calls stay within five times the expected value"],
    ),
    "C37": dict(
        pkg="c36", dict=[SYNC],
        variants=[
            dict(name="steps", overlay=[SYNC], run="TestC37", shards=8),
            dict(name="time", run="TestTimeC37", shards=2),
        ],
        technique="work monitor: statements executed in the package, counted by inserted hooks, summed over whole histories; time and allocated memory of calls",
        rule="2-6 phases of 250 to 16000 calls of one pattern each (new, missing, deleted, overwritten keys, walks, random patterns of 2-4 calls); the same calls timed on 64 and 131072 entries; identified by the phases",
        assumptions=["a walk may make the next store copy the map once"],
    ),
    "C38": dict(
        pkg="c36", dict=[CONT + "gheap"],
        variants=[
            dict(name="steps", overlay=[CONT + "glist", CONT + "gqueue", CACHEX], run="TestC38$", shards=8),
            dict(name="store", overlay=[CACHEX], run="TestC38Store", shards=8),
            dict(name="time", run="TestTimeC38", shards=2),
            dict(name="timestore", run="TestTimeStoreC38", shards=2),
        ],
        technique="work monitor: comparisons counted in the caller's function, statements executed counted by inserted hooks, per call; time and allocated memory of calls on small and large containers",
        rule="heaps of up to 8000 (65000) elements in 7 orders, lists of up to 6400, queues of up to 18000, caches of up to 4096 entries (some expired), file stores of up to 1400 entries with whole and fractional clean-up cycles, 2-4 clients meeting the end of a cycle at once; identified by sizes and calls",
        assumptions=[],
    ),
    "C39": dict(
        pkg="c39", dict=[],
        variants=[dict(name="sched", overlay=[SYNC, BITSET, CACHEX], run="TestC39", shards=8)],
        technique="fault injection into the caller's code (panics, Goexit, unhashable and uncomparable values) with a model of the object and stuck-call detection in virtual time",
        rule="up to 20 calls, about half of them failing, of 1-3 clients on concurrent maps, bit sets, LRU and file caches, pools, trees and heaps; identified by the calls",
        assumptions=[],
    ),
    "C40": dict(
        pkg="c40", dict=[CACHEX],
        variants=[dict(name="seq", run="TestC40", shards=5), dict(name="user", run="TestC40", shards=3, user=True)],
        technique="fault injection with real file system faults around single calls, model of what the cache may hold, ledger of open and remaining files",
        rule="up to 20 calls on 1-4 keys, about half of them under a fault (no open possible, file size limit, directory replaced, entry replaced by a directory or an endless link; as an unprivileged user also entries that cannot be read or removed and a directory that cannot be entered); identified by the calls and their results",
        assumptions=["the process may lower its own resource limits"],
    ),
    "C41": dict(
        pkg="c41", dict=[],
        variants=[dict(name="race", race=True, run="TestC41", shards=4, procs=4)],
        technique="race detector over parallel reading calls, answers compared with those of the same calls alone",
        rule="2-5 readers with up to 13 calls each on one skip list, tree, list, ring, queue, set, map, slice with spare capacity, bit set, batch result or chain built by random calls, some of up to 3000 elements; identified by container, calls and answers",
        assumptions=["rings that were never used as a ring are initialised by their first call and are left out"],
    ),
    "C42": dict(
        pkg="c42", dict=[],
        variants=[dict(name="seq", run="TestC42", shards=6)],
        technique="heap monitor: live bytes after garbage collections, before and after many rounds of balanced work",
        rule="21 kinds of object or helper family, random sizes, 250 to 20000 rounds measured, doubled up to four times while the memory grows; 7 containers filled with up to 30000 elements and emptied; identified by kind and sizes",
        assumptions=["a leak grows by at least four bytes per round"],
    ),
}

# The same monitors, with cases of their own, in a program for a machine with
# 32-bit words (386 programs run on the amd64 kernels this is used on; where they
# do not, the driver says so and leaves the variant out).
X86_PERCENT = {}
for _id, _p in PROPS.items():
    _v = next((v for v in _p["variants"] if not v.get("race")), _p["variants"][0])
    _x = {k: x for k, x in _v.items() if k not in ("race", "asan", "gcflags", "user")}
    _x.update(name="x86", arch="386", optional=True, shards=max(2, _v.get("shards", 4) // 2),
              env=dict(_v.get("env", {}), VERIF_SHARE=str(X86_PERCENT.get(_id, 40))))
    _p["variants"].append(_x)

# How often the thorough tier is run, each time with another seed: about 5 min a check.
DEEP = dict(C01=4, C02=6, C03=20, C04=30, C05=12, C06=7, C07=7, C10=25, C11=30, C12=30, C13=4, C14=3,
            C15=5, C17=3, C18=12, C19=18, C20=7, C21=10, C22=5, C23=8, C24=30, C25=12, C26=10, C27=18,
            C28=18, C29=24, C30=30, C33=16)
for _id, _p in PROPS.items():
    _p["deep"] = DEEP.get(_id, 1)

# How often the quick number of cases is run: about 10-60 s a check.
for _id, _p in PROPS.items():
    _p["times"] = {"C08": 3, "C09": 3, "C31": 3, "C40": 3, "C38": 4, "C13": 3}.get(_id, 5)
for _id in ("C03 C04 C10 C11 C12 C15 C18 C19 C20 C21 C22 C23 C24 C25 C26 C27 C28 C29 C30 C33 C37 C41").split():
    PROPS[_id]["times"] = 12
