"""What check.py knows about each property."""
import os, re

SCHED_RULE = ("Every schedule of each closed scenario with at most the stated number of preemptions is run on the rewritten real code "
              "and its complete history is judged; a scenario outcome counts as distinct when its abstract history (update order, what reads saw) differs.")
SC = "Sequential consistency: scheduling points lie at every statement that may touch shared memory, at atomics, locks and within slice copies; weaker memory orders of the hardware are not modelled."



def demo_main(m):
    """Renames the demo's main function in the copy m, for the harness to call, and lets the harness take the server that it serves."""
    found = 0
    for f in os.listdir(m):
        p = os.path.join(m, f)
        if not f.endswith(".go") or f.startswith("zz_verif"):
            continue
        s = open(p, encoding="utf-8", errors="surrogateescape").read()
        t = re.sub(r"^func main\(\)", "func verifOrigMain()", s, flags=re.M)
        found += t != s
        # a failure to set up is to be seen, not to end the harness
        t = re.sub(r"\blog\.Fatal(ln)?\(", "log.Panic(", re.sub(r"\blog\.Fatalf\(", "log.Panicf(", t))
        if t != s:
            open(p, "w", encoding="utf-8", errors="surrogateescape").write(t)
    if found != 1:
        raise ValueError("cannot find the demo's main function")
    d = os.path.join(m, "internal", "server")
    found = 0
    for f in os.listdir(d):
        p = os.path.join(d, f)
        if not f.endswith(".go"):
            continue
        s = open(p, encoding="utf-8", errors="surrogateescape").read()
        t = re.sub(r"^func \((\w+) \*Server\) Serve\(\) (error|\((\w+ )?error\)) \{", r"\g<0>\n\tif VerifServe != nil {\n\t\treturn VerifServe(\1)\n\t}\n", s, flags=re.M)
        if t != s:
            found += 1
            open(p, "w", encoding="utf-8", errors="surrogateescape").write(t + "\n// VerifServe replaces Serve when set.\nvar VerifServe func(*Server) error\n")
    if found != 1:
        raise ValueError("cannot find Server.Serve")


def serve_main(m):
    """demo_main, and the harness decides when signals arrive."""
    demo_main(m)
    for root, dirs, files in os.walk(m):
        if "zz" in dirs:
            dirs.remove("zz")
        for f in files:
            if f.endswith(".go"):
                p = os.path.join(root, f)
                s = open(p, encoding="utf-8", errors="surrogateescape").read()
                t = s.replace('"os/signal"', '"github.com/iand/starbow/internal/zz/vsignal"')
                if t != s:
                    open(p, "w", encoding="utf-8", errors="surrogateescape").write(t)


CHECKS = {
    "C01": dict(h="bufmap", instr=True, level="model_checking", rule=SCHED_RULE, bounds="2-3 threads, 1-2 updates each, tables of 1-12 slots, up to 3 preemptions (5 thorough); 28 record sizes up to 1 MB; boundary keys; bursts of 127 to 65536 operations within one, duels (two threads in turn, every pair of quanta), crowds of 3-17 (24) threads that all have begun; 2-3 separate instances used at once; 4M (2^28) updates of one record", assumptions=[SC]),
    "C02": dict(h="bufmap", instr=True, level="model_checking", rule=SCHED_RULE, bounds="2-3 threads, 1-2 operations each, up to 3 preemptions (5 thorough); all slots of 18 table sizes x 10 record sizes; records of up to 1 MB; bursts of 127 to 65536 operations within one, duels (two threads in turn, every pair of quanta), crowds of 3-17 (24) threads that all have begun; 2-3 separate instances used at once", assumptions=[SC]),
    "C03": dict(h="bufmap", as_gb=60, instr=True, level="exploration", rule="all update sequences over colliding keys up to the depth, each followed by reads of all keys, against a bounded-map model; nontrivial when more than one update", bounds="13 table sizes for sequences and fillings, 19 for full tables, depth 4-5 (+1 thorough); keys around every power of two; stores of up to 2^24 (2^27) slots and of up to 8.7 GB; up to 300001 (2^24+1) operations before; buffers longer and shorter than a record"),
    "C04": dict(h="bufmap", instr=True, level="fault_enumeration", rule="every sequence of successful, failing and panicking updates of two keys up to the depth, plus every schedule of a failing update with updates and reads up to the preemption bound", bounds="depth 5 (6 thorough); up to 3 preemptions; records of 4 bytes to 1 MB; bursts of 127 to 65536 operations within one, duels (two threads in turn, every pair of quanta), crowds of 3-17 (24) threads that all have begun; 2-3 separate instances used at once; 4M (2^28) updates of one record with refused ones between", assumptions=[SC]),
    "C05": dict(h="incmap", instr=True, level="model_checking", rule=SCHED_RULE + " Also every sequence of increments over colliding keys up to the depth against a bounded-map model.", bounds="2-3 threads, 1-3 operations each, up to 3 preemptions (5 thorough); sequences of 5-6 increments; amounts up to 2^64-1; bursts of 127 to 65536 operations within one, duels (two threads in turn, every pair of quanta), crowds of 3-17 (24) threads that all have begun; 2-3 separate instances used at once; 8M (2^29) increments of one counter", assumptions=[SC]),
    "C06": dict(h="seqlock", instr=True, level="model_checking", rule=SCHED_RULE, bounds="2-3 threads, 1-2 operations each, up to 3 preemptions (5 thorough), copies in three pieces; bursts of 127 to 65536 operations within one, duels (two threads in turn, every pair of quanta), crowds of 3-17 (24) threads that all have begun; 2-3 separate instances used at once; 1M (2^26) writes of one cell", assumptions=[SC]),
    "C07": dict(h="coll", instr=True, level="exploration", rule="every observation sequence over each value alphabet up to the depth (all lengths), plus long deterministic series, each final answer (and answers on the way in the long ones) compared with exact rational arithmetic; nontrivial when more than one observation", bounds="12 value alphabets of 4-9 values, depth 3-6 (+1 thorough); two fields x two instances, depth 4; series of 3000 (70000), and runs as if 2^48 observations had been made; about 150 forms of numbers (lengths up to 64 KB, signs, exponents, digits beyond the precision, not numbers) through the handler; two threads with one collator that take turns at every point, up to 1 (2) preemptions"),
    "C08": dict(h="coll", instr=True, level="exploration", rule="every ordered selection of measures up to the size on one, two and three fields with 0-2 record measures, each with every row sequence up to the depth, against each measure alone; guard bytes around the record; nontrivial when the schema has more than one measure", bounds="8 measures; 5 (6) per field alone, 3+1 (3+2) on two fields, 1 (2) on three; row sequences of length 1-2 (3) over 6 rows and 6 longer ones; precisions -3..300; a measure that refuses at every place of every selection, measures of the harness (of fields and of whole rows, of numbers and of text), the measures of a field given in several places; schemas of up to 1025 fields and 11275 measures, all precisions side by side; field names of up to 200 KB that differ in a byte; two threads with one collator that take turns at every point, up to 1 (2) preemptions"),
    "C09": dict(h="coll", instr=True, level="exploration", rule="every pair of key-value tuples over the value alphabet for each key list, in every field order and with and without extra fields, missing keys, and all tuples together in one store, against a map keyed by the tuple; nontrivial when the tuples differ", bounds="10 key lists of 1-3 keys, 14 values (5, thorough 8, for three keys); all one- and two-byte values; 60000 (1.5M) groups of 5 forms; keys of up to 66 fields, values and names of up to 200 KB that differ in one byte, keys listed twice, values whose hashes are equal or zero; 2^24 (2^26) values of one family and 2^22 (2^24) of five others, whose backend keys must all differ; odd texts (numbers in other forms, percent signs, cases, quotes, marks) as values and as names; keys found in two threads that take turns at every point, up to 1 (2) preemptions"),
    "C10": dict(h="hll", instr=True, level="exploration", rule="every sequence of values (and of observations through a collation) up to the depth at every precision, and larger families in four orders with repetitions: registers equal to the maximum of the registers of the single values; nontrivial when at least one value was added", bounds="precisions 4-18; sequences of up to 5 (6) over 5 values, 6 kinds of observations; 34 families of 60-400 (240-1600) values; 6 values with the highest registers among 65536 (4M), and values that reach the highest registers there are; values of up to 1 MB; two counters in two threads that take turns at every point, up to 1 (2) preemptions"),
    "C11": dict(h="hll", level="exploration", rule="each family of distinct values is added one by one at every precision and the estimate compared at every checkpoint: at most 6 promised standard errors plus 4 for each, root mean square over the families at most 1.6 times and mean at most 0.8 times the promised; nontrivial when more than one value", bounds="precisions 4-18, 59 deterministic families, cardinalities 0-300000 (3M); values of up to 1 MB that differ in a few bytes only; several estimators in turns; odd texts, precisions 14-18"),
    "C12": dict(h="query", instr=True, level="exploration", rule="queries are rendered from every syntax tree up to the bounds in 48 styles and the parse compared with the tree, under every order of map iterations the code performs; every select list up to the length against a collation, answers compared in order; nontrivial when more than two pairs are involved", bounds="select lists of 2-4 (5) pairs; 35 x 35 names; 45 x 45 values; values of 2-4 (5) syntax tokens; all one- and two-byte values, odd texts; 28 malformed texts; strings of up to 4 (5) tokens; map orders up to 120 permutations; 1 to 200001 conditions and selections, long values, long runs of blanks at each place where blanks may be; queries parsed in two threads that take turns at every point, up to 1 (2) preemptions", assumptions=["blanks are spaces and tabs"]),
    "C13": dict(h="http", level="exploration", rule="every line of the enumerated families is posted to the real handler with one collation keyed on each name the line could mention (all its substrings for short lines), so that the fields and values it was read as are observed exactly, against a reference parser", bounds="all lines of 1-3 bytes with the first two arbitrary; all strings of up to 6 (7) over 11 significant bytes; 244 delimiters x 12 names x 18 values; timestamps of 1-65 digits; batches of 2-4 (5) of 10 lines in 4 encodings; up to 6000 fields in a line; values in quotes, with percent signs, bytes above 127 and other odd texts; zero, negative and the largest timestamps", assumptions=["a carriage return that ends a line belongs to the line break; a name given twice in a line may take either value; pieces without '=' are not judged"]),
    "C14": dict(h="http", level="fault_enumeration", rule="every batch up to the length over ten kinds of lines is posted to the real handler in every encoding and as single posts; every read split, a read failure after every byte, a cancellation at every byte and at every backend update, a failing backend at every update, and a connection broken after every byte; status and stored state against a prefix model", bounds="batches of 2-4 (5) lines of 10 kinds; faults for all batches of 2 and 3 (3 thorough: all) lines; lines up to 11 MB; batches of up to 1.1 (17) million lines and 540 MB (4.5 GB); up to 1025 collations; histories query/batch/query/batch/query over all pairs; malformed lines at each place", assumptions=["a line longer than 64 KB may be refused or counted"]),
    "C15": dict(h="http", level="exploration", rule="every sequence of requests from the alphabet (posts, refused posts, queries, refused queries in all methods, paths and content types) up to the depth is served by the real handler, each response compared with a reference server, followed by a query for every instance; pairs also over a kept connection to the listening server", bounds="about 140 requests; two servers in one process; colliding texts; 8 collation names with about 1000 (2500) affixes each in four places; each request up to 70000 (280000) times, also over one connection; all pairs, all triples of 48 representatives (thorough: of all); 5 collations, up to 1025 (10000) in another family, some that cannot be read; about 75 headers and forms of the protocol (versions, chunks, Expect, conditions, method overrides, encodings, multipart) with each request; requests of 50 bytes to 3 MB directly and over a connection", assumptions=["where a request is wrong in two ways either status may be given; paths that net/http redirects are not judged"]),
    "C16": dict(h="http", instr=True, level="model_checking", rule=SCHED_RULE + " The requests are served by the real handlers, with the whole server rewritten.", bounds="18 scenarios of 2-3 clients with 1-2 requests each; up to 2 preemptions with two clients (3 thorough), 1 with three (2 thorough); crowds of 3-17 clients", assumptions=[SC]),
    "C17": dict(h="bits", instr=True, as_gb=60, level="exploration", rule="every bucket set to every value and incremented by every amount from every value on five backgrounds, and every sequence of operations up to the depth, compared with an array; nontrivial: increments, and sequences of two operations or more", bounds="widths 1-8, 0-20 (30) buckets, all 256 arguments (widths 6-8: a selection in quick runs); sequences of 3 (4) operations; up to 4194307 buckets, also reset, and more than 2^32 bits; two buckets in two threads that take turns at every point, up to 1 (2) preemptions"),
    "C18": dict(h="bits", instr=True, as_gb=60, level="exploration", rule="each structure with each history is saved, loaded under every split of the stream of the listed kinds, adopted with bytes beyond it, and compared with the original in all its answers and its saved form after each of a series of further additions; nontrivial when something was added before", bounds="about 700 structures; pieces of 16 sizes, every two-way split (a selection beyond 200 bytes), empty reads, end of file with the data; 12 (40) further additions; structures of more than 4 GB in pieces of several sizes; two structures saved and loaded in two threads that take turns at every point, up to 1 (2) preemptions"),
    "C19": dict(h="bits", level="fault_enumeration", rule="every truncation, every value of every header byte, combinations of width, count and precision fields, trailing data, and a failure of the stream after every byte of a load or a save, in several ways of delivery; refusal or acceptance is decided from the documented layout, what is accepted is used in all ways", bounds="about 250 structures of up to 75 bytes; counts up to 2^64-1; claims of up to 2^63 buckets backed by up to 3 MB", assumptions=["writers keep the contract of io.Writer (an error whenever they take fewer bytes)"]),
    "C20": dict(h="bits", instr=True, level="exploration", rule="every sequence of additions up to the depth on filters of every small shape, with membership of all added values after each; larger families at the design load with a domain of absent values probed exhaustively; nontrivial when something was added", bounds="1-24 bits and 16 sizes to 1001, 11 (39) numbers of hash functions, sequences of 3 (4) of 8 values, filling to three times the bits; filters of up to 8 (1024) million bits reset; 6 (13) n x 7 (12) p x 8 families, 40000-300000 probes; values of 16 bytes to 64 KB and more that differ in a few bytes; two filters in two threads that take turns at every point, up to 1 (2) preemptions", assumptions=["rates are judged for n of at least 100: values without structure within 0.8 to 1.3 of the promised rate (n>=1000, p<=0.1), values with structure within 0.4 to 2.5 (the hashes are weak), smaller filters more loosely"]),
    "C21": dict(h="fnv", instr=True, level="exploration", rule="every sequence of writes of all kinds, and resets, up to the depth, the hash read in all ways after the operations; four hashers used in every interleaving, and separate hashers in two threads under every schedule up to the preemption bound; every short input and every byte value in every position by all functions, against hash/fnv of the concatenated input", bounds="26 operations to depth 4 (5); 20 steps on four hashers to depth 4 (5); all inputs of 1-2 bytes (3 thorough), positions of up to 72 bytes, lengths to 1 MB (16 MB); every pair of 14 uses in two threads, up to 2 (3) preemptions", assumptions=[SC]),
    "C22": dict(h="stat", instr=True, level="exploration", rule="every sequence of values up to the depth from each alphabet, in every split into single and batch updates, adopted after every prefix and reset, its answers compared with exact rational arithmetic and its state with that of single updates; separate summaries in two threads under every schedule up to the preemption bound; nontrivial: a split or adoption", bounds="8 alphabets of 6 values, sequences of up to 5 (6) in all 3^(n-1)*2 splits; 7 values that are not finite, up to 4; series of 3000 (70000); up to 2 (3) preemptions; batches of up to 2^20 (2^25) values whose magnitudes differ in each part, and series as if 2^48 values had been seen", assumptions=["only the count and the agreement of splits are judged for values that are not finite", SC]),
    "C23": dict(h="demo", mainpkg=True, prepare=demo_main, level="exploration", rule="every sequence of observations from the alphabet up to the depth is posted to the demo's own configuration, set up anew by its own main function, and all groups of both collations are queried and compared with exact arithmetic per group, the unique counts with a counter of the same precision fed the group's distinct values; the bundled dataset in four orders; the demo process over TCP; nontrivial when more than one observation", bounds="11 observations, sequences of up to 4 (6); 6 families of as many groups as the dataset has in one or both collations; 6729 observations in 4 orders, 2 (5) batch sizes and two encodings; the accuracy of the unique counts for each group size; every sample query of the documentation", assumptions=["a key with a quote cannot be written in a query and is read from the store"]),
    "C24": dict(h="http", instr=True, level="model_checking", rule="In each closed scenario the first thread is stopped for good at each of its points in turn (every scheduling point, or every point at which the server waits for the client or an update function runs), after the second has passed each number of points up to the bound; the others must end with right answers while it is stopped, and it must end rightly once it goes on. Nontrivial: it was stopped while others still had to run. Also clients over real connections that stop after each byte.", bounds="20 kinds of requests alone and in pairs (a selection; thorough: all), 4 others served whole; 24 scenarios on the stores; up to 60 (400) points of the second thread; about 100 stops per request over connections, 8 (50) and more clients stopped at once, stops of 75 s (330 s) at many points, answers not taken", assumptions=[SC]),
    "C25": dict(h="http", level="exploration", rule="each kind of request, each pair of kinds and all of them together are repeated in rounds with new names and values every time; nontrivial: a history of at least 1200 requests after which no more was held (memory after collection within 24 KB plus 6 bytes per request of a round, goroutines, open files) than before; growth counts as a violation only when it happens three times in a row over rounds of doubled length and again in four of five repetitions", bounds="42 kinds of requests (two of clients that differ in every header, host, address and name), all pairs; 9000 (60000) requests of each kind, 1500 (6000) of each kind in a pair, 1200 (3000) over connections"),
    "C26": dict(h="serve", mainpkg=True, prepare=serve_main, level="fault_enumeration", rule="Every configuration is started and ended by each terminating signal at each of the listed moments, which the harness chooses (it stands in for os/signal); every sequence of events up to the depth, with all answers checked after each; every listed address that cannot be listened on. Nontrivial: an end, an event or a refusal.", bounds="72 configurations (networks, literal or New, logger, 0-3 stores) x 10 moments x 2 signals; sequences of 2 (3) of 12 events; 15 addresses; three starts of one server; every address of the machine; the demo and servers with the defaults as processes", assumptions=["the process part is skipped when port 2525 is in use"]),
    "C27": dict(h="own", level="exploration", rule="every sequence of operations up to the depth on one and on two values of each kind, with the callers' memory guarded, compared and overwritten after every call, and with all results kept: each value shows what it shows alone with fresh memory; every sequence of parses with every selection of spoilt results; every sequence of schema changes with a compilation before each. Nontrivial: two operations or more.", bounds="12 kinds of 3-9 operations, sequences of 4-6 (5-7) on one and 3-5 (4-6) on two values; 4 (5) of 6 queries; 3 (4) of 9 changes of a schema; lists of up to 5"),
    "C28": dict(h="backend", instr=True, level="fault_enumeration", rule="every history of observations up to the depth, each with every plan of a backend within the contract: runs of the update function on copies that are thrown away, on stale versions, on fresh memory of any content, refusals before and after; fresh memory, longer buffers, and lookups that leave anything in the buffer; all answers, keys and errors against the definition; nontrivial: a plan of more than one step or an earlier observation", bounds="4 schemas x 3 contents x 2 buffer lengths, and records of up to 133 KB (1.1 MB); 7 observations x 10 plans, depth 3 (4) with 3 plans from the third on; up to 65537 runs of one update"),
    "C29": dict(h="backend", instr=True, level="exploration", rule="every schema of the family is compiled twice, the second time under each map iteration order and after other compilations, and histories are written to one backend by the two in turns and read by both; other processes store histories that are read and continued; observations with fields in every order; answers against the definition", bounds="518 (3110) schemas of up to 3 (4) fields of 6 measure lists; 32 (128) orders; all histories of up to 2 of 4 observations and 4 ways of taking turns over 8; 16 (64) processes in several environments; up to 40000 (262145) collations kept; two schemas compiled in two threads that take turns at every point, up to 1 (2) preemptions"),
}
