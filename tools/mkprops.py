#!/usr/bin/env python3
"""Writes properties.jsonl (kept as a script so the prose stays readable)."""
import json
P=[]
def p(id,title,statement,over,qtext,why,files,mechanism,state=(),observe=(),hook=None):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=qtext),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mechanism],
        state=[dict(name=n,meaning=m,where=w) for n,m,w in state],observe_at=list(observe),hook_needed=hook)))

p("C01","Concurrent updates of keyed records are applied exactly once, in some order",
"However concurrent callers' updates to the keyed record store interleave, including the very first updates of a key and keys that compete for the same slots, every update that reports success has been applied exactly once, to the bytes its key's previous successful update left. Exactly one successful update per key, the first one applied, is told that the record is new and starts from an all-zero record. No update ever changes the record of another key, and each key has one record only.",
["schedules"],"all interleavings of up to 3 concurrent updaters (and one reader) of 1-2 updates each on equal, colliding and distinct keys, up to a stated preemption bound",
"The only concurrent test increments one already-spread key from 5 goroutines and looks at the final total: it samples a few schedules, never looks at the new-record flag, never makes two keys collide and never races the creation of a key.",
["internal/bufmap/bufmap.go","internal/storage/storage.go"],
[("CAS claim of a slot with linear probing","internal/bufmap/bufmap.go Update"),("per-slot mutex around the callback","internal/bufmap/bufmap.go Update")],
[("slot.key","key that owns the slot, 0 when free","internal/bufmap/bufmap.go slot"),("slot.seq","write counter, odd while a write is in progress","internal/bufmap/bufmap.go slot")],
["bufmap.Map.Update callback arguments","bufmap.Map.Get"])

p("C02","Reading a keyed record returns a whole, current snapshot",
"A read of a key, at any moment relative to concurrent updates of that and other keys, returns the entire record exactly as some successful update left it: never a mixture of two versions, never part of it, never bytes of another record or of an update that did not succeed. It includes every successful update that returned before the read started and none that started after it returned, and successive reads never go back in time. A read reports 'not found' only if no successful update of that key had completed before it began, and it never fails or panics for any stored key whatever slot it occupies.",
["schedules","inputs"],"all interleavings of 1-2 readers with 1-2 updaters up to a stated preemption bound (the copy of a record is itself interruptible), and every slot position x record size up to a bound",
"The one test that reads does so after all writers finished, from a single slot of one map size with a record shorter than the slot index; a reader that runs during a write, the first slot, the last slots and longer records are never exercised.",
["internal/bufmap/bufmap.go","internal/storage/storage.go"],
[("seqlock validation of the copy","internal/bufmap/bufmap.go Get")],
[("slot.seq","write counter used to validate a copy","internal/bufmap/bufmap.go slot"),("Map.values","record bytes of all slots","internal/bufmap/bufmap.go Map")],
["bufmap.Map.Get"])

p("C03","The keyed store is a bounded map: full means refused, never corrupted",
"For every store size, record size and sequence of updates and reads over any keys, the store behaves like a map of fixed-size byte records: an update of a key that is already stored always succeeds, a read of a stored key always finds exactly its record (as much of it as the reader's buffer holds, and no byte of another record) and a read of any other key finds nothing. A new key is either stored or refused with an error; it is only refused when the eleven slots in its probe range (all the slots, in smaller stores) are taken by other keys, and a refusal, or the invalid key zero, runs no callback and changes no record.",
["inputs","histories"],"every sequence of updates and reads up to a stated depth over key alphabets that collide, wrap round the end of the table, exceed its capacity, include 0 and the largest key, for a range of store and record sizes",
"Tests use one key in a map of 1000 slots; probing, wrap-around, exhaustion and records of other keys are never looked at.",
["internal/bufmap/bufmap.go"],
[("linear probing limited by maxReprobe","internal/bufmap/bufmap.go Get, Update, pos")],
[("Map.keys","slot table","internal/bufmap/bufmap.go Map")],
["bufmap.Map.Get","bufmap.Map.Update"])

p("C04","A failed update leaves no trace and wedges nothing",
"When the update function given to the keyed record store or to the sequence-locked cell returns an error (after changing any part of its buffer), the caller gets exactly that error, the stored data and whether the key is found stay exactly as before, and a later first successful update is still told the record is new (the key may keep the slot it was given). After such a failure, or after the update function panics (the panic reaches the caller), later and concurrent reads and updates still complete and still see only data of successful updates.",
["fault_sequences","schedules"],"every sequence of successful, failing and panicking updates and reads up to a stated depth, failing at every position of a multi-byte change, and all interleavings of a failing update with one reader and one updater up to a preemption bound",
"No test ever makes an update function fail or panic.",
["internal/bufmap/bufmap.go","internal/seqlock/seqlock.go"],
[("error return of the callback","internal/bufmap/bufmap.go Update"),("copy, apply, then commit","internal/seqlock/seqlock.go Update")],
[("slot.seq / Seqlock.seq","odd while a write is in progress","internal/bufmap/bufmap.go, internal/seqlock/seqlock.go")],
["bufmap.Map.Update/Get","seqlock.Seqlock.Update/Get"])

p("C05","Concurrent counters never lose, double or misplace an increment",
"However increments and reads of the counter map interleave, every accepted increment is added exactly once to its own key and a refused one to none; a read returns the total of all increments completed before it began plus some of those overlapping it, totals seen by successive reads never decrease, and a key with a completed increment is always found with no key ever found that was not incremented. Increments of a stored key are never refused, a new key is refused only when the eleven slots of its probe range (all the slots, in smaller maps) are taken by other keys, and key zero is refused by increments and not found by reads.",
["schedules","histories"],"all interleavings of 2-3 threads with 1-2 operations each on equal, colliding and exhausting keys up to a preemption bound; all sequential operation sequences up to a stated depth for a range of map sizes",
"Concurrent tests increment a single key and read after joining; races on claiming a slot between different keys, concurrent reads, exhaustion and wrap-around are not exercised.",
["internal/incmap/incmap.go"],
[("CAS claim then atomic add","internal/incmap/incmap.go Inc"),("probe of atomic keys","internal/incmap/incmap.go Get")],
[("Map.keys/Map.values","claimed keys and totals","internal/incmap/incmap.go Map")],
["incmap.Map.Inc","incmap.Map.Get"])

p("C06","The sequence-locked cell is linearizable and its reads are never torn",
"Under every interleaving, each read of the 1024-byte cell returns the complete value left by one Put or successful Update (or the initial zeroes), consistent with a single total order of all operations that respects real time. Updates see the latest preceding value in that order and none is lost.",
["schedules"],"all interleavings of 2-3 threads with 1-2 operations each (reads, puts, updates) up to a preemption bound, with every copy of the 1 KiB value interruptible at chunk boundaries",
"Tests read only when nothing is written, and check a counter in the first bytes of the cell.",
["internal/seqlock/seqlock.go"],
[("writer mutex and even/odd sequence","internal/seqlock/seqlock.go Put, Update"),("retry until stable","internal/seqlock/seqlock.go Get")],
[("Seqlock.seq","write counter","internal/seqlock/seqlock.go Seqlock"),("Seqlock.data","the cell","internal/seqlock/seqlock.go Seqlock")],
["seqlock.Seqlock.Get/Put/Update"])

p("C07","Precise measures equal their definition over the observed values",
"For every history of observations of a collation instance, count(*) is the number of observations, and for each numeric field the reported count, sum, mean, sample variance, maximum and minimum are those of exactly the field values that were observed, to floating-point accuracy, regardless of order, sign, magnitude, number of observations, and of which observations carried the field; a value counts as the number its text denotes, correctly rounded, however long the text is, and an observation whose value is no number is refused and changes nothing. A field never observed contributes no value: its count and sum are 0 and its max, min and variance are reported as NaN rather than as a number that was not observed. A NaN observation never hides the maximum or minimum of the others. (The mean and variance are for finite values of magnitudes up to about 1e150; with infinite values only count, sum, max and min are.)",
["histories","inputs"],"every sequence of observations up to a stated depth over an alphabet of field values (negative, zero, fractional, huge, exponent notation, infinities, NaN, absent), against an independent reference, plus long histories across integer-width boundaries",
"Tests feed one fixed series of small positive integers in which every observation carries the field; min and max have no test at all.",
["internal/collation/measure.go","internal/collation/schema.go","internal/collation/compile.go","internal/summary/stat64/stats.go"],
[("Knuth running mean/variance","internal/summary/stat64/stats.go Update"),("init-or-compare","internal/collation/measure.go Max/Min ContWriter"),("dispatch of fields to writers","internal/collation/schema.go Update")],
[("record buffer","state of all measures of one instance","internal/storage/storage.go, internal/bufmap/bufmap.go")],
["storage.Store.Write then storage.Store.Read"])

p("C08","Measures of a collation never interfere, whatever the schema",
"In any collation schema, each declared measure of each field, and each record-level measure, reports exactly what it would report if it were the only measure in the schema, whatever other fields and measures are declared and in whatever order. Updating an instance stays within the collation's declared record size and reading one changes nothing. A schema is either rejected when compiled or accepts observations and answers queries for every measure it declares; a unique count with a precision outside 4 to 18 is rejected. When a measure refuses an observation (its own or one added by a user), the update fails, and when one cannot be read, the query fails: neither is hidden.",
["configurations","histories"],"every schema made of up to a stated number of measures over one or two fields, in every order and split, each run on a set of histories and compared measure by measure with single-measure schemas",
"Tests compile four fixed schemas and peek at the first summary in the buffer; layouts with several fields, max/min/unique-count next to shared summaries, and overlap or size errors are not covered.",
["internal/collation/compile.go","internal/collation/schema.go","internal/collation/measure.go"],
[("assignment of buffer ranges and sharing of one summary among count, sum, mean, variance","internal/collation/compile.go Compile"),("range-limited slices for writers and readers","internal/collation/schema.go")],
[("Collator.size and Low/High ranges","record layout","internal/collation/schema.go Collator")],
["collation.Schema.Compile","collation.Collator.Update/Read/Size"])

p("C09","Observations reach exactly the collation instance of their key values",
"An observation updates a collation if and only if it carries all of the collation's key fields, and then it updates only the instance identified by the values of those key fields. Two observations belong to the same instance exactly when they agree on every key value; other fields and the order of fields do not matter. A query for given key values reads exactly that instance and a query that leaves out a key field, or names values never observed, reads nothing.",
["inputs","histories"],"every pair of key value tuples over an alphabet including empty, shared-prefix, swapped and delimiter-like values for 0-3 key fields, with every field order, missing key and extra field",
"Tests compare the hash of four fixed rows with the same hash written by hand; they never ask whether two different tuples can end up in one instance or whether a query reads another group's data.",
["internal/collation/schema.go","internal/storage/storage.go","internal/hash/fnv/fnv.go"],
[("hash of key names and values","internal/collation/schema.go FVList.KeyValue"),("lookup by hash","internal/storage/storage.go Write, Read")],
[],["storage.Store.Write","storage.Store.Read"])

p("C10","Unique counts depend only on the set of distinct values",
"The unique count of a field depends only on the set of values observed: repeating values, reordering them, or splitting them among observations that also carry or lack other fields does not change it, at any supported precision. The stored sketch of a set of values is the element-wise maximum of the sketches of its values taken alone, so adding a value never loses information about another.",
["histories","inputs"],"every sequence (with repetitions, every order) up to a stated length over value alphabets chosen to hit the same register, neighbouring registers and the first and last registers, at every precision 4-18",
"Tests check the size of the estimate for random distinct values only, each added once in one order.",
["internal/summary/hll/hll.go","internal/bitbucket/bitbucket.go","internal/collation/measure.go"],
[("register maximum","internal/summary/hll/hll.go Counter.Add"),("init-or-adopt buffer","internal/collation/measure.go Cardinality.DiscWriter")],
[("registers","6-bit maxima packed in a bit bucket","internal/summary/hll/hll.go Counter.bits")],
["hll.Counter.Count/WriteTo","storage.Store.Read uniquecount"])

p("C11","Unique counts are accurate for realistic values",
"For sets of distinct values of the kind streams carry (sequential numbers, short codes, common prefixes or suffixes, fixed-width binary, random bytes), the unique count at every supported precision stays within the error that precision promises: the typical error is about 1.04/sqrt(2^precision) of the true number, and no set is off by more than six times that plus a small constant. A unique count is never negative, and it is 0 exactly for an empty set. Each of the sketch's estimators is as good in the range of sizes it is meant for.",
["inputs","configurations"],"every precision 4-18 x every enumerated value family x every prefix cardinality on a ladder from 0 to beyond the estimator's switching points",
"The accuracy test draws random 8-byte values; because of a captured loop variable all its cases check the same one (precision 16, 10 items). Values that share prefixes or differ only at the end are never tried.",
["internal/summary/hll/hll.go","internal/hash/fnv/fnv.go","internal/collation/measure.go"],
[("hash of the value","internal/summary/hll/hll.go Counter.Add"),("linear, harmonic and Poisson estimators","internal/summary/hll/hll.go Count")],
[],["hll.Counter.Count","storage.Store.Read uniquecount"])

p("C12","Queries return exactly what was asked, for the keys asked, in a fixed order",
"A query 'select m(f), ... where k='v' and ...' is understood, whatever the case of its keywords and the blanks between its parts, as exactly the listed measure/field pairs and exactly the listed field/value criteria, for any field names without whitespace, quotes, commas, parentheses or '=' and any values without quotes or line breaks, including values that are empty or look like query syntax. The same text always gives the same answer in the same order: fields in the order they are first named, and a field's measures in the order listed. Measures or fields the collation does not have are left out without disturbing the rest, and text without a select list or without a where clause is an error. (Blanks are spaces and tabs.)",
["inputs"],"every query built from a grammar up to a stated number of selections and criteria over an alphabet of names, values (spaces, '=', ' where ', ' and ', commas, parentheses, unicode, empty), spacing and keyword case; every iteration order of any map the parser ranges over",
"The test has seven queries with plain values, and is itself flaky because the order of results varies.",
["internal/query/rough.go","internal/collation/schema.go"],
[("regular expressions","internal/query/rough.go RoughParse"),("reader lookup","internal/collation/schema.go Collator.Read")],
[],["query.RoughParse","GET/POST /collation/{name}"])

p("C13","An observation line means exactly its delimited key/value pairs",
"A line consisting of a decimal timestamp, a one-byte non-digit delimiter and key=value pairs separated by that delimiter is collated as exactly those pairs, for every choice of delimiter, any field names and any values, including empty values and values containing '='. A line with only a timestamp carries no fields. A line without a leading timestamp, or with one that does not fit 64 bits, is rejected, and no input line makes the server panic. (A carriage return at the end of a line belongs to the line break; where a line names a field twice either value may count; parts without '=' and timestamps between 2^63 and 2^64 may be treated either way.)",
["inputs"],"every line built from a grammar of timestamps, delimiters, field counts and values up to a bound, and every byte string up to a stated length over a byte alphabet, submitted to the real handler and compared with a reference parser through its effect on collations",
"The server package has no tests.",
["internal/server/server.go"],
[("parseRow, parseFV","internal/server/server.go")],
[],["POST /obs followed by queries"])

p("C14","An observation post succeeds only if every line counted, and applies a prefix",
"Posting a batch of lines has the same effect as posting each line by itself in order, up to the first line that is malformed or refused; that line and those after it have no effect, except that collations defined before the one that refused it may already have counted it. A success status is returned only if every line was applied to every collation it belongs to; any malformed, refused or interrupted batch gets an error status. A line longer than 64 KB may be refused. An observation a collation refuses, for example for a non-numeric value in a numeric field, changes nothing in that collation.",
["fault_sequences","histories","inputs"],"every batch up to a stated number of lines over an alphabet of good, empty, malformed, non-numeric, key-less, capacity-exceeding and over-long lines, sent whole or in pieces, with the body failing at every read and the request cancelled at every check",
"The server package has no tests; partial failure, cancellation and broken bodies are never produced.",
["internal/server/server.go","internal/storage/storage.go","internal/collation/schema.go","internal/bufmap/bufmap.go"],
[("line scanner loop with early return","internal/server/server.go recvObservation"),("cancellation checks","internal/server/server.go recvObservation, internal/storage/storage.go Write"),("error return from the update function","internal/bufmap/bufmap.go Update")],
[],["POST /obs status","queries afterwards"])

p("C15","The HTTP interface answers each request for what it names, and queries only read",
"POST /obs accepts raw, text/plain and form-encoded bodies with the same effect and refuses other media types with 415, other methods with 405 and an empty form with 400; a refused request changes nothing. GET and POST /collation/{name} answer from the collation of exactly that name, echo the criteria and list one line per available measure asked for; an unknown or nested name is 404, other methods 405, an unparsable query 400, and one that the collation fails to answer 500. Every response forbids that it be cached. No sequence of queries or refused requests ever changes a later answer. (A request wrong in two ways may get either status.)",
["histories","inputs"],"every sequence of requests up to a stated depth over an alphabet of methods, paths, media types, bodies and queries against a reference server, over several collations",
"The server package has no tests.",
["internal/server/server.go","internal/storage/storage.go"],
[("routing and media type switch","internal/server/server.go registerHandlers, recvObservation, queryCollation")],
[],["HTTP responses"])

p("C16","Concurrent clients see each record consistently and lose no observation",
"When several clients post observations and query at the same time, every acknowledged observation is counted exactly once in every collation it belongs to, as if posted one at a time. Each query answer is consistent in itself: all of its measures describe the same set of observations, which contains every observation acknowledged before the query began and none sent after it was answered.",
["schedules"],"all interleavings of 2-3 concurrent requests (posts of one or two lines, queries) at statement granularity in every package of the server up to a stated preemption bound, including first observations of a group and groups colliding in the table",
"No test runs the server, concurrently or otherwise.",
["internal/server/server.go","internal/storage/storage.go","internal/collation/schema.go","internal/bufmap/bufmap.go","internal/query/rough.go"],
[("per-record atomic update and snapshot read","internal/bufmap/bufmap.go"),("request-local row, query and buffers","internal/server/server.go, internal/storage/storage.go")],
[],["concurrent HTTP requests and responses"])

p("C17","A bit bucket is an array of independent saturating counters",
"For every width of 1 to 8 bits and every number of buckets, a bit bucket behaves as an array of that many unsigned integers: setting or incrementing one bucket stores the value capped at the width's maximum and changes no other bucket, and reads, per-value counts, reset and the reported maximum, width, count and length always agree with that array.",
["histories","inputs"],"every sequence of operations up to a stated depth over all buckets and boundary values for every width and small bucket counts, from empty and from full contents, plus every (width, index, old value, new value) with arbitrary neighbours",
"Tests check a handful of writes to three fixed four-bucket arrays of widths 3, 4 and 8.",
["internal/bitbucket/bitbucket.go"],
[("16-bit window extract/insert","internal/bitbucket/bitbucket.go extract, set, incn")],
[("BitBucket.data","packed values","internal/bitbucket/bitbucket.go")],
["bitbucket.BitBucket methods"])

p("C18","Saved sketches load back identical and stay usable in place",
"For every bit bucket (of widths 1 to 8), bloom filter (of at least one bit) and cardinality counter, the bytes written by saving it have exactly the advertised length, and loading them back from a stream, however the stream splits them, or adopting them as a buffer gives a structure that answers every query like the original and evolves identically under further additions. An adopted buffer is itself kept up to date as a valid saved form, and bytes beyond the structure are not touched. The byte count reported equals the bytes transferred.",
["inputs","fault_sequences","histories"],"every structure reachable by up to a stated number of additions over a range of shapes, every split of the stream into reads up to a bound, followed by every short continuation of additions applied to original, loaded and adopted copies",
"Tests round-trip one small instance of each in one piece, and compare headers.",
["internal/bitbucket/bitbucket.go","internal/summary/bloom/bloom.go","internal/summary/hll/hll.go"],
[("WriteTo, ReadFrom, WithBytes, Len","each structure")],
[],["WriteTo/ReadFrom/WithBytes/Len of each structure"])

p("C19","Damaged or failing input is refused with an error, never a panic",
"Loading a bit bucket, bloom filter or cardinality counter from bytes that are truncated, from another version, have an impossible or inconsistent header, or (from a stream) are followed by more data, returns an error and never panics, hangs, or demands memory out of proportion; whatever is accepted can be used without a panic. A read or write error of the underlying stream, at any position, is reported to the caller together with the number of bytes transferred, and a save never reports success unless all bytes were written.",
["fault_sequences","inputs"],"every truncation length, every single-byte header value, combinations of boundary header values, every position of a read error, write error or trailing byte, and end-of-stream delivered with or after the last data, for small instances of each structure",
"Tests try one wrong version and one trailing byte in one delivery style.",
["internal/bitbucket/bitbucket.go","internal/summary/bloom/bloom.go","internal/summary/hll/hll.go"],
[("header checks and io.ReadFull","ReadFrom and WithBytes of each structure")],
[],["errors of ReadFrom/WithBytes/WriteTo"])

p("C20","A bloom filter never forgets, and its self-estimates are sane",
"For every size of at least one bit, number of hash functions and history of additions, every added value is reported present, and a reset filter reports no value present if it has at least one hash function. At its design load a filter created for n items (at least 100) and rate p reports absent values present at a rate close to p, and its own error-rate estimate is close to the rate actually seen, for values without regular structure within a few tens of percent and for others within a small factor. Its item count estimate is never negative, is zero when empty, never decreases as values are added and is close to the true number below the design load.",
["histories","inputs","configurations"],"every (bits, hash count) in a small range x every set of additions over a value alphabet, with membership checked for every added value after every step; families of (n, p) with exhaustive probing of a value domain",
"Tests use one 1024-bit filter with one value, and one large filter for the count.",
["internal/summary/bloom/bloom.go","internal/bitbucket/bitbucket.go","internal/hash/fnv/fnv.go"],
[("double hashing shared by Add and Has","internal/summary/bloom/bloom.go newHasher, next"),("count and error estimates","internal/summary/bloom/bloom.go Count, ErrorRate")],
[],["bloom.Bloom.Add/Has/Count/ErrorRate/Reset"])

p("C21","Hashes equal standard FNV for every input and every way of feeding it",
"For every byte sequence, the FNV-1 and FNV-1a hashes computed by any mixture of the incremental write methods, and by the one-shot functions, equal those of the standard definition of the concatenated input; integers count as their eight big-endian bytes. Reading a hash does not disturb it, reset returns it to the initial state, and separate hashers never affect each other, even when used concurrently.",
["inputs","histories"],"every sequence of write/reset/sum operations up to a stated depth over an alphabet of chunks, every byte value in every position of short inputs, integers with every byte value in every position, against the standard library",
"Tests compare one or two fixed strings per method.",
["internal/hash/fnv/fnv.go"],
[("incremental and one-shot loops","internal/hash/fnv/fnv.go")],
[],["fnv hashers and functions"])

p("C22","Statistical summaries agree with each other and with exact arithmetic",
"A summary fed values one at a time, in batches, or partly each, in any split, ends in the same state, and its count, sum, mean and sample variance equal those of the values by exact arithmetic to floating-point accuracy; adopting its bytes continues the same series and reset starts a new one; separate summaries never affect each other, even when used concurrently. The slice helpers for mean, sample variance, sum and standard error agree with the same definitions, and report NaN where the definition has no value.",
["histories","inputs"],"every sequence of values up to a stated length over an alphabet with negative, fractional, equal, cancelling and large values, every split into single and batch updates, every point of adoption and reset, against exact rational arithmetic",
"Tests use one series of eight small positive integers; the helper package has no tests.",
["internal/summary/stat64/stats.go","internal/stats/stats.go"],
[("Knuth update duplicated in Update and UpdateMulti","internal/summary/stat64/stats.go"),("two-pass formulas","internal/stats/stats.go")],
[],["stat64.Summary methods","stats.Meanvar/Sum/See"])

p("C23","The demo server collates the documented airport data as documented",
"The demo server defines the two documented collations: for every sequence of airport observations, 'country' reports the record count, the mean, sum, variance, max and min of height and the unique count of iata codes per country, and 'tz' the record count and the unique counts of country and height per timezone, each over exactly the observations of that group; the unique counts are no further off than the 6.5 % standard error of 256 registers makes likely. Groups up to the documented dataset's size are all accepted, and groups never mix.",
["histories"],"every sequence up to a stated depth over an observation alphabet with both, one or neither key, with missing measures, in every order, plus the whole bundled dataset, posted to the demo configuration through its handler",
"The demo and the server have no tests.",
["demo.go","starbow.go","internal/server/server.go","misc/airports.sh"],
[("schemas of the demo","demo.go setupDemo")],
[],["POST /obs, GET /collation/country, /collation/tz"])

p("C24","Nobody waits for a client or reader that has stopped",
"A client that stops sending its request or stops taking its answer, at any point, holds up no other request, whatever that asks for, including observations and queries of the same groups; when the client goes on, its request is served as if it had not stopped. An operation on the counter map that is suspended at any point, or a read of the keyed record store or of the sequence-locked cell, never keeps another operation from finishing. An update of one key of the record store, however long its update function takes, never keeps reads and updates of other keys from finishing, and one suspended anywhere never keeps reads of other keys from finishing.",
["schedules","fault_sequences"],"every point at which a request or an operation can stop, for every kind of request and operation, alone and with a second one stopped or under way, with every kind of other request and operation run to its end meanwhile",
"No test stops anything half way: a lock held while a body is read or an answer is written, or shared by all keys, passes every test.",
["internal/server/server.go","internal/bufmap/bufmap.go","internal/incmap/incmap.go","internal/seqlock/seqlock.go","internal/storage/storage.go"],
[("no lock outside the update of a single record","internal/bufmap/bufmap.go Update"),("atomic claim and add","internal/incmap/incmap.go Inc"),("reads that only look","internal/bufmap/bufmap.go Get, internal/seqlock/seqlock.go Get")],
[],["POST /obs and /collation/{name} while another request has stopped","bufmap.Map, incmap.Map, seqlock.Seqlock operations"])

p("C25","Requests leave nothing behind but the statistics",
"Observations are discarded once they are counted, and no request, whether it is served, refused, cut off or cancelled, and in whatever combination, leaves memory, goroutines or open connections behind: what the process holds is settled by its collations and does not grow with the number of observations, queries, values, names or clients it has seen.",
["histories","fault_sequences"],"every kind of request (about thirty, each time with new names and values) and every pair of kinds, thousands of times over, with the memory in use after collection, the goroutines and the open files compared between rounds",
"No test looks at what a request leaves behind, and a leak changes no answer.",
["internal/server/server.go","internal/storage/storage.go","internal/query/rough.go","internal/collation/schema.go","internal/collation/measure.go"],
[("request-local rows, queries and buffers","internal/server/server.go recvObservation, queryCollation; internal/storage/storage.go Read"),("fixed-size records","internal/bufmap/bufmap.go New")],
[("Server, Store, Collator","the only things that outlive a request","internal/server/server.go, internal/storage/storage.go")],
["memory in use, number of goroutines, open files of the server process"])

p("C26","The server serves from its start until it is told to stop, and says if it cannot",
"A server set up in any of the supported ways (created by New or as a literal, with or without a logger and stores; on TCP or a Unix socket, TCP port 2525 by default) answers its first and every further client with all its stores from the moment it accepts connections, and goes on whatever clients do, requests end in, other signals arrive or further servers try to take its address. It asks for interrupt and termination signals when it starts and runs until the process receives one: whenever that comes from the moment the server asks for signals on, and whatever clients are in the middle of, Serve then returns without an error. A server that cannot listen, or whose listener fails, is reported by an error from Serve, after which it can be started elsewhere, and the demo program then fails with a message.",
["histories","configurations","fault_sequences"],"every configuration started and ended by each terminating signal at every one of a list of moments from the registration for signals to half-way through requests; every sequence up to a stated depth of events that the server has to outlive; every way of failing to listen",
"The server has no tests; when a signal arrives relative to the start-up and to requests is not in the hands of a test.",
["internal/server/server.go","starbow.go"],
[("registration for signals and the wait for one","internal/server/server.go Serve, waitSignal"),("handlers registered before connections are accepted","internal/server/server.go Serve, registerHandlers")],
[("Server.mux","routes, set by Serve","internal/server/server.go Server")],["server.Server.Serve","the demo process"])

p("C27","Inputs stay the caller's, results stay as given, separate values share nothing",
"No operation of the stores, collations, sketches, summaries, hashes, statistics helpers and the query parser changes the memory its caller hands in as input (rows, field and value bytes, select lists, key lists, items, number slices, saved bytes that are read), nor memory next to it or next to a buffer it fills or continues in, and none depends on that memory after it has returned, so that callers may reuse it. What an operation has returned or copied out is not changed by later operations (the names in a query's answer may still be the query's own bytes). Separately made values of any kind never influence each other, and a compiled collation stays as it was compiled whatever is done to its schema afterwards.",
["histories","inputs"],"every sequence of operations up to a stated depth on one and on two values of twelve kinds, with the callers' memory compared and overwritten after every call; all sequences of parsed queries with any selection of the results overwritten; all sequences of schema changes up to a depth with a compilation before each",
"Tests hand in fresh literals once and never look at them again; sharing shows only when memory is reused or a second value is at work.",
["internal/collation/schema.go","internal/collation/compile.go","internal/storage/storage.go","internal/query/rough.go","internal/bufmap/bufmap.go","internal/seqlock/seqlock.go","internal/summary/hll/hll.go","internal/summary/bloom/bloom.go","internal/bitbucket/bitbucket.go","internal/summary/stat64/stats.go","internal/hash/fnv/fnv.go","internal/stats/stats.go"],
[("rows and queries are only read","internal/collation/schema.go Update, Read, KeyValue"),("keys are copied when a schema is compiled","internal/collation/compile.go Compile"),("reads copy the record out","internal/bufmap/bufmap.go Get, internal/seqlock/seqlock.go Get")],
[],["exported operations of the packages"])

p("C28","A store gives the same answers over every backend that keeps the contract",
"The store and the collations rely on nothing but the documented contract of the Backend interface. Whatever memory a new record is given (\"init\" means its bytes may be anything, and the buffer may be longer than the record), however often the backend runs the update function before one run counts (on copies, stale versions or fresh memory that it throws away, and may overwrite afterwards), and whatever a failed lookup leaves in the buffer, each observation that is reported taken counts exactly once, in its own instance, and every answer is the one by definition. An update that the backend refuses, before or after running the function, counts not at all and the refusal is reported to the caller; so is an observation that a measure refuses. The backend is called for an observation only if that has all key fields, never with key zero, and with the same key for all observations and queries of an instance.",
["fault_sequences","histories","configurations"],"every history of observations up to a stated depth, each with every plan of backend behaviour from a list (discarded, stale and fresh runs, refusals before and after), over several schemas, contents of fresh memory and buffer lengths",
"Tests of the collations hand the update function one zeroed buffer once; the only backend in the repository runs it once, on zeroed memory of the exact size, and its refusals are not tested.",
["internal/storage/storage.go","internal/collation/schema.go","internal/collation/compile.go","internal/collation/measure.go"],
[("update as a function of the record alone","internal/storage/storage.go Transaction.Do"),("initialisation of a new record","internal/collation/schema.go Collator.Update")],
[("record buffer","state of all measures of one instance","internal/collation/schema.go Collator")],["storage.Store.Write","storage.Store.Read","storage.Backend"])

p("C29","Instances and records depend only on the schema and the observations",
"Collators compiled from equal schemas are interchangeable: whatever else has been compiled before or is compiled at the same time, in whichever order maps are iterated and in whichever process, they have the same size, find an instance under the same key, and understand and continue each other's records, so that observations taken by any of them in turns are all in the answers of each. The order of the fields in an observation changes no answer (when no field is named twice).",
["configurations","histories"],"every schema of a stated family compiled twice, the second time under every map iteration order and after other compilations, both writing and reading one backend in turns; histories handed over from other processes at several points; every field order of the observations",
"A test compiles a schema once, in one process, with whatever map order it gets, and compares the answers of that one collator.",
["internal/collation/compile.go","internal/collation/schema.go","internal/storage/storage.go","internal/hash/fnv/fnv.go"],
[("assignment of buffer ranges in the order of the schema","internal/collation/compile.go Compile"),("hash of key names and values","internal/collation/schema.go FVList.KeyValue, internal/storage/storage.go spread")],
[("record layout","ranges of the measures in a record","internal/collation/schema.go Collator")],["collation.Schema.Compile","storage.Store.Write","storage.Store.Read"])

out="/verif/properties.jsonl"
with open(out,"w") as f:
    for x in P:
        assert len(x["title"])<=80,(x["id"],len(x["title"]))
        f.write(json.dumps(x)+"\n")
print(len(P))
try:
    import jsonschema
    s=json.load(open("/root/.vp/PROPERTIES.schema.json"))
    for x in P: jsonschema.validate(x,s)
except ImportError: pass
