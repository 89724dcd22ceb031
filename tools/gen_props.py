#!/usr/bin/env python3
# Source of /verif/properties.jsonl (one place to edit titles, statements, anchors).
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, observe=None, state=None):
    d = dict(id=id, title=title, statement=statement,
             quantifier=dict(over=over, text=qtext), why_tests_cant=why,
             anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech]))
    if state: d['anchors']['state'] = [dict(name=a, meaning=b, where=c) for a, b, c in state]
    if observe: d['anchors']['observe_at'] = observe
    d['anchors']['hook_needed'] = None
    assert len(title) <= 80, title
    P.append(d)

COLL='internal/collation/'
prop('C01', 'Observations reach exactly the record of their key, and no other',
 'Writing an observation to a store changes the record identified by its key field values and no other record; reading a key returns the statistics of all accepted observations carrying that key and of no others. An observation without the key fields changes nothing, and reading a key that was never written returns no values.',
 ['inputs','histories'], 'every sequence of observations over arbitrary key values (colliding slots included), read back through queries for any key',
 'No test exercises storage.Store at all, and bufmap is tested with a single key; probing, slot addressing and record extraction depend on every key value and arrival order.',
 ['internal/storage/storage.go','internal/bufmap/bufmap.go',COLL+'schema.go'],
 [('Store.Write / Store.Read','internal/storage/storage.go'),('Map.Update / Map.Get slot probing','internal/bufmap/bufmap.go'),('FVList.KeyValue',COLL+'schema.go')],
 ['storage.Store.Write','storage.Store.Read'])

prop('C02', 'Row count equals the number of accepted observations',
 'The row-level count of a record equals the number of observations accepted for it, whatever other fields those observations carry, from the first observation onwards.',
 ['inputs','histories'], 'every record state (any count so far), every observation, with or without the measured fields, in any order',
 'Tests count 15 identical rows from a zeroed buffer; they do not vary the fields present, the state reached so far or what the record buffer held before.',
 [COLL+'measure.go',COLL+'schema.go',COLL+'compile.go'],
 [('Count measure',COLL+'measure.go'),('Collator.Update',COLL+'schema.go')], ['collation.Collator.Update','collation.Collator.Read'])

prop('C03', 'Count, sum, mean and variance of a field match their definitions',
 'For a numeric field, the count is the number of observations carrying the field, the sum their total, the mean sum/count and the variance the sample variance (undefined for fewer than two); observations lacking the field do not influence them. This holds for any combination and order of these measures in the schema.',
 ['inputs','histories','configurations'], 'every sequence of finite observation values and every combination and order of count/sum/mean/variance configured on the field',
 'One eight-value and one three-value example are tested; the recurrences must be right for every running state and value, and for every schema that shares the summary between measures.',
 ['internal/summary/stat64/stats.go',COLL+'measure.go',COLL+'compile.go'],
 [('stat64.Summary.Update (Welford)','internal/summary/stat64/stats.go'),('shared stat64 region',COLL+'compile.go')], ['collation.Collator.Read'])

prop('C04', 'Max and min are the exact extremes of the values observed',
 'The max (min) of a field is exactly the largest (smallest) number among the values observed for it in that record, in any order of arrival, no matter how many observations without the field came before the first one with it. A value that is not a number never changes an established extreme.',
 ['inputs','histories'], 'every sequence of float64 values including negatives, zeros and infinities, interleaved with observations lacking the field',
 'No test covers Max or Min; the first-value case, negative-only data and late-arriving fields are invisible to example tests.',
 [COLL+'measure.go',COLL+'schema.go'], [('Max / Min measures',COLL+'measure.go'),('record initialisation',COLL+'schema.go')], ['collation.Collator.Read'])

prop('C05', 'Unique count ignores duplicates, order and unrelated fields',
 'The unique count of a field equals the estimate a fresh counter of the configured precision gives for the set of values observed for that field in that record: repeating values, reordering them, or interleaving observations that lack the field makes no difference, and no such observation is refused.',
 ['inputs','histories','configurations'], 'every sequence of field values, in any order with any repetition, for every supported precision',
 'One twelve-value sequence at precision 6 is tested, with the field present in every row.',
 [COLL+'measure.go',COLL+'schema.go','internal/summary/hll/hll.go'], [('Cardinality measure',COLL+'measure.go'),('hll.Counter.Add','internal/summary/hll/hll.go')], ['collation.Collator.Update','collation.Collator.Read'])

prop('C06', 'Every configured measure has its own storage and answers queries',
 'For any schema, every configured measure of every field is readable under its own field and measure name, and reads the statistic of that field only. Updating one measure or field never alters the value reported by another, and an update touches only the first Size() bytes of the record buffer.',
 ['configurations','inputs'], 'every schema of up to the stated number of fields and measures, in any order, and every update',
 'The layout is computed from the schema; tests compile three fixed schemas, none with two fields.',
 [COLL+'compile.go',COLL+'schema.go',COLL+'measure.go'], [('Schema.Compile layout',COLL+'compile.go'),('Collator.Read',COLL+'schema.go')], ['collation.Schema.Compile','collation.Collator.Size','collation.Collator.Read'])

prop('C07', 'The first update initialises a record whatever its buffer held',
 'When an update is flagged as the first for a record, the resulting statistics depend only on that observation, not on the bytes that happened to be in the record buffer.',
 ['inputs'], 'every prior content of the record buffer and every first observation',
 'Tests always start from a freshly zeroed buffer.',
 [COLL+'schema.go',COLL+'measure.go'], [('Collator.Update init handling',COLL+'schema.go')], ['collation.Collator.Update'])

prop('C08', 'A rejected observation leaves the statistics unchanged',
 'If applying an observation to a record reports an error, every statistic of that record reads the same as before, later valid observations are still accepted, and a record never created by an accepted observation stays absent.',
 ['inputs','histories','fault_sequences'], 'every record state and every observation that is refused because one of its values cannot be parsed, at any position in the row, including the first observation of a key',
 'No test feeds a value that fails to parse.',
 [COLL+'schema.go','internal/bufmap/bufmap.go','internal/storage/storage.go'], [('Collator.Update error path',COLL+'schema.go'),('Map.Update error path','internal/bufmap/bufmap.go')], ['storage.Store.Write','storage.Store.Read'])

prop('C09', 'The routing key depends only on the key fields and their values',
 'The key computed for an observation or a query is a function of the schema key fields and their values alone: other fields, their values and the order of fields make no difference, observation and query agree, and a key is reported missing exactly when some key field is absent.',
 ['inputs','configurations'], 'every row and query up to the stated number of fields and lengths, every permutation of fields, every set of keys',
 'Four fixed rows are tested, all with fields in key order.',
 [COLL+'schema.go'], [('FVList.KeyValue',COLL+'schema.go')], ['collation.Row.KeyValue','collation.Query.KeyValue'])

prop('C10', 'Different key values identify different records',
 'Two observations whose key field values differ are never routed to the same record (up to collisions of the ideal 64-bit key hash), and every byte of every key value takes part in the distinction.',
 ['inputs'], 'every pair of key value tuples up to the stated lengths',
 'Tests compare four hashes with themselves; they cannot show two different tuples never coincide.',
 [COLL+'schema.go','internal/hash/fnv/fnv.go'], [('FVList.KeyValue hashing',COLL+'schema.go')], ['collation.Row.KeyValue'])

prop('C11', 'Observation lines are split into exactly their fields and values',
 'A line made of a decimal timestamp, a delimiter byte and key=value items separated by that delimiter yields exactly those keys and values in the statistics it updates, whatever bytes the values hold (other than the delimiter and the line ending, which is a newline or a carriage return and a newline); a line without a leading valid timestamp is refused with an error status. No line, however malformed, crashes the server.',
 ['inputs'], 'every line up to the stated length, every delimiter byte',
 'There is no test of the server package.',
 ['internal/server/server.go'], [('parseRow / parseFV','internal/server/server.go')], ['POST /obs'])

prop('C12', 'Queries are parsed into exactly the measures and criteria written',
 "Parsing `select m1(f1), m2(f2) where k1='v1' and k2='v2'` yields exactly the requested measures, grouped by field in the order fields first appear, and exactly the listed criteria, for all measure, field and key names and all values free of quotes and newlines, regardless of keyword case and spacing. Text without the select/where form is an error, never a crash.",
 ['inputs'], 'every name and value up to the stated length',
 'Seven fixed queries are tested (and fail at random because grouping iterates over a map).',
 ['internal/query/rough.go'], [('RoughParse regular expressions','internal/query/rough.go')], ['query.RoughParse'])

prop('C13', 'POST /obs applies each line once, in order, to every collation',
 'An observation request answered with success has had each of its lines applied exactly once to every collation, in order, before the response completes; otherwise the response carries an error status. Requests with other methods or unsupported content types, and requests already cancelled, apply nothing.',
 ['inputs','histories','fault_sequences'], 'every body up to the stated number and length of lines, every supported way of sending it, cancellation before any line',
 'There is no test of the server package.',
 ['internal/server/server.go','internal/storage/storage.go'], [('recvObservation','internal/server/server.go'),('Store.Write','internal/storage/storage.go')], ['POST /obs','storage.Store.Write'])

prop('C14', 'Query responses report the requested measures of the named collation',
 'GET or POST /collation/{name}?q=... answers from the collation of exactly that name: it echoes the criteria and then lists each requested measure that exists with its current value, one per line as measure(field)=value, and reading changes nothing. Unknown collations give 404, unparsable queries 400, and other methods 405.',
 ['inputs','histories','configurations'], 'every collation name, query and record state up to the stated sizes',
 'There is no test of the server package.',
 ['internal/server/server.go',COLL+'schema.go','internal/storage/storage.go'], [('queryCollation','internal/server/server.go'),('FMV.String',COLL+'schema.go')], ['GET /collation/{name}'])

prop('C15', 'The record map stores, finds and updates records like an ideal map',
 'For any sequence of updates and reads, the buffer map behaves as a map from non-zero keys to fixed-size buffers: a read returns the full buffer last produced by the update function for that key and reports absent keys as absent, the update function sees the current buffer of its own key only and is told it is the first use exactly until one update of that key succeeds. Key zero is refused, and a full probe range is reported as an error without disturbing other keys.',
 ['inputs','histories'], 'every sequence of operations with arbitrary 64-bit keys, every map length and buffer size within the stated bounds, colliding and wrapping probes included',
 'Tests use one key in a 1000-slot map.',
 ['internal/bufmap/bufmap.go'], [('Map.Update','internal/bufmap/bufmap.go'),('Map.Get','internal/bufmap/bufmap.go')], ['bufmap.Map.Update','bufmap.Map.Get'])

prop('C16', 'Concurrent record updates are atomic and readers never see torn records',
 'With concurrent updates and reads of the record map, no update is lost, updates of the same key never overlap, one key never occupies two records, exactly one update of a new key is told it is the first and it runs before all others, and a read returns a buffer state left by some complete update, never a mixture.',
 ['schedules'], 'every sequentially consistent interleaving of the stated number of updaters and readers, on the same or colliding keys',
 'The one concurrent test samples schedules of identical increments of one key; torn reads and creation races need particular interleavings.',
 ['internal/bufmap/bufmap.go'], [('slot CAS, per-slot mutex and sequence counter','internal/bufmap/bufmap.go')], ['bufmap.Map.Update','bufmap.Map.Get'])

prop('C17', 'The increment map sums increments per key for any history and schedule',
 'The value of a key equals the sum (mod 2^64) of all increments accepted for it, whether they ran one after another or concurrently; increments of one key never appear under another, a refused increment changes nothing, and key zero is never accepted or found.',
 ['inputs','histories','schedules'], 'every sequence of increments with arbitrary keys and amounts, and every sequentially consistent interleaving of concurrent increments',
 'Tests use well-spread keys and concurrent increments of one key only, sampling schedules.',
 ['internal/incmap/incmap.go'], [('Map.Inc slot CAS','internal/incmap/incmap.go')], ['incmap.Map.Inc','incmap.Map.Get'])

prop('C18', 'The seqlock is atomic for readers and writers',
 'A read returns exactly the data of some complete write, never a mixture of two; updates are applied one at a time on the latest data and none is lost; an update whose function fails leaves the data unchanged and later operations unaffected.',
 ['schedules','inputs','fault_sequences'], 'every sequentially consistent interleaving of the stated readers and writers, all data values, failing update functions',
 'The tests sample schedules of identical increments and never fail an update or read during a write.',
 ['internal/seqlock/seqlock.go'], [('Seqlock Get/Put/Update','internal/seqlock/seqlock.go')], ['seqlock.Seqlock'])

prop('C19', 'Packed buckets behave as an array of saturating counters',
 'For every bucket width from 1 to 8 and every bucket count, setting a bucket makes that bucket read the value capped at the width maximum, incrementing saturates at that maximum, and no other bucket changes; resetting zeroes every bucket, and the counting functions agree with the individual buckets.',
 ['inputs','configurations'], 'every prior content, width 1..8, bucket count, index and value',
 'Tests use three hand-written four-bucket examples; widths 5-7, byte-straddling neighbours and saturation at each alignment are not covered.',
 ['internal/bitbucket/bitbucket.go'], [('extract/get/set/incn bit arithmetic','internal/bitbucket/bitbucket.go')], ['bitbucket.BitBucket'])

prop('C20', 'Serialising and reloading a summary preserves it exactly',
 'Writing a bit bucket, bloom filter or cardinality counter and reading it back, by stream or by adopting the bytes, gives an object indistinguishable from the original; the number of bytes written equals the advertised length, stray trailing data or a foreign version is refused on stream reads, and an error of the reader or writer is always reported.',
 ['inputs','configurations'], 'every content, width, size and precision within the stated bounds, every way the reader chunks its input',
 'Tests round-trip one instance each and compare only headers.',
 ['internal/bitbucket/bitbucket.go','internal/summary/bloom/bloom.go','internal/summary/hll/hll.go'], [('WriteTo/ReadFrom/WithBytes','internal/bitbucket/bitbucket.go')], ['WriteTo','ReadFrom','WithBytes','Len'])

prop('C21', 'Decoding arbitrary bytes gives an error or a usable summary, no panic',
 'Given any byte sequence, decoding it as a bit bucket, bloom filter or cardinality counter (by adoption or by stream) either returns an error or returns an object on which every operation works within its own buckets; it never panics and never reads or writes outside the given bytes.',
 ['inputs'], 'every byte sequence up to the stated length',
 'Tests decode well-formed data and one wrong version.',
 ['internal/bitbucket/bitbucket.go','internal/summary/bloom/bloom.go','internal/summary/hll/hll.go'], [('header validation in WithBytes/ReadFrom','internal/bitbucket/bitbucket.go')], ['WithBytes','ReadFrom'])

prop('C22', 'A bloom filter never forgets an item',
 'After an item is added to a bloom filter it is reported present, and stays so whatever else is added and across serialisation, for every filter size, number of hash functions and prior content; adding an item never clears what was set before, and an empty filter reports nothing present.',
 ['inputs','histories','configurations'], 'every item up to the stated length, filter size, hash count and prior filter content',
 'One item in one 1024-bit filter is tested.',
 ['internal/summary/bloom/bloom.go','internal/bitbucket/bitbucket.go'], [('double hashing in Add/Has','internal/summary/bloom/bloom.go')], ['bloom.Bloom.Add','bloom.Bloom.Has'])

prop('C23', 'Adding to a cardinality counter is a register maximum of the item hash',
 'Adding an item raises exactly one register, the one selected by the leading bits of the item hash, to the position of the first set bit of the rest if that is larger, for every precision from 4 to 18 and every prior content; so adding is idempotent and order-independent and never lowers a register.',
 ['inputs','configurations','histories'], 'every 64-bit hash value, precision and prior register content',
 'Tests check statistical error on pseudo-random data, where a biased or misplaced register for rare hashes does not show.',
 ['internal/summary/hll/hll.go','internal/bitbucket/bitbucket.go'], [('Counter.Add','internal/summary/hll/hll.go')], ['hll.Counter.Add','hll.Counter.WriteTo'])

prop('C24', 'Small cardinality estimates follow linear counting and are never negative',
 'An empty counter estimates zero and a non-empty one a positive number; as long as the linear-counting estimate is within the published threshold for its precision, the estimate is exactly the linear count of the occupied registers, whatever the register values are, and past it the estimate is that of one of the other two estimators the counter offers.',
 ['inputs','configurations'], 'every register content in the linear-counting region for the stated precisions',
 'Tests compare averages over ten seeds with loose error bounds.',
 ['internal/summary/hll/hll.go'], [('Counter.Count','internal/summary/hll/hll.go')], ['hll.Counter.Count'])

prop('C25', 'The FNV hashes equal standard FNV-1 and FNV-1a for every input',
 'Every entry point of the hash package (streaming by bytes, strings, single bytes and integers, and one-shot over strings and byte slices) yields the standard 64-bit FNV-1 / FNV-1a value of the bytes written, however they are split across calls.',
 ['inputs'], 'every running hash state and every input up to the stated length, every split into calls',
 'Tests compare a few golden strings.',
 ['internal/hash/fnv/fnv.go'], [('FNV multiply/xor loops','internal/hash/fnv/fnv.go')], ['fnv.Fnv64','fnv.Fnv64a','fnv.Sum64','fnv.String64'])

prop('C26', 'A batch update of a summary equals the same updates one by one',
 'Updating a statistical summary with a list of values gives bit for bit the same summary as updating with each in turn; a reset summary equals a new one, and a summary over a larger buffer touches only its own 32 bytes.',
 ['inputs','histories'], 'every summary state and every list of values up to the stated length',
 'One eight-value example is tested for each entry point separately.',
 ['internal/summary/stat64/stats.go'], [('Summary.Update / UpdateMulti','internal/summary/stat64/stats.go')], ['stat64.Summary'])

prop('C27', 'Estimate-quality statistics match their textbook definitions',
 'The sum, mean and sample variance of a list, and the standard error of an estimate, equal their textbook definitions in exact arithmetic for every list long enough to define them (the standard error for three values or more), and the mean and variance are undefined exactly for lists too short to define them.',
 ['inputs'], 'every list of values up to the stated length',
 'The package has no tests of its own.',
 ['internal/stats/stats.go'], [('Meanvar, Sum, See','internal/stats/stats.go')], ['stats.Meanvar','stats.Sum','stats.See'])

prop('C28', 'Queries never modify records and repeat identically',
 'Reading any measures from a record leaves its stored bytes unchanged, so repeating a query with no observation in between gives the same answer; values come back once per request in the order asked, and measures that are not configured are omitted.',
 ['inputs','configurations'], 'every record content and every list of requested fields and measures within the stated bounds',
 'No test calls Collator.Read.',
 [COLL+'schema.go',COLL+'measure.go'], [('Collator.Read',COLL+'schema.go')], ['collation.Collator.Read','storage.Store.Read'])

prop('C29', 'Cardinality and false-positive estimates meet their error rates',
 'Over independent random items, cardinality estimates have the published standard error for their precision and bloom filters the configured false-positive rate.',
 ['inputs'], 'the distribution of hash values over random item sets of any size',
 'Tests sample a handful of seeds with loose bounds.',
 ['internal/summary/hll/hll.go','internal/summary/bloom/bloom.go'], [('Counter.Count estimators','internal/summary/hll/hll.go'),('mk','internal/summary/bloom/bloom.go')], ['hll.Counter.Count','bloom.Bloom.Has'])

prop('C30', 'The daemon shuts down only on a terminating signal',
 'A started server keeps serving requests until the process receives SIGINT or SIGTERM, whatever other signals come before, and then returns even if the signal comes before it waits for one; a server that cannot listen returns an error.',
 ['schedules','inputs'], 'every sequence of signals and their arrival before or while the server waits',
 'There is no test of Serve; a lost or misjudged signal needs a particular signal at a particular moment.',
 ['internal/server/server.go'], [('Serve / waitSignal','internal/server/server.go')], ['server.Server.Serve'])

prop('C31', 'Operations running at the same time behave as if each ran alone',
 'Observations written and queries read at the same time, through a store or over HTTP, give the state and the answers of some order of running them one at a time; no operation ever works with the fields, keys or values of another, whichever records and collations they use, and none crashes the process by unsynchronised use of shared data.',
 ['schedules','inputs'], 'every sequentially consistent interleaving of two or three operations at the accesses they share, all observation values',
 'No test runs two requests or two store operations at the same time; a shared buffer, map or cached row only fails under a particular interleaving.',
 ['internal/storage/storage.go','internal/collation/','internal/server/server.go','internal/query/','internal/bufmap/bufmap.go'], [('Store.Write / Store.Read','internal/storage/storage.go'),('observation and query handlers','internal/server/server.go'),('Collator.Update / Read / Keys','internal/collation/')], ['storage.Store','server.Server'])

prop('C32', 'Bloom filter estimates follow from the bits that are set',
 'The estimated number of items of a bloom filter follows from the number of bits set: it is -m/k ln(1-x/m) rounded up, zero exactly for an empty filter, never negative, and larger than any other for a full one; the estimated error rate is a probability, zero exactly for an empty filter, and raised by every bit that is set (up to rounding); and a filter made for n items at a rate p has the length announced and the room to hold n items at about that rate, without more bits than it needs.',
 ['inputs','configurations','histories'], 'every bit pattern of small filters, of eight bits of larger ones, and every capacity up to 256 (and 83 times that) at the stated rates',
 'The tests of Count use two filters filled with pseudo-random items and ErrorRate has none.',
 ['internal/summary/bloom/bloom.go','internal/bitbucket/bitbucket.go'], [('Bloom.Count / ErrorRate','internal/summary/bloom/bloom.go'),('mk','internal/summary/bloom/bloom.go'),('BitBucket.CountN','internal/bitbucket/bitbucket.go')], ['bloom.Bloom.Count','bloom.Bloom.ErrorRate','bloom.New','bloom.Len'])

with open(os.path.join(os.path.dirname(__file__), '..', 'properties.jsonl'), 'w') as f:
    for p in P: f.write(json.dumps(p, ensure_ascii=False) + '\n')
print(len(P), 'properties')
