package main

var notApplicable = []interface{}{}

var p2pOnly = []rewrite{{pkg: "p2p", imports: map[string]string{"net": "vnet"}}}

var p2pDelays = []rewrite{
	{pkg: "p2p", imports: map[string]string{"net": "vnet", "sync": "vdelay"}},
	{pkg: "cryptonote", imports: map[string]string{"sync": "vdelay"}},
	{pkg: "config", imports: map[string]string{"sync": "vdelay"}},
}

var specs = map[string]spec{
	"C01": {
		phases:    []phase{{name: "c01", dir: "c01"}},
		level:     "exploration",
		technique: "exhaustive bounded enumeration of the real codec against a big-integer reference",
		note:      "Complete up to 2 bytes / 2 characters and over boundary alphabets per block size up to 2 full blocks; not a proof beyond them (blocks are independent).",
		rule:      "Byte strings and texts enumerated block by block; each distinct string compared in both directions with an arbitrary-precision reference.",
		bounds:    "all byte strings of length 0..2; {0,1,7f,80,ff}^n for n=3..8; values around every multiple of every power of 58 and 256 in every block size with 0..2 full blocks before it; all strings of 0..2 bytes, all 3-character strings over the alphabet and foreign characters; lengths 1..24 (35) with every byte at every position of ten base strings; 11-character blocks over extreme digits",
	},
	"C02": {
		phases:    []phase{{name: "c02", dir: "c02"}},
		level:     "exploration",
		technique: "exhaustive bounded enumeration of the real code against an independent address parser",
		note:      "All single edits and all pairs over a small alphabet of four addresses; tags and keys over boundary sets.",
		rule:      "Tags and keys enumerated; every edit of valid texts up to the stated distance compared with an independent parser, both on a fresh and on a used address.",
		bounds:    "24 tags x key pairs from a boundary set; four addresses: every character replaced by each alphabet or foreign character, every swap, cut, deletion, insertion and bit of the decoded bytes (also with the checksum made right), two replaced characters over {1,2,z,s}; payload lengths 0..199 with every tag and a valid checksum; every value of every checksum byte",
	},
	"C06": {
		phases:    []phase{{name: "c06", dir: "c06"}},
		level:     "exploration",
		technique: "exhaustive bounded enumeration of the real code against a recursive tree hash",
		note:      "Complete in the list length up to the bound; leaf values from four kinds.",
		rule:      "Every list length up to the bound with four kinds of leaves; every edit (change, drop, double, swap) of lists up to the second bound.",
		bounds:    "lengths 1..300 (1..1100 thorough) x 4 kinds of leaves; edits of every element for lengths up to 70 (300); branches of depth up to 256; one kind of leaf at every length up to 2200 (9000) and around powers of two up to 2^14 (2^18)",
	},
	"C16": {
		phases:    []phase{{name: "c16", dir: "c16"}},
		level:     "exploration",
		technique: "exhaustive bounded enumeration of the real code against a digit-by-digit model",
		note:      "All small amounts and all amounts of up to three non-zero digits from a digit set, for 20 fixed and 42 relative thresholds.",
		rule:      "Amount and threshold pairs enumerated; chunks and dust compared with a digit model.",
		bounds:    "all amounts below 2^17 (2^21 thorough) x 20 thresholds; all amounts with up to 3 non-zero digits of {1,5,9} (1..9) at any of 20 places, runs of nines, 64-bit limits x 62 thresholds; validity of every canonical amount, its neighbours and every amount above",
	},
	"C29": {
		phases:    []phase{{name: "c29", dir: "c29"}},
		level:     "exploration",
		technique: "exhaustive bounded enumeration of the real code against exact arithmetic",
		note:      "Boundary values of every bit position squared; all slices over a boundary alphabet up to the length bound.",
		rule:      "All pairs of boundary values x 13 divisors; all slices over a 7-value alphabet up to the length bound; windows of the lengths the chain uses, rotated and reversed.",
		bounds:    "about 100 (200 thorough) 64-bit values squared; slices over {0,1,2,7,2^63,2^64-2,2^64-1} up to length 6 (8); windows 11..200 with every rotation; all orders of 7 elements",
	},
	"C30": {
		phases:    []phase{{name: "c30", dir: "c30"}},
		level:     "exploration",
		technique: "exhaustive bounded enumeration of the real code over unlock times, heights and moments in virtual time",
		note:      "Complete for small heights and at the boundaries of every term; the clock is the virtual one of testing/synctest.",
		rule:      "Unlock times x heights x moments of a virtual clock, compared with the rule written out in the harness.",
		bounds:    "all pairs of unlock times and heights below 400 (4000 thorough); boundary unlock times of every bit x boundary heights; a history of 13 moments from 2000 to 2108, each with the boundary unlock times around it; both networks",
	},
	"C31": {
		phases:    []phase{{name: "c31", dir: "c31"}},
		level:     "exploration",
		technique: "exhaustive enumeration of operation sequences on the real list against a model list",
		note:      "Complete for sequences up to the depth bound over 3 (4) hashes that differ in single bytes.",
		rule:      "All sequences of append, remove and drop-first operations; after each operation the list and every look-up are compared with the model; plus removal by the address of an element of the list itself.",
		bounds:    "depth 6 over 3 hashes (7 over 4, thorough), lists with and without room behind them; lists of up to 8 elements, every element removed by its own address, with and without repetitions",
	},
	"C32": {
		phases:    []phase{{name: "c32", dir: "c32", instrument: []rewrite{{pkg: "p2p", imports: map[string]string{"net": "vnet"}}, {pkg: "cmd", imports: map[string]string{"os/signal": "vsignal"}}}}, {name: "c32-process", dir: "c32p"}},
		level:     "exploration",
		technique: "exhaustive enumeration of peer behaviour and moments of interruption against the real daemon command",
		note:      "The command runs on an in-memory network in virtual time with signals sent by the harness, and the built program as a process on the loopback network of a namespace of its own.",
		rule:      "All sequences of peer events up to the depth bound x 4 ways to interrupt; a scripted exchange interrupted at every moment of a grid; days of idling; hundreds of connections ended in each of the ways, one after another and at once; the built program through all shorter sequences, with and without configuration files.",
		bounds:    "sequences of up to 3 (4 thorough) of 12 events; moments every 500 ms (50 ms) up to 15 s; 2 (40) days, 300 (5000) connections; program: sequences of up to 2 (3) of 9 events, 7 configurations; an end must come within a minute",
	},
	"C33": {
		phases:    []phase{{name: "c33", dir: "c33"}},
		level:     "exploration",
		technique: "exhaustive bounded enumeration of the real code against big-number arithmetic and the curve's definition",
		note:      "Every limb boundary, every window of every table and all points of small order; complete for the listed sets, not for all 2^256 values.",
		rule:      "Scalar and field functions on all limb and byte patterns listed and on all pairs of them; group functions on all pairs of a set of points with every small-order component; products with every digit at every place, pairs of adjacent windows, and boundary numbers; all boundary encodings decoded and mapped to points. Compared with big integers and with the curve equation.",
		bounds:    "about 80000 32-byte and 45000 64-byte numbers (all 12-limb masks; 16-limb, thorough); about 1000 numbers pairwise with sums, differences and products aimed at the edges of the reduced range; 900 field elements pairwise; 44 points pairwise; 17000 windows; 8000 sliding windows; 9000 (80000) encodings",
	},
	"C34": {
		phases:    []phase{{name: "c34", dir: "c34"}},
		level:     "exploration",
		technique: "exhaustive bounded enumeration of structure types and values on the real code against an independent encoder",
		note:      "Structure types are made at run time from all kinds of entries; complete over the kinds, their combinations and boundary values listed.",
		rule:      "Structures of one, two, three and many entries of all kinds (all integer widths, doubles, booleans, named types, strings, fixed, free and packed binaries, arrays of each, nested structures), every boundary value, with and without omitempty, encoded and compared byte by byte with an encoder written from the format; decoded into fresh and used memory; every cut; every kind written and read as every other; kinds outside the format for panics and silent changes. Not judged: packed lists read item by item and vice versa, an empty array of another type.",
		bounds:    "80 kinds of entries, 12600 values of one entry, all pairs of kinds with 36 combinations each, all triples of 22 (80) kinds, structures of up to 300 entries, nesting to depth 3 (5) from 321 structures and to depth 40 along one line; lists and binaries with lengths around every size prefix up to 2^20; 134 x 134 kinds crossed; 61 foreign kinds; arrays of 11 kinds at 18 lengths up to 2^17 (2^20)",
	},
	"C36": {
		phases: []phase{
			{name: "c36-chain", dir: "c36", extra: map[string]string{"export": "cryptonote"}},
			{name: "c36-node", dir: "c36n", extra: map[string]string{"export": "cryptonote"}, instrument: p2pOnly},
		},
		level:     "fault_enumeration",
		technique: "exhaustive enumeration of storage failures, ends of the process and restarts over histories of offered blocks, on the real chain and the real node",
		note:      "The storage is the repository's memory storage behind a layer that keeps it when the chain object is dropped, fails calls and ends the process (by unwinding) at calls. A write that fails leaves nothing behind; a storage that writes and then reports a failure, and reads that silently miss old blocks, are not judged. No storage on disk exists in the repository.",
		rule:      "Blocks (with and without transactions, competing, their children, an invalid one) offered in every order while the write fails, the predecessor is not read or the process ends just before or after the write, with restarts whose start fails, and locators for which a hash is not read; after every step top, height, known blocks, storage and locator are compared with the list of accepted blocks, at the end totals and the verdict on every block with a chain that never failed. The process also ends at every single storage call of an addition, a start and a locator. First blocks that cannot be read and storages of other networks. Synchronizing nodes whose storage fails at chosen writes and reads or that are restarted between answers; honest peers complete the chain Blocks just beyond and on the limits set by the accepted blocks are judged at the end.",
		bounds:    "36 letters to depth 3 (4) on one or two histories and 2 (3) on six, over all block versions; every call of 18 additions x 8 histories; 480 unreadable first blocks, about 170 other networks; 7 (11) blocks ahead, 4 answer sizes, 3 chain lengths, all pairs (some triples; all triples) of 28 failures",
	},
	"C35": {
		phases:    []phase{{name: "c35", dir: "c35"}},
		level:     "exploration",
		technique: "exhaustive bounded enumeration of keys and of the random source's answers on the real code against the curve's definition",
		note:      "Complete over the numbers listed, not over all 2^256.",
		rule:      "256-bit numbers near zero, near every multiple of the group order and of the field's prime and near every power of two, of one and of repeated bytes, and hashes, each taken as secret key, public key and key image and compared with the curve's definition; the random source replaced by one giving these numbers in pieces of all sizes, and failing at every byte.",
		bounds:    "about 6000 (70000) numbers; 56 (416) images by 32 numbers; 18000 (200000) draws, ten ways of cutting every 50th; 64 places of failure in 9 ways",
	},
	"C12": {
		phases:    []phase{{name: "c12", dir: "c12"}},
		level:     "exploration",
		technique: "exhaustive bounded enumeration of the real parser against an independent parser",
		note:      "Complete for short strings and for field sequences up to the depth bound; four spots the format leaves open are not judged.",
		rule:      "Byte strings enumerated: all short ones, all sequences of up to 3 (4) well and ill formed fields with every cut, every byte of valid pairs changed; compared with an independent parser. Not judged: 255 or 256 zeros after a padding tag, numbers not in shortest form, merge-mining depth of more than one byte, an empty nonce after another.",
		bounds:    "all strings of up to 2 bytes, 3 bytes with a tag byte below 6 (all, thorough), all strings over 8 structural bytes up to length 6 (8); all sequences of up to 3 (4) of 37 fields, cut at every byte of the last for up to 2 (3); padding and nonces of every length up to 599",
	},
	"C13": {
		phases:    []phase{{name: "c13", dir: "c13", instrument: []rewrite{{pkg: "config", mapRange: true}}}},
		level:     "exploration",
		technique: "exhaustive enumeration of heights and of all map iteration orders on the instrumented real code",
		note:      "Map iteration order is made a choice of the harness in an instrumented copy; all orders of the upgrade table are walked for all heights up to the bound.",
		rule:      "Every height x every order of the upgrade table, compared with the published schedule written out in the harness.",
		bounds:    "every height below 710000 (2000000 thorough), boundary heights up to 2^32-1, 24 map orders at every 500th and every boundary height (every height, thorough), extra sizes 0..2000 x 8 fees",
	},
	"C14": {
		phases:    []phase{{name: "c14", dir: "c14"}},
		level:     "exploration",
		technique: "exhaustive bounded enumeration of the real code against arbitrary-precision arithmetic",
		note:      "Complete over a boundary product; medians up to 2^32-1 (the divisor is a 32-bit number in the format).",
		rule:      "Product of versions, medians, sizes (around the median and twice the median), generated amounts (around every halving, the tail's begin and the supply) and fees, compared with arbitrary precision; then the emission chained block by block.",
		bounds:    "5 versions x 19 medians up to 2^32-1 x about 20 sizes each x about 130 generated amounts up to 1.8e19 x 10 fees (thorough: medians and fees around every power of two); 200000 (5000000) chained blocks",
	},
	"C15": {
		phases:    []phase{{name: "c15", dir: "c15"}},
		level:     "exploration",
		technique: "exhaustive bounded enumeration of windows on the real code against an arbitrary-precision reference",
		note:      "Uniform windows with up to two deviating elements at every position, and all short windows over an alphabet; version 3 within 1e-9 (floating point in the protocol), windows with a non-positive weighted sum in version 4 only within the clamp.",
		rule:      "Windows enumerated by version, height (each step of the version 5 reset, both sides of the LWMA-3 switch), length, base solve time, difficulty shape and deviations; compared with an arbitrary-precision reference.",
		bounds:    "all lengths of versions 2, 3 and 5 and the start, cut and full lengths of version 1 (all, thorough); heights 700000..700121 all; 24 solve times x 7 difficulties x 4 shapes x 3 offsets; one deviation of 7 solve times or 4 difficulties at every position, a second one near the first and at the ends for selected lengths (all positions up to length 121, thorough); all short windows of up to 4 (6) steps over 6 solve times and 3 difficulties; all ends of version 4 windows",
	},
	"C03": {
		phases:    []phase{{name: "c03", dir: "c03", pkg: "crypto"}},
		level:     "exploration",
		technique: "exhaustive bounded enumeration of keys, points and indexes on the real code against curve arithmetic by definition",
		note:      "Products of boundary secrets, points (with small-order parts) and indexes; not a proof of the field arithmetic.",
		rule:      "Secrets (boundaries of the group order, powers of two, hashes) x points (hashed, small order, mixed, encodings around the field prime) x indexes, compared with arbitrary-precision Edwards arithmetic; every bit of every encoding.",
		bounds:    "about 330 secrets x 80 encodings; every single-bit change of every encoding; about 500 key pairs x 18 indexes (141, thorough)",
	},
	"C04": {
		phases:    []phase{{name: "c04", dir: "c04"}},
		level:     "exploration",
		technique: "exhaustive enumeration of random-source behaviours and single-bit changes on the real code",
		note:      "The signer's random source is the environment: all sequences of up to 2 (3) of 14 draws; all single-bit changes; not a cryptographic proof.",
		rule:      "Secrets x hashes x sequences of random draws signed and verified; every bit of hash, key and signature changed; scalars replaced by every boundary and every other representation.",
		bounds:    "10 (16) secrets x 4 hashes x all sequences of up to 2 (3) of 14 draws; 1024 bits of 14 (64) signatures, pairs of bits at the ends; 38 x 38 scalar replacements",
	},
	"C05": {
		phases:    []phase{{name: "c05", dir: "c05"}},
		level:     "exploration",
		technique: "exhaustive enumeration of rings, signer positions, random-source behaviours and single changes on the real code",
		note:      "All ring sizes and positions up to the bound with six kinds of random source, every single-bit and every structural change; not a cryptographic proof.",
		rule:      "Rings x positions x messages x random sources signed and verified (also against verification by definition); every structural change (hash, image, order, member, count, scalar representation, small-order image) and every single bit refused.",
		bounds:    "17 (45) keys, ring sizes 1..5 (12), all positions, 3 messages, 6 kinds of random source; all bits of rings up to 3 (6)",
	},
	"C07": {
		phases:    []phase{{name: "c07", dir: "c07"}},
		level:     "exploration",
		technique: "exhaustive bounded enumeration of messages on the real codec against a schema-driven reference encoder",
		note:      "Products of boundary values per field for all 14 messages; not a proof for values between the boundaries.",
		rule:      "Every combination of per-field alphabets of every message (each field alone over a larger alphabet): encoded bytes compared with a reference encoder written from the format, decoded value with the original, twice.",
		bounds:    "14 messages; integers at width boundaries, fixed values of 2 (5) patterns, binaries of 0..3, 62..65, 255, 256, 16382..16385, 65535, 65536 bytes, lists with element counts around every size-prefix width, arrays of up to 2 (3) objects exhaustively and of 63, 64, 128, 16383, 16384; 2^30-1 and 2^30 bytes (thorough)",
	},
	"C08": {
		phases:    []phase{{name: "c08", dir: "c08"}},
		level:     "exploration",
		technique: "exhaustive bounded enumeration of payloads on the real decoder against a schema-driven reference decoder",
		note:      "Complete for bodies of up to 2 bytes, for token sequences up to the depth bound and for all single edits of valid messages; memory measured for every size prefix.",
		rule:      "Payloads enumerated and compared with a reference decoder (refuse, accept with a value, or left open by the format: duplicate entries, bytes after the message, sizes not in shortest form, a list sent item by item); accepted ones are encoded again. Memory allocated while decoding at most 4 MB plus 2000 times the payload.",
		bounds:    "14 messages: all bodies of up to 2 bytes, all of 4 (6) over 10 structural bytes, all sequences of 4 (5) tokens (entry names, types, sizes, values); about 80 valid messages: all prefixes, every byte with every value, bytes put in and cut out; every entry at any depth with 120 typed values, renamed, doubled, dropped, foreign entries, pairs of these; every size prefix with 18 sizes in 4 forms",
	},
	"C09": {
		phases:    []phase{{name: "c09", dir: "c09", pkg: "p2p"}},
		level:     "exploration",
		technique: "exhaustive enumeration of network behaviours (read splits, stream ends, write failures, answers) on the real code",
		note:      "The connection is a scripted stand-in: all single and double cuts of streams of up to 3 frames, all stream ends, all failing write positions.",
		rule:      "Frame sequences x ways the stream is split into reads x places and kinds of its end; every write failure position; every kind of answer to a call; compared with the frames put in.",
		bounds:    "21 frames, all sequences of 1 and 2 and some (all, thorough) of 3; all cuts at up to 2 places, at all places, 3 places for single frames and two pairs; ends at every byte with 5 errors; every value of every signature byte; 17 sizes above the limit, 100 MB exactly; 60 sends failing at every byte with 4 errors; 864 answers cut at every byte",
	},
	"C10": {
		phases:    []phase{{name: "c10", dir: "c10"}},
		level:     "exploration",
		technique: "exhaustive bounded enumeration of blocks and transactions on the real codec against a reference codec",
		note:      "Products of boundary values per field and all list lengths up to the bound; the signature of a version 5 block is not part of its identifier in the format.",
		rule:      "Transactions and blocks enumerated by shape and boundary values; bytes, size, identifiers, value read back, bytes left over compared with a reference codec; every single change of a field must change the identifier; real blocks with published identifiers anchor the reference.",
		bounds:    "about 50 input lists (up to 128 inputs, 128 ring members) x 5 (20) output lists x extras up to 16384 bytes x unlock values x signature patterns; blocks of versions 1..5 x 13 timestamps x 8 nonces x 4 base transactions x transaction lists of 0..1000 (16384), 28 (64) parent blocks with up to 65535 transactions and branches of 0..127; every single-field change of about 35 transactions and 120 blocks",
	},
	"C11": {
		phases:    []phase{{name: "c11", dir: "c11"}},
		level:     "exploration",
		technique: "exhaustive bounded enumeration of byte strings on the real decoder against a reference decoder",
		note:      "Complete for short strings, for token sequences up to the depth bound and for all single edits of valid encodings; memory measured for every number.",
		rule:      "Byte strings enumerated and compared with a reference decoder (refuse, accept with value, identifier, bytes left over, or left open: numbers not in shortest form, transaction version 0, parent transaction of another version); accepted ones are serialized and hashed. Memory allocated while decoding at most 4 MB plus 2000 times the bytes.",
		bounds:    "all strings of up to 2 (3) bytes; after 18 valid beginnings all strings over 8 structural bytes up to length 6 (8), all of 2 bytes, all sequences of 4 (5) of 16 tokens; about 150 valid encodings: all prefixes, every byte with every value, bytes put in and cut out, 36 numbers at every place, two bytes changed; parent extras of 3 (4) of 21 parts x 3 branch lengths; parent transaction counts up to 70000; 5 real blocks",
	},
	"C19": {
		phases:    []phase{{name: "c19", dir: "c19"}},
		level:     "model_checking",
		technique: "exhaustive enumeration of candidate blocks (all single and paired rule breaches at every era boundary) on the real chain, compared with an executable model of the consensus rules, under virtual time",
		note:      "Heights around every protocol change, four kinds of history; proof of work, transactions outside the checkpoint zone and multisignature outputs are not implemented in the code and not judged.",
		rule:      "States are chains at 38 heights around protocol changes with four kinds of history; transitions offer a block with one or two deviations from a valid one; the verdict and the state afterwards are compared with a model of the rules; blocks at the future limit while time goes on between the offers.",
		bounds:    "38 heights x 2 to 4 histories; about 110 deviations singly (inside and outside the checkpoint zone) and a quarter of (all, thorough) pairs; sizes around every limit; 64 checkpoint patterns; competing blocks up to 12 deep; all sequences of 4 (5) of three pauses and three kinds of block on 6 chains",
	},
	"C21": {
		phases:    []phase{{name: "c21", dir: "c21"}},
		level:     "model_checking",
		technique: "exhaustive enumeration of blocks of transactions (all single and paired rule breaches, at every era boundary) on the real chain, compared with an executable model of the money rules",
		note:      "Acceptance is reachable only inside the checkpoint zone: the code has no output index yet, so every spending transaction outside it is refused.",
		rule:      "States are chains at 25 heights around protocol changes; transitions offer a block with transactions in which one or two things deviate from a valid one; verdict and state afterwards compared with a model of the rules.",
		bounds:    "25 heights x about 330 deviations (inputs, rings, offsets, images, outputs, splits, fees, extras, fusion shapes) singly, in a seventh of (all, thorough) pairs, fusion shapes with 18 deviations; at every position of blocks of 2..4 transactions; wrong claims of the reward; images shared in all ways by 3 transactions; sizes at every limit; 30 key images in 4 kinds of zone",
	},
	"C20": {
		phases:    []phase{{name: "c20", dir: "c20", extra: map[string]string{"export": "cryptonote"}}},
		level:     "model_checking",
		technique: "exhaustive exploration of all sequences of block offers up to a depth on the real chain, every state compared with an executable model",
		note:      "Sequences start at ten heights around protocol changes; totals of every recent block and every offered block's presence are compared after every step.",
		rule:      "States are reached by sequences of offers (valid, with transactions, invalid, duplicate, orphan, competing, forks, large, late, early blocks); after each the top, height, presence of all blocks offered, links, heights and recorded totals are compared with a model; at every step of a long run blocks just beyond the limits its blocks have moved (timestamp, reward) are offered too.",
		bounds:    "14 kinds of offer; all sequences of length 3 from 10 heights, of 4 from 2 (thorough: 4 from 10, 5 from 3); runs of 300 (900) offers from 10 heights through the changes of rules",
	},
	"C17": {
		phases: []phase{
			{name: "c17", dir: "c17", instrument: []rewrite{{pkg: "config", imports: map[string]string{"sync": "vsync"}}}, race: true},
		},
		level:     "model_checking",
		technique: "stateless exploration of all schedules (sleep sets, controlled scheduler, race detector) of the real code with linearizability against a model; exhaustive enumeration of addition sequences",
		note:      "Locks are the only scheduling points; accesses not ordered by them are reported by the race detector in every schedule.",
		rule:      "Threads making calls run under every schedule (one of each class of equivalent ones); results must be explained by a sequential order on a table model, no deadlock, no data race; sequences of additions compared with the table at all queries; every question asked before the first and after every addition.",
		bounds:    "2 threads x 2 calls over 11 calls (a ninth; all, thorough) on 2 beginnings, 3 x 1 and 4 x 1; all sequences of up to 4 (6) additions over 8 heights with 30 query heights and 900 queries for alternatives; asked again after each of 3 (4) additions",
	},
	"C18": {
		phases: []phase{
			{name: "c18", dir: "c18", extra: map[string]string{"export": "cryptonote"}, instrument: []rewrite{{pkg: "cryptonote", imports: map[string]string{"sync": "vsync"}}}, race: true},
		},
		level:     "model_checking",
		technique: "stateless exploration of all schedules (sleep sets, controlled scheduler, race detector) of the real code with linearizability against a model; exhaustive enumeration of insertion sequences",
		note:      "Locks are the only scheduling points; accesses not ordered by them are reported by the race detector in every schedule.",
		rule:      "Threads inserting and looking up run under every schedule (one of each class of equivalent ones); results must be explained by a sequential order on an indexed list; all insertion sequences up to a depth, all lookups compared after every step, the queries through one reused variable and through fresh ones.",
		bounds:    "2 writers x 2 insertions, writer of 2 with reader of 2 or 3, 2 writers with a reader of 2 (a sixth; all, thorough), writer with 2 readers, over 4 insertions and 9 lookups; all sequences of 4 (5) of 13 insertions (right, wrong descriptions, gaps, genesis again)",
	},
	"C22": {
		phases: []phase{
			{name: "c22-schedules", dir: "c22", instrument: []rewrite{{pkg: "cryptonote", imports: map[string]string{"sync": "vsync"}}, {pkg: "config", imports: map[string]string{"sync": "vsync"}}}, race: true},
			{name: "c22-lengths", dir: "c22"},
		},
		level:     "model_checking",
		technique: "stateless exploration of all schedules (sleep sets, controlled scheduler, race detector) of the real code with linearizability against a model; exhaustive enumeration of chain lengths",
		note:      "Locks are the only scheduling points; accesses not ordered by them are reported by the race detector in every schedule.",
		rule:      "The locator of every chain length compared with its definition; locators built while blocks are added run under every schedule and must be those of one top in a sequential order of the calls; the list given back is overwritten and the locator asked for again.",
		bounds:    "all lengths up to 2200 (9000) by adding blocks, up to 700 and around powers of two up to 2^14 (2^17) from storage; 10 to 14 combinations of threads adding up to 3 blocks and building locators on 9 (14) chain lengths",
	},
	"C23": {
		phases: []phase{
			{name: "c23", dir: "c23", instrument: []rewrite{{pkg: "cryptonote", imports: map[string]string{"sync": "vsync"}}, {pkg: "config", imports: map[string]string{"sync": "vsync"}}}, race: true},
		},
		level:     "model_checking",
		technique: "stateless exploration of all schedules (sleep sets, controlled scheduler, race detector) of the real code with linearizability against a model",
		note:      "Locks are the only scheduling points; accesses not ordered by them are reported by the race detector in every schedule. Adding checkpoints while blocks are added is not covered here.",
		rule:      "Threads adding and looking up blocks run under every schedule (one of each class of equivalent ones); results and the final state must be explained by a sequential order of the calls on a list of blocks; no deadlock, no data race.",
		bounds:    "2 writers x 2 (15625 ordered pairs of lists, halved by symmetry), 3 (4) writers x 1, writer of 2 with reader of 2 (3), 2 writers with a reader of 2, writer of 2 with 2 readers, over 5 blocks (two competing, their children, an invalid one) and 5 lookups, on chains of 1 and 4 (13) blocks",
	},
	"C26": {
		phases: []phase{
			{name: "c26-schedules", dir: "c26", extra: map[string]string{"exportp2p": "p2p"}, instrument: []rewrite{{pkg: "p2p", imports: map[string]string{"sync": "vsync"}}}, race: true},
			{name: "c26-sequences", dir: "c26", extra: map[string]string{"exportp2p": "p2p"}},
		},
		level:     "model_checking",
		technique: "stateless exploration of all schedules (dynamic partial order reduction, controlled scheduler, race detector) of the real code with linearizability against a model; exhaustive enumeration of move sequences",
		note:      "Locks are the only scheduling points; accesses not ordered by them are reported by the race detector in every schedule.",
		rule:      "All sequences of moves compared with a table of classes after every step; threads moving and listing run under every schedule (one of each class of equivalent ones), results and the final list must be explained by a sequential order; no deadlock, no data race; stores growing to many peers listed at every size.",
		bounds:    "all sequences of 5 (7) moves over 2 classes x 5 peers (two connections of one identity, one without identity); 3 beginnings x 2 threads x 1 over 11 operations, 3 x 1, 2 x 2 over 6 operations, 2 + 1 + 1 (a third; all, thorough), 3 + 2 and 4 x 1 (thorough); up to 1100 (5000) peers in 4 patterns, then moved one by one",
	},
	"C24": {
		phases: []phase{
			{name: "c24", dir: "c24", instrument: p2pOnly},
			{name: "c24-delays", dir: "c24", instrument: p2pDelays},
		},
		level:     "model_checking",
		technique: "exhaustive exploration of message sequences against the running node (in-memory network, virtual time) compared with a protocol model",
		note:      "All sequences over the stated messages up to the depth; the network is an in-memory stand-in. Whether a timed sync before the handshake is answered, and whether a malformed message closes the connection, is left open.",
		rule:      "Sequences of messages on one to three connections, growth of the chain and closings played against a running node; after every event the answers (network, version, height, top, time, peer list), the chain requests (the locator) and the closing of connections compared with a model.",
		bounds:    "6 chains (tops 0, 1, 5, 13, 30, with and without checkpoints); all pairs of 51 messages and events; 10 messages and events to depth 4, for top 5 depth 5 (5, 6); 2 and 3 connections to depth 3 and 4 (4 and 5); requests that lack the network, the node or everything",
	},
	"C28": {
		phases:    []phase{{name: "c28", dir: "c28", extra: map[string]string{"exportp2p": "p2p"}, instrument: p2pOnly}},
		level:     "model_checking",
		technique: "exhaustive exploration of a remote peer's behaviours against the node's outgoing side (in-memory network, virtual time) compared with a protocol model",
		note:      "All combinations of the stated answers and all places where the connection or a write can fail; the network is an in-memory stand-in.",
		rule:      "Remote peers with every combination of network, version, identity, top, command and flags, every cut and split of the answer, every failing write, malformed payloads and three further events, played against the node connecting out; messages sent, peer list, trust, closing and return compared with a model; several peers connected to one after another and at once, each judged by its own answer.",
		bounds:    "4 chains x 4 networks x 5 versions x 4 identities x 7 tops x 17 commands and flags; all 256 versions, every byte of the network; every cut with 3 ends, every split, every split with every seventh (every) cut, every failing write; 6 messages before the answer; 343 sequences of 3 (2401 of 4) events after it; every byte of the payload with 7 (all) values and every prefix; 12 addresses where nobody answers; known identities x 4 networks x 2 versions x 2 flags x 7 tops; all sequences of 3 (4) of 10 answers, some lacking fields",
	},
	"C25": {
		phases: []phase{
			{name: "c25", dir: "c25", instrument: p2pOnly},
			{name: "c25-delays", dir: "c25", instrument: p2pDelays},
		},
		level:     "model_checking",
		technique: "exhaustive exploration of honest and deviating peers against the running node (in-memory network, virtual time) compared with a protocol model",
		note:      "The real node runs over an in-memory network in virtual time (testing/synctest), the remote side is the harness: a peer with a valid longer chain built by the reference consensus model. The oracle is the protocol model: which answer must be refused, which must be accepted, what may be asked for; the node's chain is compared after every answer. Answers whose effect the protocol leaves open are judged only by what enters the chain; they are listed in DESIGN.md.",
		rule:      "Honest peers of every length around the batch sizes, with every answer size, growing at any answer; each deviation (about 130) at every answer, after every idle message and after every other deviation; two peers with every order of answers and one leaving; at the end an honest peer always completes the chain.",
		bounds:    "chains 0-24 and +-3 around 128, 256, 384 (to 1280 thorough) ahead, 16 answer sizes; deviations at up to 6 answers of 12 exchanges plus second batches, pairs with idle messages (a third quick, all thorough) and pairs of deviations; two peers: 2^8 (2^11) orders x 32 chain and size combinations, cuts at 3 points; start heights whose list runs over the largest height",
	},
	"C27": {
		phases:    []phase{{name: "c27", dir: "c27", instrument: p2pOnly}},
		level:     "model_checking",
		technique: "exhaustive exploration of sequences of connection events, faults and moments of stopping of the running node (in-memory network, virtual time)",
		note:      "The real node runs over an in-memory network in virtual time (testing/synctest), so the scheduler settles between events and every timer moment is reachable; a goroutine left behind deadlocks the bubble and is reported. Goroutine interleavings inside one event are those of the Go runtime, not enumerated (the shared peer list and chain are explored under the controlled scheduler in C22, C23 and C26).",
		rule:      "Sequences of connection events (handshakes, messages, refused steps, partial and broken frames, close, reset, half close, blocked and failing writes, waiting) with three spacings, each ended by stopping at once, a little later, at the wake-up, after settling, or after seeing that every healthy connection and a new one are served; two connections interleaved; failing accepts of 12 kinds; stopping at every moment of six exchanges; goroutines counted after connections ended; every message under every number in four states; every byte of blocks and transactions asked for.",
		bounds:    "26 events to depth 3 (4 thorough) x 3 spacings x 5 ends; two connections 2+1 (2+2) events in several orders; up to 100 failing accepts in a row and all pairs (triples) of kinds; stops every 100 ms (20 ms) of 16 s; 14 message types x up to 600 (4000) values x 18 numbers; 5 block versions x every byte with 2 (7) values",
	},
}
