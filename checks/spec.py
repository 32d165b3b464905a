SPEC = {}
NOT_APPLICABLE = {}
def prop(pid, feature, bounds, entries, **kw):
    SPEC[pid] = dict(feature=feature, bounds=bounds, entries=entries, **kw)
def H(name, what="", reach=(), **kw):
    return dict(name=name, what=what, reach=list(reach), **kw)

prop("C06", "c06", "byte strings up to 8 bytes, texts up to 6 characters, every byte value; texts up to 4 characters into buffers up to 4 bytes with arbitrary content; texts of up to 160 characters with one arbitrary character", [
    H("c06_encode", "hex and reversed-hex text of every byte string", ["encode"]),
    H("c06_decode", "decoding of every text", ["accepted", "refused", "odd"]),
    H("c06_into", "decoding into buffers", ["into", "refused", "odd", "small"]),
    H("c06_long", "longer texts", ["long", "refused"]),
])

prop("C03", "c03", "every script of length 0..40, and 41..110 bytes with template beginnings or endings; lengths of a template plus 256, 512, 65536 and 131072", [
    H("c03_script", "every script up to 40 bytes, all bytes arbitrary", ["p2pkh", "p2sh", "none"]),
    H("c03_long", "longer scripts", ["none"]),
    H("c03_huge", "far longer scripts", ["none"]),
])
prop("C05", "c05", "byte strings up to 3 bytes and texts up to 3 characters with every value; 25-byte strings with one arbitrary byte; strings of up to 700 bytes; up to 59 leading ones before an arbitrary character; buffers of 0..6 bytes with arbitrary content", [
    H("c05_encode", "positional value of the text", ["encoded"]),
    H("c05_roundtrip", "decode after encode", ["roundtrip"]),
    H("c05_decode", "every text", ["decoded", "invalid", "non-ascii"]),
    H("c05_encode_into", "caller's buffer", ["fits", "small"]),
    H("c05_decode_into", "caller's buffer", ["fits", "small"]),
    H("c05_long", "long strings", ["long"]),
    H("c05_sizes", "longer strings", ["sizes"]),
    H("c05_ones", "leading ones", ["ones", "refused"]),
])
prop("C07", "c07", "byte strings up to 13 bytes, texts up to 5 characters with every value, buffers up to 13 bytes with arbitrary content; strings of 14..133 bytes and of seven lengths up to 3001 with one arbitrary byte", [
    H("c07_encode", "encoding against RFC 4648, decode after encode", ["encoded"]),
    H("c07_encode_into", "caller's buffer", ["fits", "small"]),
    H("c07_decode", "every text", ["bytes", "error"]),
    H("c07_into", "every text into caller's buffers", ["fits", "error"]),
    H("c07_long", "longer strings", ["long"]),
])
prop("C04", "c04", "addresses with one arbitrary hash byte over three patterns and both kinds; all hash values for fixed texts; one arbitrary character replaced, inserted or appended; every text up to 3 characters; payloads of 0..33 bytes; every version byte with its checksum; every payload of up to 29 bytes as in a saved index", [
    H("c04_roundtrip", "format and parse", ["same"]),
    H("c04_checksum", "a fixed text under every hash value", ["accepted", "refused"]),
    H("c04_mutated", "texts one edit away from an address", ["accepted", "refused"]),
    H("c04_short", "short texts", ["refused"]),
    H("c04_payload", "other payload lengths and versions", ["accepted", "refused"]),
    H("c04_versions", "every version", ["accepted", "refused"]),
    H("c04_slices", "payloads", ["accepted", "refused"]),
])
prop("C01", "c01", "one spent and two unspent outputs with scripts, owners, amounts and queried address all arbitrary; every history of 3 transactions (up to 2 inputs and 2 outputs each) over three blocks; repeated coinbase transactions; 300 and 65540 outputs in one transaction; chains of up to 60 blocks of one shape with spends of any age up to 5 blocks; 132000 unspent outputs of one address", [
    H("c01_scripts", "arbitrary scripts, amounts and query", ["none", "some"]),
    H("c01_history", "every small history", ["none", "some"]),
    H("c01_dup", "identical coinbase transactions", ["none", "some"]),
    H("c01_many", "large output numbers", ["many"]),
    H("c01_long", "longer histories", ["long"]),
    H("c01_masses", "tens of thousands of outputs", ["masses"], steps=4_000_000_000, samples=1),
], outside="longer histories, more outputs per address; amounts above 21 million coins")
prop("C02", "c02", "1-2 inputs, 0-2 outputs, scripts up to 3 and witness items up to 40 bytes, every byte of every field arbitrary; lengths 252..256 and 65535..65537 of scripts and witness items, counts 252, 253 and 256; blocks of 1-3 transactions with arbitrary header; 65601 inputs or outputs; blocks of 252, 253, 256 and 300 transactions; any one length or count written with 3, 5 or 9 bytes", [
    H("c02_tx", "arbitrary transactions", ["legacy", "segwit"]),
    H("c02_lengths", "long scripts and witness items", ["legacy", "segwit"]),
    H("c02_counts", "large counts", ["legacy", "segwit"]),
    H("c02_masses", "counts of more than two bytes", ["legacy", "segwit"], steps=4_000_000_000, samples=1),
    H("c02_witness", "arbitrary witness bytes", ["witness"]),
    H("c02_block", "blocks", ["block"]),
    H("c02_many", "blocks with many transactions", ["many"]),
    H("c02_prefixes", "every form of the length prefixes", ["prefixes"]),
], outside="lengths that need the 9-byte prefix (its form is covered with small lengths)")
prop("C08", "c08", "every history of 3 blocks with up to two spends per block, 1-3 threads, batches of 1-4 blocks; every scheduling of 2-3 workers with at most 2 preemptions for chains of up to 3 blocks; transaction ids that return after being spent; chains of 24 and 40 blocks of one shape, nine batch sizes and up to 9 threads with at most 1 departure from round-robin order; 1030 blocks in four batch sizes with 1 and 3 threads", [
    H("c08_shapes", "every small history", ["sequential", "parallel"]),
    H("c08_long", "longer chains", ["long"]),
    H("c08_thousand", "a thousand blocks", ["long"], steps=1_000_000_000),
    H("c08_schedules", "every schedule", ["built"]),
    H("c08_repeat", "repeated transaction ids", ["built"]),
    H("c08_repeat_unspent", "repeated while unspent"),
])
prop("C09", "c09", "two outputs with arbitrary scripts and amounts, arbitrary queried address, two map orders; every history of up to 3 blocks with one spend each; every cut of files with up to 2 blocks and outputs; 258 blocks and 270 outputs; 65600 outputs; 65600 blocks", [
    H("c09_content", "arbitrary content", ["loaded"]),
    H("c09_history", "histories", ["empty", "loaded"]),
    H("c09_next", "accepting and refusing after a load", ["accepted", "refused"]),
    H("c09_truncated", "files cut short", ["refused"]),
    H("c09_many", "large counts", ["loaded"]),
    H("c09_outputs", "more than 65535 outputs", ["loaded"], steps=2_000_000_000, samples=1),
    H("c09_blocks", "more than 65535 blocks", ["loaded"], steps=2_000_000_000, samples=1),
    H("c09_rewrite", "saving over an existing file", ["rewritten"]),
])
prop("C10", "c10", "indexes of 1-3 blocks, with and without an earlier file, death before every mutating system call and after every prefix of a write; loss of unsynced data and names at a power failure; two saves in a row; an index of 400 outputs replaced or replacing; an index replaced by another of the same length; relative file names and names with and without extensions, with a temporary directory on another file system", [
    H("c10_killed", "killed at any moment", ["old", "new"]),
    H("c10_power", "machine stops at any moment", ["old", "new"]),
    H("c10_twice", "two saves", ["twice"]),
    H("c10_same", "an index as long as the old one", ["old", "new"]),
    H("c10_names", "file names", ["old", "new", "first", "name"]),
    H("c10_large", "large indexes", ["old", "new"]),
], assumptions=["the file system model of rt/vrt/src/fs.rs: rename is atomic, data reaches the disk with fsync, names in order of the operations"])
prop("C26", "c26", "a two-block index, built or loaded, and one more block with a wrong link (arbitrary previous id) or spending an output that is not unspent (arbitrary outpoint, spent before, twice in a block or transaction, created later); batches of 1-4, 1-3 threads, at most 1 preemption; 14 blocks, any of which is wrong in one of five ways", [
    H("c26_one", "block by block", ["refused", "loaded"]),
    H("c26_build", "batched builds", ["sequential", "parallel"]),
    H("c26_long", "longer chains", ["refused"]),
    H("c26_schedules", "batched builds under every schedule", ["sequential", "parallel"]),
])
prop("C18", "c18", "up to 3 inputs and 3 threads with at most 2 preemptions (switches at blocking operations unbounded); up to 2 inputs and 1-2 threads with at most 4 preemptions; up to 19, 40 or 70 inputs and 6 threads without preemption and at most 2 departures from round-robin order; any of four items finished after all others of up to 70; 255, 300 and 1100 inputs and up to 40 threads, and 65600 inputs with 2 and 5 threads, in round-robin order", [
    H("c18_pool", "unordered pool", ["pool", "out of order"]),
    H("c18_ordered", "ordered pool", ["ordered"]),
    H("c18_full", "every interleaving of small cases", ["pool", "ordered"]),
    H("c18_early", "consumer stops early", ["stopped"]),
    H("c18_many", "many items", ["ordered", "pool"]),
    H("c18_hundreds", "hundreds of items", ["ordered", "pool", "hundreds"], steps=1_000_000_000),
    H("c18_masses", "tens of thousands of items", ["masses"], steps=8_000_000_000, samples=1),
    H("c18_slow", "a slow item", ["ordered", "pool", "slow"]),
])
prop("C11", "c11", "1-3 confirmations over chains of up to 4 blocks with two spends per block (three per block up to 3 blocks) placed anywhere, two pool transactions spending anything; 1-6 confirmations over chains of up to 9 blocks of one shape; 40 and 260 confirmations", [
    H("c11_depths", "placements of spends", ["one", "two", "three"]),
    H("c11_pool", "with unconfirmed transactions", ["pool"]),
    H("c11_deep", "many confirmations", ["deep"]),
    H("c11_far", "far more confirmations", ["far"]),
])
prop("C12", "c12", "1-3 confirmations; two updates with growth by 0-2 blocks or reorganisations of every allowed depth to a branch longer by 1-2; two chain changes between any two RPC requests of an update; both branches including any of three conflicting transactions; 1-6 confirmations with up to 12 blocks; 1, 6 and 30 confirmations with up to 100 blocks and reorganisations of up to 29 blocks", [
    H("c12_follow", "growth and reorganisation", ["reorganised", "moved", "one", "two", "three"]),
    H("c12_race", "the node changes during an update", ["changed during the update", "settled"]),
    H("c12_spends", "conflicting branches", ["settled"]),
    H("c12_long", "longer histories", ["long"]),
    H("c12_far", "many blocks and deep reorganisations", ["far"]),
], outside="reorganisations deeper than confirmations-1 blocks or to a branch that is not longer")
prop("C13", "c13", "1-2 confirmations; pools of up to 2 transactions with 1-2 inputs from chain, earlier pool transactions, spent or unknown outputs, either order, one undeliverable; three updates over pools of three conflicting transactions being mined, lost or dropped; pool and chain changing between any two requests; pools of 20 and 120 transactions of four shapes; a transaction with up to 300 inputs any of which is missing or spent", [
    H("c13_pool", "any small pool", ["applied", "ignored", "undeliverable"]),
    H("c13_inputs", "many inputs", ["many inputs", "applies"]),
    H("c13_many", "large pools", ["many"]),
    H("c13_change", "changing pools", ["block", "settled", "lost"]),
    H("c13_race", "the pool changes during an update", ["changed during the update", "settled"]),
])
prop("C14", "c14", "1-3 confirmations, growth by 0-2 blocks, reorganisations up to 2 deep, pools of 2; one update next to one query of each kind and depth, two updates next to two queries, update and save next to a query, update next to two queries; every schedule with at most 2 preemptions (switches at blocking operations and at ends of tasks are not counted)", [
    H("c14_query", "one query during an update", ["before", "after"]),
    H("c14_reorg", "one query during a reorganisation", ["before", "after"]),
    H("c14_order", "two queries during two updates", ["between", "both updates between"]),
    H("c14_save", "query, update and save", ["before", "after"]),
    H("c14_queries", "two clients", ["two"]),
], assumptions=["the fair (arrival order) lock model of rt/tokio/src/sync.rs", "code between two lock, channel, file or request operations runs without interference, as Rust's borrow rules guarantee for safe code"])
prop("C15", "c15", "1-2 confirmations; two updates finding a block each (or a block and a reorganisation by one) next to one save, every schedule with at most 2 preemptions; the updater-saver pair of the program over 3 updates with at most 1 preemption", [
    H("c15_save", "growing chain", ["saved", "newer"]),
    H("c15_reorg", "reorganised chain", ["saved"]),
    H("c15_saver", "updater and saver", ["up to date"]),
], assumptions=["the fair (arrival order) lock model of rt/tokio/src/sync.rs"])
prop("C16", "c16", "every tree of up to 4 blocks (parents: none, an earlier block, an unknown block) stored in every order over two files; up to 3 blocks with one or two extra copies anywhere; a chain of 8 blocks with two branches of every length; 40 blocks stored two or three times; a chain of 300 blocks with one branch; a chain of 66000 blocks with one branch", [
    H("c16_trees", "every small tree and order", ["none", "one", "two", "three", "more"]),
    H("c16_copies", "repeated blocks", ["none", "one", "two", "three"]),
    H("c16_branches", "long branches", ["more"]),
    H("c16_long", "a long chain", ["long"]),
    H("c16_deep", "a chain of more than 65536 blocks", ["deep"], steps=4_000_000_000, samples=1),
    H("c16_many_copies", "everything repeated", ["more"], steps=30_000_000),
])
prop("C17", "c17", "up to 4 blocks over three files in many orders; padding of 0..199 bytes; arbitrary header fields, amounts and scripts; other file names one character away from block files; arbitrary magic and trailing bytes; block sizes over a range of 300 bytes and 8 sizes from 32 KB to 1.1 MB; 2-3 threads with at most 1 preemption; one file cut anywhere within a block; 30 and 120 files; any of three files, or the directory, behind a symbolic link", [
    H("c17_files", "distribution over files", ["found"]),
    H("c17_padding", "padding", ["none", "short", "long"]),
    H("c17_content", "arbitrary content", ["content"]),
    H("c17_links", "linked files and directories", ["links"]),
    H("c17_names", "other files", ["names", "no text"]),
    H("c17_foreign", "foreign data", ["other network", "tail"]),
    H("c17_sizes", "block sizes", ["sizes"]),
    H("c17_threads", "threads", ["found", "refused"]),
    H("c17_large", "large blocks", ["large"]),
    H("c17_many", "many files", ["many"]),
    H("c17_cut", "files that end within a block", ["refused"]),
])
prop("C25", "c25", "two arbitrary readings of the clock (seconds within 100 billion of the epoch, any nanoseconds) around a log line; one jump to 7 kinds of times before any reading while scanning, building, saving, loading, updating (chain, pool or both changed) and answering", [
    H("c25_elapsed", "any two readings", ["logger", "chronometer"]),
    H("c25_service", "updates, saves and answers", ["jumped", "service"]),
    H("c25_files", "scan and build", ["jumped", "built"]),
])
prop("C24", "c24", "text settings of up to 4 arbitrary ASCII bytes; numeric settings from every text up to 5 ASCII bytes and 23 boundary texts; host texts one edit away from nine texts; every pair of missing settings; one byte that is not UTF-8 anywhere in any setting; every other environment variable set to another value", [
    H("c24_values", "text settings", ["text"]),
    H("c24_missing", "missing settings", ["refused", "defaults"]),
    H("c24_numbers", "numbers", ["number", "refused"]),
    H("c24_limits", "limits", ["number", "refused"]),
    H("c24_host", "host", ["host", "refused"]),
    H("c24_encoding", "no text", ["refused"]),
    H("c24_others", "variables of other names", ["refused", "defaults"]),
])
prop("C27", "c27", "1-3 tasks that end, fail or go on for ever after up to one pause each, without preemption, 1-2 tasks with at most 2 preemptions; one thread or runtime that cannot be had; any of 4 or 9 tasks failing with a text, a formatted text or any value; the whole service with a node, a file system or a server that starts to fail", [
    H("c27_join", "tasks", ["all finished", "failed", "goes on"]),
    H("c27_schedules", "every schedule", ["all finished", "failed", "goes on"]),
    H("c27_resources", "threads and runtimes that cannot be had", ["all finished", "failed", "goes on", "refused"]),
    H("c27_many", "many tasks", ["all finished", "failed", "goes on"]),
    H("c27_service", "the service", ["up", "ended", "goes on"]),
])
prop("C22", "c22", "ids with one arbitrary byte at any position, heights of every decimal length up to 16, user and password of up to 3 arbitrary printable characters alone or before up to 200 more; transactions and blocks (up to 299 bytes) with arbitrary bytes; every error code from -119 to 92 and some far ones, with six messages, for every call; 9 kinds of broken replies cut at every byte; replies in up to four pieces; pools of up to 1100 ids, blocks of up to 150000 bytes, transactions of up to 140000 bytes", [
    H("c22_request", "requests", ["request"]),
    H("c22_credentials", "authorization", ["credentials"]),
    H("c22_ids", "ids in replies", ["pool", "hash"]),
    H("c22_data", "data in replies", ["transaction", "block"]),
    H("c22_large", "large replies", ["large"]),
    H("c22_errors", "error codes", ["absent", "stopped"]),
    H("c22_broken", "broken replies", ["pool", "transaction", "hash", "block"]),
    H("c22_chunks", "pieces", ["pieces"]),
], outside="the HTTP exchange itself (hyper and TCP)")
prop("C19", "c19", "paths of the four endpoints with one arbitrary byte replaced or inserted, or one byte removed, anywhere outside the address; every path of up to 4 segments over ten words; 4-9 methods; one or two other query parameters with arbitrary names of up to 7 letters; lists of up to 3 of 3 addresses by either method; bodies in five spellings cut in two at every byte; lists of 10 to 260 (2100 in a body) addresses", [
    H("c19_paths", "paths", ["no endpoint", "one", "list"]),
    H("c19_segments", "segments", ["no endpoint", "one", "list"]),
    H("c19_parameters", "query parameters", ["parameters"]),
    H("c19_lists", "lists", ["get", "post"]),
    H("c19_many", "long lists", ["many"]),
    H("c19_bodies", "bodies", ["bodies"]),
], outside="the HTTP exchange itself (hyper and TCP)")
prop("C20", "c20", "confirmations of up to 3 arbitrary bytes (no escapes) and 32 other texts in every position of the query and at all six endpoints; 21 numbers where 12 or 300 are allowed; queries of up to 4 arbitrary bytes and names one byte away from `confirmations`; addresses of up to 3 arbitrary bytes, seven lengths x nine kinds, one edit away from an address at ten places; JSON bodies one arbitrary byte, one removal or one cut away from a list, and 36 other bodies; texts of up to 243 bytes with a character of several bytes anywhere; bodies of up to 140000 bytes in pieces of three sizes", [
    H("c20_confirmations", "numbers of confirmations", ["answered", "refused"]),
    H("c20_numbers", "long numbers", ["answered", "refused"]),
    H("c20_far", "many confirmations", ["answered", "refused"], steps=1_000_000_000),
    H("c20_long", "long texts", ["body"]),
    H("c20_large", "large bodies", ["answered", "refused"], steps=2_000_000_000, samples=2),
    H("c20_queries", "queries", ["none", "no value", "another name"]),
    H("c20_addresses", "texts that are no addresses", ["path", "query", "body"]),
    H("c20_edits", "edited addresses", ["same", "other"]),
    H("c20_lists", "lists in the query", ["answered", "refused"]),
    H("c20_json", "edited bodies", ["answered", "refused"]),
    H("c20_shapes", "other bodies", ["answered", "refused"]),
], outside="the HTTP exchange itself (hyper and TCP)")
prop("C21", "c21", "one output of any amount up to the coin supply in the permanent index or of any amount with one or two arbitrary bytes in a recent block or the pool; sums of three arbitrary amounts; digits compared as decimal text for 190 amounts around powers of ten and two", [
    H("c21_values", "one amount", ["balance", "outputs", "balances", "lists of outputs"]),
    H("c21_sums", "sums", ["balance", "outputs", "balances", "lists of outputs"]),
    H("c21_text", "digits", ["balance", "outputs", "balances", "lists of outputs"]),
], outside="amounts above the coin supply")
prop("C23", "c23", "1-4 confirmations; saved indexes of 0-2 blocks with a node 0-2 blocks further than needed, with valid, foreign or no block files; 0-5 blocks in the files, the newest up to two replaced, 0-2 new ones; block files in either order with a stale block, split anywhere into two, 1-2 threads, batches of 1-3; 2-3 starts with reorganisations of any allowed depth, growth and lost block files in between; two rounds of growth or reorganisation after the start; files of 30 blocks with 1, 6 and 20 confirmations and up to 45 new blocks", [
    H("c23_saved", "from a saved index", ["resumed"]),
    H("c23_files", "from block files", ["built"]),
    H("c23_long", "more blocks", ["built"]),
    H("c23_shapes", "shapes of block files", ["built"]),
    H("c23_restart", "restarts", ["restarted"]),
    H("c23_later", "afterwards", ["followed"]),
    H("c23_values", "arbitrary amounts", ["built"]),
], outside="no confirmations at all; a saved index made with more blocks than the configured confirmations leave; a node whose chain is shorter than the configured confirmations")

# not a property: what the executor and the models carry, compared with native runs
prop("IDIOMS", "idioms", "none", [
    H("idioms_values", "ways of writing Rust", ["idiom"], samples=1000, validate=1000),
    H("idioms_bytes", "the same on paths of the solver", ["idiom"], samples=300, validate=300),
    H("idioms_symbolic", "operations on symbolic values", ["idiom"], samples=5000, validate=5000),
    H("idioms_files", "files", ["idiom"], samples=100, validate=100),
    H("idioms_threads", "threads", ["idiom"], samples=300, validate=300),
    H("idioms_maps", "large tables", ["idiom"], samples=3000, validate=300),
])
