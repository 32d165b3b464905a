#!/usr/bin/env python3
# Regenerates /verif/properties.jsonl (kept as a script so that the text is reviewable).
import json
P=[]
def p(id,title,statement,over,qtext,why,files,mech,state=None,observe=None,hook=None):
    assert len(title)<=80,(id,len(title))
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    if observe: a["observe_at"]=observe
    a["hook_needed"]=hook
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":qtext},"why_tests_cant":why,"anchors":a})

NOTEST="The ten existing tests only exercise the hex, base58 and base64 codecs on fixed strings; "

p("C01","Address balances and unspent outputs equal the ledger",
 "After any valid sequence of blocks is indexed, the unspent outputs listed for an address are exactly the outputs paying that address that some indexed transaction created and no indexed transaction spent, each exactly once with its transaction id, output number and value, and the balance is their sum. Outputs paying other addresses, spent outputs, and outputs with data-carrier or non-address scripts are never counted for an address.",
 ["inputs","histories"],"every valid block history (any spending pattern, including spends inside the same block and several outputs per address), every address, every amount",
 NOTEST+"no test creates a store. The guarantee quantifies over every spending history and every aliasing of addresses and outpoints.",
 ["src/store/transaction_store.rs","src/store/transaction_store_backend.rs","src/store/store.rs","src/hashmap.rs"],
 [("apply one transaction: spend its inputs, add its outputs","src/store/transaction_store.rs add_transaction"),("two maps kept in step (output -> owner, owner -> outputs)","src/store/transaction_store_backend.rs IndexedTransactionStoreBackend"),("key hashing consistent with key equality","src/hashmap.rs U64Hasher")],
 [("unspent outputs by outpoint","value and owner of every unspent output","src/store/transaction_store_backend.rs"),("unspent outputs by address","outpoint and value of each output an address owns","src/store/transaction_store_backend.rs")],
 ["balance and unspent-output queries"])
p("C02","Serialized transactions and blocks are decoded exactly",
 "For every well-formed serialized transaction or block, with or without witness data, decoding yields every spent outpoint and every output value and script in order, the transaction id is the double SHA-256 of the serialization without marker, flag and witness, and the block id is the double SHA-256 of its 80-byte header. Decoding consumes exactly the bytes of each transaction, so the following one is read from its own first byte.",
 ["inputs"],"every well-formed legacy and segregated-witness transaction and block, every length-prefix form (1, 3, 5 and 9 bytes)",
 NOTEST+"no test decodes a transaction; length-prefix boundaries and witness layouts are rare inputs.",
 ["src/transaction.rs","src/block.rs","src/hashing_buffer_reader.rs"],
 [("transaction decoder","src/transaction.rs from_reader"),("length-prefixed reads that optionally feed the hash","src/hashing_buffer_reader.rs"),("block header and transaction iteration","src/block.rs")])
p("C03","Output scripts map to an address exactly for the two standard templates",
 "An output script is attributed to an address if and only if it is exactly the standard pay-to-public-key-hash or pay-to-script-hash template, and the address then carries the matching kind and precisely the 20 hash bytes of the script. Every other script, whatever its length or content, is attributed to no address.",
 ["inputs"],"every byte string",
 NOTEST+"no test classifies a script; a single wrong opcode comparison or off-by-one on the length only shows on specific scripts.",
 ["src/address.rs"],[("script template matching","src/address.rs from_script")])
p("C04","Address text form is a checked bijection",
 "Formatting an address and parsing the text gives back the same address, with version byte 0 for key-hash and 5 for script-hash addresses. Parsing any other text - bad character, wrong length, unknown version, or a checksum differing from the first four bytes of the double SHA-256 - returns an error and never an address or a crash.",
 ["inputs"],"every address and every text string",
 NOTEST+"there is no test of addresses or of the checked encoding at all; error paths quantify over all malformed strings.",
 ["src/address.rs","src/base58_check/encode.rs","src/base58_check/decode.rs","src/base58_check/checksum.rs","src/base58/decode.rs"],
 [("text to address","src/address.rs from_string / from_slice"),("checksum verification","src/base58_check/decode.rs verify_checksum")])
p("C05","Base58 coding is the exact positional encoding, reversible and total",
 "Encoding any byte string yields its base-58 positional representation with one leading '1' per leading zero byte, and decoding yields it back; decoding rejects every string with a character outside the alphabet, naming the first such character and its position. When a caller-supplied buffer is too small an error is returned; when it is larger, only the reported length is meaningful and the result does not depend on the buffer's earlier content.",
 ["inputs"],"every byte string, every text, every caller-supplied buffer size and content",
 "Tests check about a dozen fixed strings with freshly zeroed, exactly sized buffers; carry propagation, leading zeros, short or dirty buffers and bad characters are not reached.",
 ["src/base58/encode.rs","src/base58/decode.rs","src/base_common/alphabet.rs"],
 [("base conversion with carries","src/base58/encode.rs encode_into, src/base58/decode.rs decode_into"),("alphabet tables","src/base_common/alphabet.rs")])
p("C06","Hex and reversed-hex coding round-trips and rejects exactly the invalid",
 "Encoding produces two lower-case digits per byte, in byte order for plain hex and in reverse byte order for the hash form; decoding either case returns the original bytes. Decoding rejects odd lengths, output buffers that are too small and any non-hex character (naming the first one's position), and never panics.",
 ["inputs"],"every byte string, text and buffer size",
 "Tests use one 11-byte ASCII string; upper-case digits, invalid characters, odd lengths and small buffers are never tried.",
 ["src/hex.rs","src/reverse_hex.rs"],[("digit classification","src/hex.rs value"),("byte reversal","src/reverse_hex.rs")])
p("C07","Base64 coding round-trips and malformed text is refused, not fatal",
 "Encoding any byte string produces standard padded base64, and decoding that text returns the bytes. Decoding any other text returns either bytes or an error; it never panics, and never writes past the caller's buffer.",
 ["inputs"],"every byte string, every text, every buffer size",
 "Tests cover a few fixed strings; non-zero trailing bits, stray characters and small buffers are not reached.",
 ["src/base_binary/encode.rs","src/base_binary/decode.rs","src/base64/encode.rs","src/base64/decode.rs"],
 [("bit regrouping","src/base_binary/encode.rs encode_into, src/base_binary/decode.rs decode_into")])
p("C08","A parallel batched build equals a sequential build",
 "Indexing a valid chain with any number of worker threads and any batch size of at least one gives the same height, tip and unspent outputs as indexing it one block after the other, under every scheduling of the workers.",
 ["inputs","histories","schedules","configurations"],"every valid chain, batch size of at least one, thread count and worker schedule",
 NOTEST+"no test builds a store; batch boundaries crossing spend/create pairs and worker completion order are schedule- and history-dependent.",
 ["src/store/store.rs","src/store/transaction_store.rs","src/store/transaction_store_backend.rs","src/batcher.rs","src/sequential_thread_pool.rs","src/thread_pool.rs"],
 [("partition into batches","src/batcher.rs"),("per-batch intermediary store, merged in order","src/store/transaction_store.rs merge"),("ordered delivery of batch results","src/sequential_thread_pool.rs")])
p("C09","A saved index reloads to the same index; a truncated one is refused",
 "Saving the index and loading the file yields the same height, block ids and unspent outputs (outpoint, value, owner or no owner), and the loaded index goes on accepting and refusing blocks exactly as the saved one would. A file cut short at any point is never accepted as an index.",
 ["inputs","histories"],"every reachable index content, every truncation point",
 NOTEST+"no test writes or reads a store file.",
 ["src/store/store.rs","src/store/transaction_store_backend.rs","src/buffer_writer.rs","src/hashing_buffer_reader.rs","src/address.rs"],
 [("file layout writer","src/store/store.rs to_writer, src/store/transaction_store_backend.rs to_writer"),("file layout reader","src/store/store.rs from_reader, src/store/transaction_store_backend.rs from_reader")])
p("C10","Dying while saving never loses the saved index",
 "If the process is killed or the machine stops at any moment while the index is being saved over an existing file, the next start finds under the configured path a complete index: either the previous one or the new one. With no earlier file it finds either none or the complete new one.",
 ["crash_points","fault_sequences"],"every crash point during a save, every amount of not yet synced data lost",
 NOTEST+"no test saves a store, and a crash point cannot be sampled by a unit test.",
 ["src/store/store.rs"],[("write of the store file","src/store/store.rs to_file"),("choice between loading and rebuilding","src/main.rs main")])
p("C11","A query with N confirmations sees exactly the chain N deep",
 "A query asking for c confirmations (0 up to the configured maximum) answers from exactly the blocks with at least c confirmations: for c=0 the whole chain plus the applicable unconfirmed transactions, for c=1 the whole chain, for c=2 the chain without its newest block, and so on. Outputs spent or created only in shallower blocks or unconfirmed transactions do not affect the answer.",
 ["inputs","histories","configurations"],"every chain, unconfirmed set, address, configured maximum and requested depth",
 NOTEST+"no test builds a state; off-by-one errors in depth only show for specific depth/position combinations.",
 ["src/state.rs","src/last_blocks.rs","src/store/transaction_store_backend.rs"],
 [("one overlay per depth","src/last_blocks.rs augmentation/augmentations"),("selection of the overlay for a depth","src/state.rs augmented_store"),("overlay applied to the base index","src/store/transaction_store_backend.rs ReadonlyAugmentedTransactionStoreBackend")])
p("C12","After updates the answers are those of the node's current chain",
 "After an update completes, whatever new blocks arrived and whatever reorganisation to a longer branch (no deeper than the configured confirmations allow) happened since the previous one, the index is at the node's tip and every answer equals that of an index freshly built from the node's current chain. Blocks abandoned by the reorganisation leave no trace, and blocks are moved to the permanent index only once they have the configured number of confirmations.",
 ["histories","inputs"],"every sequence of chain extensions and reorganisations within the confirmation depth, every update schedule",
 NOTEST+"no test runs an update; reorganisation histories are multi-step and depend on depth and tail length.",
 ["src/last_blocks.rs","src/state.rs","src/store/store.rs"],
 [("follow the node by height, drop the newest block while it does not link","src/last_blocks.rs BlockUpdater"),("move deep blocks to the permanent index","src/last_blocks.rs pop, src/state.rs compute_update/apply_update")])
p("C13","Unconfirmed transactions count exactly when they apply",
 "At zero confirmations an unconfirmed transaction of the node's current pool affects answers if and only if all outputs it spends exist and are unspent in the chain plus the pool transactions ahead of it; one that conflicts with the chain or with an earlier applied one, that spends unknown outputs, or that has left the pool has no effect. A pool transaction the node cannot deliver is skipped without failing the update.",
 ["histories","inputs"],"every pool content and order, every evolution of the pool between updates, every missing transaction",
 NOTEST+"no test has a pool; dependency chains, conflicts, evictions and fetch failures are multi-step histories.",
 ["src/last_blocks.rs","src/store/transaction_store.rs"],
 [("pool cache refresh","src/last_blocks.rs update_mempool"),("apply in node order if inputs are available","src/last_blocks.rs augmentation, src/store/transaction_store.rs can_add_transaction")])
p("C14","Every query answers from one consistent snapshot, without deadlock",
 "A query running concurrently with updates and saves answers as if executed entirely before or entirely after each update: never from a mix of old and new chain data, never counting an output twice or missing one because blocks were being moved. All of update, save and query complete under every interleaving.",
 ["schedules"],"every interleaving of queries, updates and saves at their synchronisation points",
 NOTEST+"no test is concurrent; the interleaving window between swapping overlays and extending the permanent index is tiny.",
 ["src/state.rs"],[("overlay lock held while the permanent index is extended","src/state.rs apply_update"),("both locks held for the whole query","src/state.rs balance, balance_array, iterate_transaction_outputs, transaction_outputs_array")])
p("C15","Saving in the background is safe against concurrent updates",
 "A save running concurrently with updates writes an index that equals the permanent index at one moment: block ids and unspent outputs agree with each other. Under every interleaving of saves and updates no update fails or crashes the service, and blocks not moved to the permanent index in one update are moved in a later one.",
 ["schedules","histories"],"every interleaving of saves and updates, every chain growth between them",
 NOTEST+"no test is concurrent.",
 ["src/state.rs","src/main.rs","src/last_blocks.rs"],[("save holds a shared lock on the permanent index","src/state.rs write"),("updates avoid moving blocks while a save runs","src/state.rs update / compute_update")])
p("C16","Block files yield the longest chain, whatever their order",
 "From the blocks found in the block files, in whatever order, with stale branches, orphans and repeated copies, the result is a chain that starts at the genesis block, in which every block links to the one before it, numbered from height 0, and which no chain in the files exceeds in length. Each block of the result carries its own data.",
 ["inputs"],"every set and order of blocks forming any tree, with orphans and duplicates",
 NOTEST+"no test reads block files; forks, orphans and out-of-order files are rare structures.",
 ["src/block_file_reader.rs"],[("level-by-level search from genesis, then back-tracking","src/block_file_reader.rs find_longest_chain")])
p("C17","Scanning block files finds every stored block with its exact bytes",
 "Every block stored in the node's block files is found with its own header, transactions and bytes, across all files of the directory, up to the zero padding or end of each file, whatever the length of that padding. Files that are not block files are ignored, foreign data in a block file is refused rather than indexed, and nothing is made up for the bytes a block file lacks.",
 ["inputs","configurations"],"every file content of framed blocks with every padding length, every directory listing, every thread count",
 NOTEST+"no test reads block files; padding boundaries depend on exact file sizes.",
 ["src/block_file_reader.rs","src/block.rs"],[("file-name filter","src/block_file_reader.rs file_names"),("frame walking","src/block_file_reader.rs scan_block_file"),("re-reading a block's transactions","src/block_file_reader.rs FileBlock")])
p("C18","Work distribution processes each item once and keeps order",
 "For every input sequence, thread count and scheduling, the unordered pool delivers the result of each input exactly once and then ends, and the ordered pool delivers the same results in input order. Both terminate under every scheduling.",
 ["schedules","inputs","configurations"],"every input length, thread count and interleaving of workers and consumer",
 NOTEST+"no test uses the pools; ordering bugs need particular completion orders.",
 ["src/thread_pool.rs","src/sequential_thread_pool.rs"],[("shared input queue, output queue closed when workers end","src/thread_pool.rs"),("reorder buffer keyed by input position","src/sequential_thread_pool.rs")])
p("C19","HTTP requests are dispatched by method and path, parameters stay separate",
 "A request is answered by the endpoint whose method and path pattern it matches exactly (a path parameter matching any segment without '/'), every other request gets 404, and the answer concerns exactly the address of the path - or the addresses of the query or body for the list endpoints - whatever other query parameters are present. List endpoints answer once per requested address, in request order.",
 ["inputs"],"every method, path, query string and body",
 NOTEST+"no test issues a request; crafted paths and query strings quantify over all strings.",
 ["src/server.rs","src/create_server.rs"],[("pattern compilation and matching","src/server.rs DynamicUri"),("query parsing","src/server.rs Router::route"),("endpoints","src/create_server.rs create_server")])
p("C20","Malformed requests are refused with 400 and never crash",
 "A request whose address, address list, JSON body or confirmation count is missing or malformed, or which asks for more confirmations than configured, is answered with status 400 and a JSON error message; a well-formed one with 200 and the JSON answer; without a confirmation count, zero is used. No request makes the handler panic.",
 ["inputs"],"every request to the documented endpoints",
 NOTEST+"no test issues a request; malformed inputs are an unbounded space.",
 ["src/create_server.rs","src/address.rs"],[("parameter parsing","src/create_server.rs parse_*"),("error responses","src/create_server.rs respond_error")])
p("C21","Amounts are reported exactly",
 "Every amount in an answer, read as a decimal number of bitcoins, is exactly the stored integer number of satoshis divided by 100,000,000; two different amounts up to the 21 million coin supply are never reported alike. Sums are exact integer sums.",
 ["inputs"],"every amount from 0 to 21,000,000 bitcoins",
 NOTEST+"no test formats an amount; rounding errors only show for particular amounts.",
 ["src/create_server.rs","src/store/transaction_store_backend_trait.rs"],[("conversion to bitcoins","src/create_server.rs format_value, get_balance_array"),("balance sum","src/store/transaction_store_backend_trait.rs balance")])
p("C22","Node replies are interpreted faithfully",
 "Each call to the node sends an authenticated JSON-RPC request with the right method and parameters (ids in the node's reversed-hex form) and returns exactly what the node replied: ids in internal byte order, block and transaction bytes unchanged. Only the node's documented not-found codes are treated as absence (height beyond the tip, unknown transaction); every other error stops the update instead of being taken for an answer.",
 ["inputs","fault_sequences"],"every reply content, every error code and every HTTP status",
 NOTEST+"no test contacts a node; error codes and statuses are fault inputs.",
 ["src/client.rs","src/reverse_hex.rs","src/hex.rs","src/base64/encode.rs"],[("request and status handling","src/client.rs request"),("per-call decoding and error mapping","src/client.rs getrawmempool/getrawtransaction/getblockhash/getblock")])
p("C23","Start-up resumes or rebuilds to the same service state",
 "Started with a saved index the service continues from it; started without one it builds the index from the block files leaving out the newest confirmations-1 blocks, saves it, and continues. Either way, after the first update the service is at the node's tip and every answer equals that of an index of the node's chain, for every configured number of confirmations of at least one.",
 ["histories","configurations"],"every chain at least as long as the configured confirmations, every configured confirmations >= 1, with and without a saved index",
 NOTEST+"no test starts the service.",
 ["src/main.rs","src/state.rs","src/store/store.rs","src/block_file_reader.rs"],[("load or rebuild","src/main.rs main"),("first update","src/state.rs update/apply_update")])
p("C24","Configuration is taken from the environment or refused",
 "Every setting takes exactly the value of its environment variable; a missing optional setting takes its documented default (host 127.0.0.1, port 8000, 6 confirmations, 1000 ms interval). A missing mandatory setting or an unparsable value stops the start instead of being replaced by a default.",
 ["configurations"],"every assignment of the environment variables",
 NOTEST+"no test reads the configuration.",
 ["src/configuration.rs"],[("variable lookup with default","src/configuration.rs var / var_map")])
p("C25","Wall-clock changes never disturb the service",
 "Whatever the system clock does - stand still, jump forward, or be set back - indexing, saving, updating and answering go on and give the same results.",
 ["fault_sequences"],"every sequence of clock readings, including decreasing ones",
 NOTEST+"tests run on a well-behaved clock.",
 ["src/chronometer.rs","src/logger.rs"],[("elapsed-time computation for progress messages","src/chronometer.rs elapsed")])
p("C26","Inconsistent chain data is refused, never absorbed",
 "A block that does not link to the current tip, or that spends an output which is not currently unspent, is never absorbed into the permanent index: the index refuses it loudly. This holds for an index built sequentially, in batches, or loaded from a file.",
 ["inputs","histories"],"every block offered to every reachable index",
 NOTEST+"no test offers an invalid block.",
 ["src/store/store.rs","src/store/transaction_store.rs"],[("link check","src/store/store.rs add_block_header"),("existence check on spend","src/store/transaction_store.rs spend_transaction_outputs")])
p("C27","A failed background task ends the service instead of being lost",
 "If the update, save or server task fails, waiting for the tasks fails as well, so the process ends rather than going on serving stale data; if all tasks succeed, waiting returns after all of them have finished.",
 ["fault_sequences","schedules"],"every set of tasks, every subset failing, every completion order",
 NOTEST+"no test spawns tasks.",
 ["src/executor.rs","src/main.rs"],[("task results collected and re-raised","src/executor.rs spawn_runtime / join")])
open("/verif/properties.jsonl","w").write("".join(json.dumps(x)+"\n" for x in P))
print(len(P))
