import json
P=[]
def p(id,title,statement,over,text,why,files,mech,observe,state=None):
    P.append({"id":id,"title":title,"statement":statement,
      "quantifier":{"over":over,"text":text},"why_tests_cant":why,
      "anchors":{"files":files,
        **({"state":[{"name":a,"meaning":b,"where":c} for a,b,c in state]} if state else {}),
        "mechanism":[{"name":a,"where":b} for a,b in mech],
        "observe_at":observe,"hook_needed":None}})
NT="The existing tests cover only hex, reverse-hex, base58 and base64 on a handful of literals; nothing exercises this behaviour at all. "
p("C01","Answers at every confirmation depth are exact",
  "After every completed update, for every confirmation depth c from 1 to the configured CONFIRMATIONS, the balance and the list of unspent outputs served for an address are exactly those obtained by replaying from genesis the node's blocks that have at least c confirmations, each unspent output listed once with its value. This holds for every CONFIRMATIONS setting of at least 1 and however many blocks (none, one or several) arrived between two updates.",
  ["histories","configurations"],"all histories of node events (blocks mined, mempool changes, polls) up to a depth, for CONFIRMATIONS 1..4, at every depth c",
  NT+"The views are built from layered structures whose layering depends on the whole history of polls.",
  ["src/state.rs","src/last_blocks.rs","src/store/transaction_store_backend.rs","src/store/transaction_store.rs"],
  [("one augmentation per unconfirmed depth over a base store","State::compute_update, LastBlocks::augmentations"),("moving blocks from the tail to the store","LastBlocks::pop, State::apply_update")],
  ["HTTP GET/POST /addresses/.../balance and /utxos with ?confirmations=c"],
  [("tail blocks","the newest CONFIRMATIONS-1 blocks, still reversible","last_blocks.rs"),("store","blocks with at least CONFIRMATIONS confirmations","store/store.rs")])
p("C02","Chain reorganisations converge to the node's chain",
  "When the node switches to a longer branch that replaces fewer than CONFIRMATIONS blocks, including repeated or nested switches and a switch or a new block that falls between two RPC calls of the same update, the next completed update serves at every depth exactly what an indexer built afresh from the node's current chain would serve. Nothing from an abandoned branch remains and the process keeps running.",
  ["histories","schedules"],"all histories of mining, branch switches of every depth below CONFIRMATIONS and polls up to a bound, with a node event injected at any RPC call of an update",
  NT+"A reorganisation must be right for every fork depth and every instant at which it lands.",
  ["src/last_blocks.rs","src/state.rs","src/client.rs"],
  [("pop the tail while the next block does not link","BlockUpdater::add_block / update"),("rebuild all augmentations after any change","LastBlocks::augmentations")],
  ["HTTP answers at every depth after a poll"])
p("C03","Depth-0 answers reflect chain plus mempool, nothing lost or doubled",
  "At depth 0 the answers are those of the whole chain plus, in the order in which the node lists its mempool, every mempool transaction whose inputs are all still unspent; a mempool transaction that was evicted, replaced or that conflicts with the chain has no effect. A transaction that moves from the mempool into a block, even between two RPC calls of one update, is counted exactly once and never disappears from the depth-0 answers.",
  ["histories","schedules"],"all histories of mempool additions (chains, multi-output, dependent), evictions, replacements, confirmations, reorganisations and polls up to a bound, with a node event injected at any RPC call of an update",
  NT+"It depends on the order of RPC calls against a node that changes meanwhile.",
  ["src/last_blocks.rs","src/state.rs","src/client.rs"],
  [("mempool is fetched before blocks","State::compute_update"),("inapplicable mempool transactions are skipped","LastBlocks::augmentation, TransactionStore::can_add_transaction"),("mempool cache","LastBlocks::update_mempool")],
  ["HTTP answers with confirmations=0"])
p("C04","Every query answers from one consistent snapshot",
  "However queries interleave with updates, each response (including a response covering several addresses) equals the correct answer for one single state that was served before, between or after the updates it overlaps, never a mixture of two. Successive queries of one client never go back to an older state.",
  ["schedules"],"all interleavings, up to a preemption bound, of an update with concurrent queries of every kind and depth",
  NT+"It is a statement about all thread interleavings.",
  ["src/state.rs","src/create_server.rs"],
  [("augmentations lock is held while the store is changed and while a query reads","State::apply_update, State::balance and siblings")],
  ["HTTP responses obtained while an update runs"],
  [("augmentations","views over the store per depth","state.rs"),("store","base of all views","state.rs")])
p("C05","No interleaving deadlocks or aborts the service",
  "Under every interleaving of polling, persisting and queries, with a healthy node and disk, every query is answered, every update completes and the process keeps running.",
  ["schedules"],"all interleavings, up to a preemption bound, of two consecutive updates, the writes they trigger and concurrent queries",
  NT+"A single bad interleaving of three threads suffices to break it.",
  ["src/state.rs","src/main.rs","src/executor.rs"],
  [("lock order augmentations then store","state.rs"),("try_lock on the persistence mutex","State::update, State::write"),("assert on the number of augmentations","State::compute_update")],
  ["process exit, unanswered HTTP requests"])
p("C06","Writing the store to disk never stalls the service",
  "While the store is being written to disk, however long any single disk operation takes, queries keep being answered and new blocks and mempool changes keep becoming visible in the answers with the correct depths.",
  ["schedules","fault_sequences"],"a stall of unbounded length injected at every disk operation of a write, followed by every sequence of node events, polls and queries up to a bound",
  NT+"It needs a disk that stalls at a chosen operation.",
  ["src/state.rs","src/store/store.rs"],
  [("persistence mutex makes updates leave the store alone while it is written","State::write, State::update")],
  ["HTTP answers while the writer is stalled"])
p("C07","A crash while persisting never loses the stored index",
  "Whatever instant the process is killed or the machine loses power while the store file is being written, the file found at the next start loads without error as either the previously persisted index or the new one, and the restarted indexer serves correct answers. Before the very first write has completed, no partial file is ever taken for a store.",
  ["crash_points"],"every prefix of the disk operations of a write, every torn length of the write in flight, and for power loss every allowed loss of unsynced data",
  NT+"It quantifies over crash points.",
  ["src/store/store.rs","src/main.rs"],
  [("write of the store file","IndexedStore::to_file"),("load at start","IndexedStore::from_file")],
  ["store file after a crash, behaviour of the restarted process"])
p("C08","A persisted store is always one whole-block snapshot",
  "Under every interleaving of updates with writes, each completed store file holds exactly the effects of a chain prefix that was final (at least CONFIRMATIONS confirmations) when it was written, no more and no less. An indexer restarted from it catches up with the node's current chain, including after a reorganisation that replaces fewer than CONFIRMATIONS blocks, and serves correct answers.",
  ["schedules","histories"],"all interleavings, up to a preemption bound, of updates that advance the store with the write of the store, then a restart from the resulting file",
  NT+"A torn snapshot appears only under a particular interleaving.",
  ["src/state.rs","src/store/store.rs"],
  [("store lock held for the whole serialisation","State::write"),("store lock held while blocks are applied","State::apply_update")],
  ["store file, RPC calls and HTTP answers of a process restarted from it"])
p("C09","Stopping and restarting is invisible in the answers",
  "For every history, an indexer that is stopped at any moment and restarted from its store file, with any number of blocks mined or branches shorter than CONFIRMATIONS switched while it was down, serves at every depth the same answers as one that never stopped. In particular every stored output keeps its transaction id, index, value and address through the file.",
  ["histories"],"all histories of node events, polls and restarts up to a depth, with output kinds covering every stored field",
  NT+"No test writes or reads a store.",
  ["src/store/store.rs","src/store/transaction_store_backend.rs","src/main.rs","src/buffer_writer.rs","src/hashing_buffer_reader.rs"],
  [("serialisation and deserialisation of headers and outputs","to_writer / from_reader"),("catch-up by RPC from the stored height","BlockUpdater")],
  ["HTTP answers after a restart"])
p("C10","Persistence keeps up with finalised blocks",
  "Once blocks become final they reach the store file: after an update that receives a new block while no write is in progress, as soon as the triggered write is done, the file on disk contains every block with at least CONFIRMATIONS confirmations, so that a restart does not fetch any of them again. This holds under every interleaving of the updater and the writer and for bursts of updates.",
  ["schedules","histories"],"all interleavings, up to a preemption bound, of bursts of updates with the writer; all poll histories up to a depth",
  NT+"A lost notification shows only under particular timings.",
  ["src/main.rs","src/state.rs"],
  [("channel from updater to writer","main.rs"),("update reports whether the store advanced","State::update")],
  ["height of the first block requested from the node after a restart"])
p("C11","Parallel index construction equals sequential construction",
  "For every chain, every number of threads, every batch size and every interleaving of the worker threads, the initial index built in parallel from the block files gives the same answers as building it block by block on one thread.",
  ["schedules","configurations","inputs"],"chains with spends inside a batch, across adjacent and distant batches, for THREADS 1..3 and BATCH_SIZE 1..n, all interleavings up to a preemption bound",
  NT+"The result must not depend on how work is cut and scheduled.",
  ["src/store/store.rs","src/store/transaction_store.rs","src/store/transaction_store_backend.rs","src/sequential_thread_pool.rs","src/thread_pool.rs","src/batcher.rs"],
  [("per-batch intermediate stores merged in order","IndexedStore::from_blocks, IntermediaryStore::merge"),("ordered thread pool","SequentialThreadPool")],
  ["HTTP answers after a start from block files"])
p("C12","Worker pools deliver every result once, in order, and no failure is hidden",
  "For every number of worker threads (at least one), every list of inputs and every interleaving, the unordered pool yields the result of every input exactly once and the ordered pool yields them in input order, and both end. If processing an input fails, the failure reaches the consumer; the pool never ends quietly with results missing.",
  ["schedules","inputs"],"0..4 inputs, 1..3 threads, any subset of failing inputs of size at most 1, all interleavings up to a preemption bound",
  NT+"Only enumeration of interleavings can settle it.",
  ["src/thread_pool.rs","src/sequential_thread_pool.rs","src/batcher.rs"],
  [("shared input queue and result channel","ThreadPool"),("reordering buffer","SequentialThreadPool::next")],
  ["sequence of results seen by the consumer"])
p("C13","The longest chain is recovered from any block-file layout",
  "From any set of block files, in whatever order and files the blocks lie, with stale branches, orphans, duplicated blocks, zero padding of any length and unrelated files in the directory, the initial index is that of the longest chain starting at genesis (any one of them when several are equally long), and every block file written by the node is accepted.",
  ["inputs","configurations"],"all block trees up to a size, all orders of the blocks, all ways of cutting them into files, all padding lengths around the record header size, scanning with one or several threads",
  NT+"Block files are never read by a test.",
  ["src/block_file_reader.rs","src/block.rs"],
  [("record scan","BlockFileReader::scan_block_file"),("longest path search","BlockFileReader::find_longest_chain")],
  ["first block height and hash chain requested from the node, HTTP answers after a start"])
p("C14","Start-up joins block files and node without gap or overlap",
  "On a first start, whatever the number of blocks in the block files (at least CONFIRMATIONS), the setting of CONFIRMATIONS (at least 1), and however far the node is ahead of the files or has reorganised fewer than CONFIRMATIONS of their last blocks, the first answers served are already complete and exact for the node's chain at every depth, and no query is answered before. The store file written at start excludes the blocks that are not yet final.",
  ["configurations","histories"],"all combinations of chain length in files, CONFIRMATIONS, node lead and branch switch depth up to a bound",
  NT+"The program's main function is never run by a test.",
  ["src/main.rs","src/state.rs","src/last_blocks.rs"],
  [("truncation of the scanned chain","main.rs"),("first update completes before the server starts","main.rs")],
  ["first HTTP answers, RPC calls at start"])
p("C15","The ledger matches Bitcoin's UTXO rules for every transaction program",
  "For every sequence of transactions, wherever it is cut into blocks and whichever part is already stored, still reversible or only in the mempool, each address's listing contains exactly the outputs paying it that exist and are unspent, including zero-value outputs, several outputs of one transaction, outputs created and spent in the same block, addresses that share hash bytes, and outputs with no address that are later spent. Data-carrier outputs never appear and never disturb anything.",
  ["programs","inputs"],"all transaction programs up to a length over a menu of output kinds and input selections, all cuts into blocks and layers",
  NT+"The index maps have no tests.",
  ["src/store/transaction_store.rs","src/store/transaction_store_backend.rs","src/hashmap.rs","src/transaction_output.rs","src/address.rs"],
  [("two mutually inverse maps","IndexedTransactionStoreBackend"),("spent set plus overlay","AugmentedTransactionStoreBackend"),("custom hash map","hashmap.rs")],
  ["HTTP utxos and balance answers"])
p("C16","Blocks and transactions are decoded exactly",
  "For every well-formed block and transaction in Bitcoin's wire format, legacy or segregated-witness, with any version, lock time, sequence, count and script length encoding, the indexer uses the true transaction id (double SHA-256 of the serialisation without witness data), the true block hash and parent, and every input, output index and value, and reads the next transaction at the right offset.",
  ["inputs"],"transactions over the product of count classes (1, 2, 252, 253, more than 65535 where possible), script-length classes around every length-encoding boundary, witness shapes, versions, lock times and positions in the block",
  NT+"No test decodes a transaction.",
  ["src/transaction.rs","src/block.rs","src/hashing_buffer_reader.rs"],
  [("reader that hashes selected fields","HashingBufferReader, Transaction::from_reader")],
  ["transaction ids, indexes and values in HTTP answers"])
p("C17","Output scripts are attributed to exactly the right address",
  "An output is credited to an address if and only if its script is exactly the 25-byte pay-to-public-key-hash or the 23-byte pay-to-script-hash template, and then to the address with that very hash and kind; every other script, however similar, is credited to no address, and outputs with such scripts can still be spent.",
  ["inputs"],"both templates, every single-byte deviation from them, every truncation and extension, and every other length up to a bound with look-alike prefixes",
  NT+"No test classifies a script.",
  ["src/address.rs","src/store/transaction_store.rs"],
  [("template match","Address::from_script")],
  ["HTTP answers for the address"])
p("C18","Address strings are accepted only when valid, and mean one address",
  "A query names an address if and only if the string is the Base58Check encoding of a 21-byte payload with version 0 or 5 and a correct checksum; then it is answered for exactly that hash and kind and echoed in canonical form, otherwise the request is refused with a client error. No string, of any length or content, makes the service fail.",
  ["inputs"],"valid addresses including hashes with leading zeros, every one-character substitution, deletion, insertion and swap of them, other versions and payload lengths, all short strings",
  NT+"Base58Check and addresses have no tests.",
  ["src/address.rs","src/base58_check/decode.rs","src/base58/decode.rs","src/create_server.rs"],
  [("checksum verification","base58_check::decode"),("version and length check","Address::from_slice")],
  ["HTTP status and body"])
p("C19","Text codecs are exact inverses and never fail on bad input",
  "Hex, byte-reversed hex, Base58, Base58Check and Base64 encode every byte string to the standard text and decode that text back to the same bytes, into a fresh or a reused buffer of sufficient size (for Base58Check, the payload and its four checksum bytes). Decoding takes hexadecimal digits of either case, and Base64 text whether its trailing padding is complete, missing or surplus. On every other text or too small a buffer decoding returns an error, never a wrong value and never a crash.",
  ["inputs"],"all byte strings up to length 2-3 over all values, all strings up to a length over a critical alphabet, longer strings by class, every buffer size and initial buffer content",
  "The existing tests check a dozen literals per codec; the guarantee is over all inputs and buffer states.",
  ["src/hex.rs","src/reverse_hex.rs","src/base58/encode.rs","src/base58/decode.rs","src/base58_check/encode.rs","src/base58_check/decode.rs","src/base64/encode.rs","src/base64/decode.rs","src/base_binary/encode.rs","src/base_binary/decode.rs","src/base_common/alphabet.rs"],
  [("alphabet tables","base_common/alphabet.rs"),("bit accumulators","base_binary"),("big-number conversion","base58")],
  ["return values of the codec functions"])
p("C20","The HTTP interface answers every request as documented by its routes",
  "Balance and unspent-output queries for one address (in the path) or several (in a GET parameter or a POSTed JSON array) give, in the order asked and with repetitions kept, the answers for exactly the addresses and the depth requested, depth 0 when none is given, whichever form is used and however the body is split in transit. Every other request (unknown path, wrong method, malformed body or parameter, depth that is not a number or above CONFIRMATIONS) gets a client error, and no request makes the service stop answering.",
  ["inputs"],"the product of methods, path shapes, query strings, bodies and body chunkings over a menu of valid and invalid parts",
  NT+"Routes, parameters and error paths are untested.",
  ["src/server.rs","src/create_server.rs"],
  [("route table and parameter extraction","Router, DynamicUri"),("parameter parsers","create_server.rs")],
  ["HTTP status, headers and body"])
p("C21","Amounts are exact to the satoshi",
  "For every amount from 0 to 21 million bitcoin, for single outputs and for sums, the decimal number in a response denotes exactly the amount in satoshi divided by 100,000,000.",
  ["inputs"],"all amounts in dense ranges at both ends and around every power of two and ten and every subsidy value, alone and summed",
  NT+"Formatting of values is untested.",
  ["src/create_server.rs","src/store/transaction_store_backend_trait.rs","src/transaction.rs"],
  [("division by 1e8 in double precision","format_value, get_balance_array"),("summation","balance")],
  ["numbers in HTTP responses"])
p("C22","A misbehaving node never makes the indexer serve wrong answers",
  "Whatever any single RPC call returns (a transport failure, an HTTP or RPC error, an undecodable body, a body split arbitrarily), the indexer either stops or goes on serving answers that are correct for a chain and mempool the node really had. The node's replies 'no such height' and 'no such transaction' are not failures: the first ends the catch-up and the second leaves out only that transaction.",
  ["fault_sequences"],"every RPC call of a history replaced by every fault of a menu, one or two faults per history",
  NT+"No test talks to a node.",
  ["src/client.rs","src/last_blocks.rs","src/state.rs"],
  [("error code handling","Client::getrawtransaction, getblockhash"),("panic on anything unexpected","Client::request")],
  ["process exit and HTTP answers after the fault"])
p("C23","Failure of any part stops the whole process",
  "If polling, persisting or serving fails for good, under every interleaving the process terminates instead of continuing to serve ever older answers or without persistence, and the previously stored index file stays intact. A single failing HTTP request does not stop it.",
  ["fault_sequences","schedules"],"a permanent failure injected into each background activity at every RPC call or disk operation, under all interleavings up to a preemption bound",
  NT+"No test runs the program.",
  ["src/executor.rs","src/main.rs","src/state.rs"],
  [("results of runtimes are joined and unwrapped","Executor::join")],
  ["process exit"])
p("C24","Configuration is read faithfully or refused",
  "Each environment variable that is set is used with exactly the value given, each optional one that is unset takes its default (HOST 127.0.0.1, PORT 8000, CONFIRMATIONS 6, UPDATE_INTERVAL 1000), and a missing required or unusable value stops the program at start, before it contacts the node, serves queries or writes a file.",
  ["configurations"],"each variable unset, valid (several values) or invalid, all single and pairwise deviations",
  NT+"Configuration parsing is untested.",
  ["src/configuration.rs","src/main.rs","src/client.rs"],
  [("var and var_map","configuration.rs")],
  ["listening address, RPC target and credentials, files used, poll period, depth limit, start-up failure"])
p("C25","The system clock never affects the service",
  "Whatever the system clock reads, including steps backwards or forwards at any moment, start-up, updates, persisting and queries give the same answers and the process keeps running.",
  ["fault_sequences"],"a backward or forward clock step at any clock reading of a history",
  NT+"It needs a clock that steps at a chosen reading.",
  ["src/chronometer.rs","src/logger.rs"],
  [("elapsed-time log lines","Chronometer::elapsed")],
  ["process exit and HTTP answers"])
p("C26","A slow node never stalls the service",
  "However long the node takes over any single RPC call of an update made while the service is running, queries at every depth keep being answered meanwhile, correctly for a chain and mempool the node has had since the last completed update, and a write already under way completes. When the reply arrives at last the update completes, and the one after it serves the node's current chain and mempool exactly.",
  ["histories","fault_sequences","schedules"],"every RPC call of every history of a few updates is slow, in several ways, with further node events, intervals, queries and a stop meanwhile; all interleavings of queries with such an update up to a delay bound",
  NT+"It needs a node that keeps a chosen call waiting.",
  ["src/state.rs","src/client.rs","src/main.rs"],
  [("the update is computed under read access only, and applied afterwards","State::compute_update, apply_update"),("separate runtimes","main, Executor")],
  ["HTTP answers, store file after a restart"])
open('/verif/properties.jsonl','w').write(''.join(json.dumps(x)+'\n' for x in P))
import jsonschema
s=json.load(open('/root/.vp/PROPERTIES.schema.json'))
for x in P: jsonschema.validate(x,s)
print(len(P))
