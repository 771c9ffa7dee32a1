#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the single source of the property texts)."""
import json,os
P=[]
def p(id,title,statement,over,text,why,files,mech,state=(),observe=(),hook=None):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,state=[dict(name=a,meaning=b,where=c) for a,b,c in state],
                   mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=list(observe),hook_needed=hook)))

# ---------------------------------------------------------------- riblt
p("R01","Rateless reconciliation reports exactly the set difference",
 "Whenever a rateless decoder that has received at least one coded symbol reports that it is done, the symbols it lists as remote are exactly those the encoder's set has and the decoder's set lacks, and the ones it lists as local are exactly those the decoder's set has and the encoder's lacks, each once, with its data and hash intact. Before it is done, everything it lists already belongs to the right side of the difference. This holds for all sets filled before the first coded symbol and for any number and timing of decoding attempts.",
 ["inputs","histories"],"all pairs of sets, all membership overlaps, all symbol contents and symbol-to-index mappings, all interleavings of receiving coded symbols with decoding attempts (hash collisions excluded)",
 "The one riblt test runs one fixed pair of sets with one attempt after every coded symbol and checks only that nothing is missing, never that nothing extra is reported or that contents are intact.",
 ["riblt/decoder.go","riblt/encoder.go","riblt/symbol.go"],
 [("peeling: purity test on count and checksum, removal of recovered symbols from all received coded symbols","riblt/decoder.go TryDecode/applyNewSymbol"),("peeling of known symbols from newly received coded symbols","riblt/decoder.go AddCodedSymbol"),("selection of the symbols mapped to the next coded symbol","riblt/encoder.go applyWindow, mappingHeap")],
 [("cs","received coded symbols, partly peeled","riblt/decoder.go"),("pending","coded symbols not yet explained","riblt/decoder.go")],
 ["Decoder.Remote()","Decoder.Local()","Decoder.Decoded()"])
p("R02","The rateless decoder recovers everything peeling can recover",
 "After a decoding attempt returns, the decoder has recovered every symbol that repeatedly resolving coded symbols with a single unknown symbol could recover from what it has received, and it reports being done exactly when every coded symbol received is fully explained. The result does not depend on when earlier attempts were made, and further coded symbols received after completion leave it done and its lists unchanged.",
 ["inputs","histories"],"all mappings, all differences, all interleavings of coded symbols and attempts, including attempts made late, repeatedly or only once at the end",
 "The test only loops until the decoder says it is done, so a decoder that needs more symbols than necessary, stops early or never re-examines a coded symbol still passes.",
 ["riblt/decoder.go"],
 [("work list of coded symbols whose count entered [-1,1]","riblt/decoder.go dirty"),("count of unexplained coded symbols","riblt/decoder.go pending")],
 [("dirty","indices to re-examine","riblt/decoder.go")],["Decoder.Decoded()","Decoder.Remote()","Decoder.Local()"])
p("R03","The coded symbol stream depends only on the encoded set",
 "The i-th coded symbol an encoder produces is determined by the set of symbols added before the first was produced: the order of insertion and whether symbols were added raw or pre-hashed do not matter. A fixed-size sketch of a set equals the first coded symbols of the encoder's stream for the same set, every symbol contributes to the first coded symbol, and the caller's symbols are not modified.",
 ["inputs","histories"],"all sets, insertion orders, symbol contents and mappings, all stream positions",
 "Tests never compare streams: a position-dependent or order-dependent slip on both sides alike still lets the sampled sets decode.",
 ["riblt/encoder.go","riblt/sketch.go","riblt/symbol.go"],
 [("min-heap of next mapped index per symbol","riblt/encoder.go mappingHeap"),("direct mapping of a symbol into a sketch","riblt/sketch.go AddHashedSymbol")],
 [("queue","heap ordered by next coded index","riblt/encoder.go")],["Encoder.ProduceNextCodedSymbol()","Sketch cells"])
p("R04","Every symbol maps to a valid increasing sequence of coded symbols",
 "For every 64-bit symbol hash, without exception, the coded symbols a symbol is mapped to form a strictly increasing sequence of non-negative indices starting at the first coded symbol; producing, receiving or sketching coded symbols therefore always terminates and never fails, whatever hash values symbols have.",
 ["inputs"],"all 2^64 hash values / generator states, at every position of the stream up to the stated bound",
 "Tests use a few thousand well-mixed hashes; the failing values (zero, and states near 0 or 2^64 after mixing) have probability around 2^-54 each and are never sampled.",
 ["riblt/random.go","riblt/encoder.go","riblt/decoder.go","riblt/sketch.go"],
 [("index generator","riblt/random.go nextIndex")],[("lastIdx","last index mapped","riblt/random.go"),("prng","generator state","riblt/random.go")],
 ["Encoder.ProduceNextCodedSymbol()","Decoder.AddCodedSymbol()","Sketch.AddHashedSymbol()"])
p("R05","Resetting a rateless encoder or decoder leaves no trace of earlier use",
 "After a reset, an encoder or decoder behaves exactly like a newly created one: for any history before the reset and any use after it, coded symbols, recovered symbols and completion reports are the same as those of a fresh object.",
 ["histories","inputs"],"all histories before the reset (sets, partial or complete decoding, abandoned work) and all uses after it",
 "No test resets a decoder, and the encoder's Reset is only exercised by a benchmark that checks nothing.",
 ["riblt/encoder.go","riblt/decoder.go"],[("reset of windows, work lists and counters","riblt/decoder.go Reset, riblt/encoder.go reset")],
 [("pending","unexplained coded symbols","riblt/decoder.go"),("nextIdx","next stream position","riblt/encoder.go")],
 ["Encoder.Reset()","Decoder.Reset()"])
p("R06","Subtracting sketches and decoding yields the set difference",
 "For two equal-sized sketches, subtracting one from the other and decoding reports success exactly when peeling can resolve the difference, and then lists exactly the symbols only in the first set as remote and exactly those only in the second set as local, with data and hash intact. Common symbols cancel completely; the sketch subtracted keeps its contents and can be used again; subtracting sketches of different sizes is refused.",
 ["inputs","configurations"],"all set pairs, overlaps, sketch sizes and mappings within bounds",
 "Sketches have no test at all.",
 ["riblt/sketch.go","riblt/decoder.go"],[("cell-wise subtraction","riblt/sketch.go Subtract"),("decoding of a sketch","riblt/sketch.go Decode")],(),["Sketch.Subtract()","Sketch.Decode()"])
p("R07","Coded symbols thin out according to the designed density",
 "The distance from one mapped index to the next follows the designed density (a symbol is in coded symbol i with probability 1/(1+i/2)): for every generator output the step equals the inverse-transform value for that output to within the rounding of one index and the precision of floating-point numbers.",
 ["inputs"],"all 64-bit generator outputs and all positions up to the stated bound",
 "A changed constant or rounding shifts the overhead of reconciliation but still decodes, so the sampled round trip passes.",
 ["riblt/random.go"],[("closed-form inverse transform","riblt/random.go nextIndex")],[("lastIdx","last index mapped","riblt/random.go")],["index sequence of a symbol"])
# ---------------------------------------------------------------- lt / iblt
p("L01","The coding window is a bounded duplicate-free FIFO",
 "In both LT encoders (lt and iblt), the coding window always holds the most recently accepted transactions in order of acceptance, never more than the configured size and never two with the same salted hash. Adding a transaction is refused exactly when one with the same salted hash is in the window at that moment, a refused addition changes nothing, and evicted transactions can be accepted again; a reset empties the window and applies the new size and degree distribution.",
 ["histories","inputs"],"all sequences of additions, repeats and resets, all window sizes and transaction contents",
 "TestAddTransaction adds 51 distinct transactions once; it never re-adds after eviction, interleaves resets, or uses windows of size 1.",
 ["lt/encoder.go","iblt/encoder.go"],[("window plus set of salted hashes","lt/encoder.go AddTransaction"),("reset","lt/encoder.go Reset")],
 [("window","transactions being coded","lt/encoder.go"),("hashes","salted hashes in the window","lt/encoder.go")],["Encoder.AddTransaction()","Encoder.ProduceCodeword()"])
p("L02","An LT codeword is the XOR of distinct window members it names",
 "In both LT encoders (lt and iblt), every codeword names min(d, window size) distinct transactions of the current window, where d is the degree drawn, and carries exactly the XOR of their data, for any randomness. Producing codewords changes neither the window's order nor any transaction's data, and every selection of members is possible.",
 ["inputs","histories"],"all random choices, degrees, window contents and numbers of codewords already produced",
 "TestProduceCodeword follows one random seed through degrees 1..50 and compares content but not that members are distinct or that all selections remain possible.",
 ["lt/encoder.go","iblt/encoder.go"],[("partial shuffle that is undone afterwards","lt/encoder.go produceCodeword")],[("shuffleHistory","swaps to undo","lt/encoder.go")],["Encoder.ProduceCodeword()"])
p("L03","The LT decoder returns only genuine transactions, each once",
 "For every sequence of codewords built from genuine transactions and of directly added transactions, in any order and with repeats, both LT decoders (lt and iblt) return only transactions that are members of some codeword received, with exactly the original data and hash, and never return a transaction that is already known. No such sequence makes the decoder fail.",
 ["histories","inputs"],"all codeword sets and orders, all interleavings with directly added transactions, all contents (salted-hash collisions excluded, memory large enough)",
 "TestEncodeAndDecode follows one seed and checks only that all hashes eventually appear; it never checks the data returned, double returns, or direct additions.",
 ["lt/decoder.go","iblt/decoder.go","lt/transaction.go","iblt/transaction.go"],[("peeling from pending codewords","lt/decoder.go markDecoded/peelTransaction"),("decode queue","lt/decoder.go decodeCodewords")],
 [("receivedTransactions","known transactions","lt/decoder.go"),("pendingTransactions","named but unknown","lt/decoder.go")],["Decoder.AddCodeword()","Decoder.AddTransaction()"])
p("L04","The LT decoder decodes as soon as peeling allows and says so",
 "After each call, both LT decoders (lt and iblt) have returned every transaction that repeatedly resolving codewords with a single unknown member could produce from everything received so far, and a received codeword reports itself decoded exactly when all its members are known. The order in which codewords and transactions arrived does not change what is known.",
 ["histories","inputs"],"all sequences and orders of codewords and directly added transactions within bounds",
 "The test waits until everything is decoded and would not notice decoding later than possible, or a codeword whose status is wrong.",
 ["lt/decoder.go","iblt/decoder.go"],[("links between pending transactions and the codewords they block","lt/decoder.go blocking/members")],
 [("queued","codeword is scheduled for decoding","lt/decoder.go"),("decoded","codeword status","lt/decoder.go")],["Decoder.AddCodeword()","PendingCodeword.Decoded()"])
p("L05","The LT decoder remembers exactly its configured memory",
 "Both LT decoders (lt and iblt) know exactly the most recently learned transactions up to the configured memory, whether they were decoded or added directly: an older one is forgotten, is reported as not known, and can be learned and returned again, while adding a remembered one changes nothing. Forgetting never disturbs pending codewords or later decoding and never makes the decoder fail.",
 ["histories","configurations"],"all sequences of learning, forgetting and relearning, all memory sizes including 0 and 1",
 "Tests use a memory far larger than the number of transactions, so nothing is ever forgotten.",
 ["lt/decoder.go","iblt/decoder.go"],[("FIFO of recently learned transactions","lt/decoder.go storeNewTransaction")],
 [("recentTransactions","order of learning","lt/decoder.go")],["Decoder.HasDecoded()","Decoder.AddCodeword()","Decoder.AddTransaction()"])
p("L06","A corrupt LT codeword is discarded without collateral damage",
 "When a codeword's content does not match the members it names, both LT decoders (lt and iblt) discard what it would decode to instead of returning it, and stay able to decode every transaction that the remaining codewords allow. No sequence of mismatched codewords, in any position, makes the decoder fail or leaves a discarded codeword blocking others.",
 ["fault_sequences","inputs"],"all placements of codewords with wrong content among correct ones and direct additions (salted-hash collisions excluded)",
 "TestFailToDecode calls one helper on hand-built state; no test feeds a mismatched codeword through the decoder.",
 ["lt/decoder.go","iblt/decoder.go"],[("salted-hash check of a decoded transaction and unlinking of the failed codeword","lt/decoder.go decodeCodewords/failToDecode")],
 [("blocking","codewords waiting for a transaction","lt/decoder.go")],["Decoder.AddCodeword()","Decoder.AddTransaction()","PendingCodeword.Decoded()"])
# ---------------------------------------------------------------- ldpc
p("P01","Fixed-size transactions serialize, XOR and hash faithfully",
 "A fixed-size transaction accepts exactly inputs of the transaction size and refuses every other length; what it serializes to is byte for byte what was given, its identity depends on nothing but those bytes, and reusing a transaction object leaves nothing of its old content. XOR of transaction data is byte-wise, symmetric and self-inverse.",
 ["inputs"],"all byte contents and all input lengths within the stated bound",
 "The ldpc tests do not compile at this commit, so nothing checks this today; as written they sample one random content and one wrong length.",
 ["ldpc/transaction.go"],[("word-wise XOR over raw memory","ldpc/transaction.go XOR"),("size check, copy and hash","ldpc/transaction.go UnmarshalBinary")],(),["Transaction.UnmarshalBinary()","Transaction.Serialized()","TransactionData.XOR()"])
p("P02","The node's encoder emits valid codewords for any randomness",
 "For every outcome of its random choices, the fixed-size (ldpc) encoder produces a codeword that names min(d, window size) distinct window transactions, d being the degree drawn, and carries the XOR of exactly those; an empty window gives an empty codeword. Its window is a bounded duplicate-free FIFO that producing codewords never changes, and producing a codeword never fails.",
 ["inputs","histories"],"all values the random source may return (including 0), all degrees, window sizes and contents within bounds",
 "The ldpc tests do not compile; as written they follow a few random draws, while the failing draws have probability around 2^-53.",
 ["ldpc/encoder.go"],[("reservoir sampling with geometric skips","ldpc/encoder.go produceCodeword"),("window and hash set","ldpc/encoder.go AddTransaction")],
 [("window","transactions being coded","ldpc/encoder.go"),("codewordBuilderPool","recycled scratch space","ldpc/encoder.go")],["Encoder.ProduceCodeword()","Encoder.AddTransaction()"])
p("P03","The node's decoder is sound and complete with recycling at any time",
 "For every sequence of codewords built from genuine transactions, directly added transactions and releases of codewords at any time, the fixed-size (ldpc) decoder returns exactly the transactions peeling can resolve, each once and intact, and marks one as expired exactly when the codeword it was resolved from had been released. Known are the transactions added or returned last, as many as the decoder's memory; it counts each of them as received. A codeword not released reports itself decoded exactly when all its members are known, however recycled memory is reused.",
 ["histories","inputs","schedules"],"all orders of receiving codewords, adding transactions and releasing codewords, all reuse decisions of the object pools",
 "The ldpc tests do not compile; as written they never release a codeword before it is decoded and never reuse recycled objects across decodes.",
 ["ldpc/decoder.go"],[("object pools for pending codewords and pending transactions","ldpc/decoder.go pendingCodewordPool/pendingTransactionPool"),("release","ldpc/decoder.go Free"),("peeling","ldpc/decoder.go markDecoded/decodeCodewords")],
 [("freed","released by its owner","ldpc/decoder.go"),("decoded","fully resolved","ldpc/decoder.go")],["Decoder.AddCodeword()","Decoder.AddTransaction()","PendingCodeword.Free()","PendingCodeword.Decoded()"])
p("P04","Arbitrary codewords from a peer cannot break the node's decoder",
 "Whatever codewords a peer sends (any symbol bytes, any list of member identifiers, including repeated, unknown or contradictory ones), interleaved with genuine transactions and with forgetting of old ones, the fixed-size (ldpc) decoder never fails and never returns a transaction whose salted hash was not named by a codeword. Genuine codewords that share no member with the hostile ones decode as if these had not arrived.",
 ["inputs","fault_sequences"],"all member lists up to the bound including duplicates, all symbol bytes, all interleavings, memory sizes from 0",
 "The ldpc tests do not compile, and they only build well-formed codewords.",
 ["ldpc/decoder.go"],[("consistency panics guarding the pending/received maps","ldpc/decoder.go AddCodeword/decodeCodewords"),("hash check and unlinking","ldpc/decoder.go failToDecode")],
 [("pendingTransactions","named but unknown","ldpc/decoder.go")],["Decoder.AddCodeword()","Decoder.AddTransaction()"])
# ---------------------------------------------------------------- des
p("D01","Simulated messages arrive exactly once, in time order, ties FIFO",
 "The discrete-event simulator delivers every scheduled message exactly once, to the addressed module (or back to its sender when none is addressed) with the original payload and sender, at the time of scheduling plus its delay. Deliveries happen in non-decreasing time, messages due at the same time are delivered in the order they were scheduled, and the simulated clock equals the due time of the message being delivered.",
 ["histories","schedules"],"all sets of messages and delays including ties and zero delays, and all messages scheduled by handlers during delivery, within bounds",
 "The simulator package has no tests.",
 ["des/simulator.go"],[("priority queue on (arrival, sequence number)","des/simulator.go priorityQueue"),("delivery loop","des/simulator.go deliverNextMessage"),("scheduling","des/simulator.go ScheduleMessage")],
 [("mq","undelivered messages","des/simulator.go"),("seq","scheduling order","des/simulator.go"),("time","clock","des/simulator.go")],["Module.HandleMessage()","Simulator.Time()"])
p("D02","Running the simulation to a time delivers everything due by then",
 "After running to a time t, no message due at or before t is left undelivered, including ones scheduled by handlers during the run, nothing beyond the first message due after t has been delivered, and the clock never moves backwards across runs. The counts of queued and delivered messages always add up to the number ever scheduled, and a simulation is drained exactly when none is queued.",
 ["histories","schedules"],"all message sets and delays, all sequences of run-until times, within bounds",
 "The simulator package has no tests.",
 ["des/simulator.go"],[("bounded run","des/simulator.go RunUntil"),("run to completion","des/simulator.go Run"),("counters","des/simulator.go EventsQueued/EventsDelivered")],
 [("time","clock","des/simulator.go")],["Simulator.RunUntil()","Simulator.Run()","Simulator.EventsQueued()","Simulator.EventsDelivered()","Simulator.Drained()"])
# ---------------------------------------------------------------- newsim
p("N01","Every transaction belongs to exactly one shard, agreed by both ends",
 "In the sharded reconciliation protocol (newsim), for every number of shards and every transaction hash, over one full cycle of shards the sender puts each buffered transaction into exactly one block, and for every block the receiver selects from its own buffer exactly the transactions the sender would have selected, so that both ends reconcile the same part of the hash space and no part is left out.",
 ["inputs","configurations"],"all hashes, shard randomizers, shard orders and shard counts within bounds",
 "newsim has no tests, and the boundary hashes (multiples of the shard size and the wrap-around shard) have negligible probability in a simulation run.",
 ["newsim/coding.go"],[("shard range computation with wrap-around","newsim/coding.go tryProduceCodeword"),("membership test at the receiver","newsim/coding.go onCodeword")],
 [("shardSchedule","order of shards","newsim/coding.go"),("buffer","transactions awaiting their shard","newsim/coding.go")],["codeword start/end hash","blocks of sender and receiver"])
p("N02","A reconciled block loses nothing and invents nothing on either side",
 "When a block of the newsim coding protocol completes, the receiver has been handed exactly the block's transactions that only the sender had, and the sender, through the completing acknowledgement, exactly those that only the receiver had, each once and intact; transactions that arrived at either end while the block was in progress are neither lost nor mixed into it and take part in a later block. This holds for every interleaving of arrivals and message deliveries over an ordered link.",
 ["histories","schedules","inputs"],"all interleavings of transaction arrivals with codeword and acknowledgement deliveries, overlaps and mappings, within bounds",
 "newsim has no tests.",
 ["newsim/coding.go","riblt/decoder.go","riblt/encoder.go"],[("block assembly and encoder reset","newsim/coding.go tryProduceCodeword"),("decoding, acknowledgement and decoder reset","newsim/coding.go onCodeword"),("delivery of receiver-only transactions","newsim/coding.go onAck")],
 [("buffer","transactions waiting for a block","newsim/coding.go"),("currentBlockReceived","receiver finished the block","newsim/coding.go")],["coding.handleMessage()","coding.forwardTransaction()","outboxes"])
p("N03","The block sender respects its window and never stalls",
 "The newsim sender starts a new block only after the previous one was acknowledged as complete, marks exactly the first codeword of each block as its start, and apart from the burst that opens a block never has more unacknowledged codewords of a block outstanding than its send window, which never falls below one. The receiver answers every codeword of an unfinished block with exactly one acknowledgement, and as long as messages are delivered there is always something in flight, so reconciliation never stops.",
 ["histories","schedules"],"all sequences of acknowledgements and arrivals, all control overheads and shard counts tried, within bounds",
 "newsim has no tests.",
 ["newsim/coding.go"],[("window accounting","newsim/coding.go onAck/tryFillSendWindow"),("burst at block start","newsim/coding.go tryProduceCodeword"),("acknowledgement generation","newsim/coding.go onCodeword")],
 [("inFlight","codewords of this block not acknowledged","newsim/coding.go"),("sendWindow","allowed codewords in flight","newsim/coding.go"),("encodingCurrentBlock","block in progress","newsim/coding.go")],["sender outbox","receiver outbox"])
p("N04","A newsim server accepts and relays each transaction exactly once",
 "A newsim server counts each transaction as received exactly once, whether generated locally, broadcast or reconciled, however often and from whomever it arrives, and every further arrival as a duplicate. It hands each new transaction exactly once to each neighbour's link except the one it came from, sends every outgoing message exactly once to the right neighbour with that neighbour's delay, and accounts the size of every message received: a transaction's configured size for each transaction it carries, and for a codeword 24 bytes more, for an acknowledgement 8 bytes, for an announcement or a request 32 bytes.",
 ["histories","inputs"],"all sequences of arrivals from all neighbours, repeated and simultaneous, within bounds",
 "newsim has no tests.",
 ["newsim/module.go"],[("deduplication","newsim/module.go HandleMessage"),("relay except to source","newsim/module.go forwardTransaction"),("draining of outboxes","newsim/module.go collectOutgoingMessages, newsim/coding.go collectOutgoingMessages")],
 [("received","transactions known","newsim/module.go"),("peers","neighbours","newsim/module.go")],["server.HandleMessage() result","server counters"])
p("N05","The pull protocol fetches each announced unknown transaction",
 "In the pull protocol (newsim), a link announces each transaction given to it exactly once, requests an announced transaction exactly when it does not know it, answers a request with exactly the transaction asked for, and hands over each response intact. Every queued message is sent exactly once, and a transaction known on a link is never requested on it again.",
 ["histories","inputs"],"all sequences of local transactions, announcements, requests and responses within bounds",
 "newsim has no tests.",
 ["newsim/pull.go"],[("announce/request/response state machine","newsim/pull.go handleMessage/forwardTransaction"),("outbox draining","newsim/pull.go collectOutgoingMessages")],
 [("known","transactions known on this link","newsim/pull.go")],["pull.handleMessage()","pull.collectOutgoingMessages()"])
# ---------------------------------------------------------------- simulator
p("S01","LT block sender: every transaction goes into exactly one block",
 "The LT block protocol's sender (simulator) takes each transaction it is given into exactly one block, in order and never dropped; it starts a block only when allowed to, when the previous block was acknowledged and when enough transactions are waiting, marks exactly the first codeword of a block, encodes a block from that block's transactions only, and never keeps more codewords unacknowledged than its window allows. Until a block is acknowledged it keeps sending: it sends whenever the window allows.",
 ["histories","schedules"],"all sequences of transactions, acknowledgements and start permissions, all thresholds and overheads tried, within bounds",
 "The simulator has no tests.",
 ["simulator/node.go","lt/encoder.go"],[("block start and window","simulator/node.go tryProduceCodeword/tryFillSendWindow"),("acknowledgement handling","simulator/node.go onAck")],
 [("buffer","waiting transactions","simulator/node.go"),("currentBlock","block being sent","simulator/node.go"),("inFlight","codewords not acknowledged","simulator/node.go")],["sender outbox"])
p("S02","LT block receiver acknowledges a block once, and only when justified",
 "The LT block protocol's receiver (simulator) answers every codeword with exactly one acknowledgement and acknowledges a block as received at most once, exactly at the first codeword of that block at which more than the threshold of its codewords have arrived and no more than the tolerated fraction of them is undecoded. A codeword that starts a block restarts this count, and every newly decoded transaction is handed over exactly once.",
 ["histories","inputs"],"all sequences of codewords, decodings caused by other peers and block starts, thresholds and loss targets tried, within bounds",
 "The simulator has no tests.",
 ["simulator/node.go","lt/decoder.go"],[("completion detection","simulator/node.go onCodeword")],
 [("curCodewords","codewords of the current block","simulator/node.go"),("currentBlockReceived","block already acknowledged","simulator/node.go")],["receiver outbox","receiver.onCodeword()"])
p("S03","Transaction forwarding is rate limited without loss or reordering",
 "Every transaction a simulator server learns is scheduled for forwarding exactly once, in the order learned, never in the past, and never closer than the configured minimum interval to the previously scheduled one, across any number of bursts. Each is scheduled at the earliest such time (the start of the simulation counts as a slot already given): when the limiter is idle, the first transaction of a burst is forwarded without delay.",
 ["inputs","histories"],"all burst sizes, burst times and minimum intervals within bounds",
 "The simulator has no tests.",
 ["simulator/module.go"],[("slot allocation","simulator/module.go scheduleForwardingTransactions")],
 [("lastScheduled","slot given last","simulator/module.go"),("minInterval","spacing","simulator/module.go")],["outgoing loopback messages"])
p("S04","A simulator server learns and relays each transaction exactly once",
 "A simulator server registers every transaction, generated or decoded, exactly once, counts every codeword and every decoded transaction, relays each to every neighbour exactly once, and sends every message its links produce exactly once to the right neighbour with that neighbour's delay, then reschedules its periodic work. With a decoder memory large enough for what is under way, no sequence of honest messages makes it fail.",
 ["histories","inputs"],"all sequences of generated bursts, codewords, acknowledgements and loopbacks within bounds",
 "The simulator has no tests.",
 ["simulator/module.go","simulator/node.go"],[("message dispatch","simulator/module.go HandleMessage"),("registration","simulator/module.go registerReceived"),("draining of outboxes","simulator/module.go collectOutgoingMessages")],
 [("received","transactions registered","simulator/module.go")],["server.HandleMessage() result","server counters"])
p("S05","Simulations are reproducible from their seed",
 "With the same configuration, topology and seed, both simulators (simulator and newsim) produce the same sequence of messages: what a server sends, in which order, and how it consumes its random numbers depends only on its inputs and seed, never on the iteration order of hash tables.",
 ["schedules","histories"],"all hash-table iteration orders, all message sequences and neighbour counts within bounds",
 "No test runs a simulation, and iteration order differs from run to run only with some probability.",
 ["simulator/module.go","newsim/module.go"],[("iteration over neighbours","simulator/module.go collectOutgoingMessages/forwardTransaction, newsim/module.go collectOutgoingMessages/forwardTransaction"),("seeded random sources","simulator/module.go newServers, newsim/module.go newServers")],
 [("handlers","links by neighbour","simulator/module.go")],["server.HandleMessage() result"])
p("S06","Simulated transactions are distinct and combine without loss",
 "In both simulators every transaction generated, by whichever server, has a number no transaction generated before has, and carries the time of its generation; as many are generated as a burst announces. Its hash depends on that number only, and on all of it. Combining transactions by XOR depends neither on order nor on grouping, loses nothing (any member is recovered bit for bit from the others), has the zero value as neutral element, and changes none of the transactions combined.",
 ["inputs","histories"],"all triples of transactions; all bursts at any times within bounds",
 "Neither simulator has tests.",
 ["simulator/transaction.go","newsim/types.go"],[("transaction algebra","simulator/transaction.go XOR/Hash, newsim/types.go XOR/Hash"),("generation","simulator/transaction.go generate, newsim/types.go generate")],
 [("txgen","number of the next transaction","simulator/main.go")],["transaction.XOR()","transaction.Hash()","transactions forwarded"])
# ---------------------------------------------------------------- node
p("K01","Key exchange survives any fragmentation of the byte stream",
 "When a node connects to a peer it sends its full key, and it uses for decoding exactly the first 16 bytes the peer sent, however the transport splits them; the bytes after the key are left for the codeword stream. If the stream ends or fails before the key is complete, the connection is refused instead of proceeding with a wrong key.",
 ["inputs","fault_sequences"],"all fragmentations of the incoming stream, all key bytes, read and write failures at any point",
 "The node has no tests; over a fast local connection reads are never split.",
 ["node/controller.go"],[("handshake","node/controller.go handleConn")],[("decoderKey","peer's salt","node/controller.go")],["bytes consumed from the connection","result of handleConn"])
p("K02","The node's sender accounts every loss once and honours its rate",
 "The node's sender reports each locally observed codeword loss to the peer exactly once, carrying unreported losses over to the next codeword actually sent when one is skipped; after it has sent a codeword its rate is never below the configured minimum, losses reported by the peer raise the rate by the configured constant each, and it never sends more codewords than its accumulated rate credit allows.",
 ["histories","schedules"],"all interleavings of loss reports, new transactions, send ticks and a full or empty outgoing queue, within bounds",
 "The node has no tests.",
 ["node/sender.go"],[("loss accumulation and credit","node/sender.go loop")],
 [("accumLoss","losses not yet reported","node/sender.go"),("credit","codewords allowed","node/sender.go"),("cwRate","rate","node/sender.go")],["codewords put on the outgoing queue"])
p("K03","The node's receiver times out each codeword exactly once",
 "The node's receiver retires each received codeword exactly once, in order of arrival, when a later codeword arrives after its timeout and not before; it counts a loss exactly for those not decoded by then, forwards the peer's reported losses unchanged when positive, and passes on every transaction its decoder returns exactly once and in order.",
 ["histories","schedules"],"all arrival times, timeouts, decoding outcomes and interleavings with directly learned transactions, within bounds",
 "The node has no tests.",
 ["node/receiver.go","ldpc/decoder.go"],[("sliding receive window","node/receiver.go decode")],
 [("rxWindow","codewords not yet retired","node/receiver.go")],["loss reports","decoded transactions"])
p("K04","The node's controller passes every transaction to every peer",
 "The node's controller passes every locally generated transaction and every decoded transaction that has not expired to the sending and the receiving side of every connected peer exactly once, and an expired one to the receiving sides only; a peer added later gets everything learned after it joined.",
 ["histories","schedules"],"all interleavings of local, decoded and expired transactions with peers joining, within bounds",
 "The node has no tests.",
 ["node/controller.go"],[("fan-out","node/controller.go loop, notifyUnexpiredTransaction, notifyExpiredTransaction")],
 [("peers","connected peers","node/controller.go")],["per-peer transaction queues"])
# ---------------------------------------------------------------- misc
p("M01","Measuring a simulation is exact and does not disturb it",
 "In both simulators, once the warm-up is over every transaction a server learns from a neighbour adds exactly one latency sample, the time from its generation until then, and (simulator) every block started adds one overlap sample, the fraction of the block its receiver already knew; nothing is sampled before. Counters start again from zero when reset. Whether a server is measured or reset never changes what it sends or learns.",
 ["histories","inputs"],"all sequences of generated bursts, codewords, acknowledgements and resets within bounds, all times and warm-up lengths",
 "Neither simulator has tests; a sample too many or too few only shifts the reported quantiles.",
 ["simulator/module.go","simulator/transaction.go","newsim/module.go","newsim/types.go"],[("latency and overlap sampling","simulator/module.go HandleMessage, newsim/module.go HandleMessage"),("warm-up","simulator/transaction.go recordRaw/recordTxLatency, newsim/types.go recordTxLatency")],
 [("latencySketch","latency samples","simulator/module.go"),("overlapSketch","overlap samples","simulator/module.go")],["samples in the sketches","server counters"])
p("K05","Transactions reach every connected node unaltered",
 "Nodes connected directly or through others, over connections made at any time, spread every transaction: one generated at any node is soon sent on by every node connected to it, to all its peers and under the key of each connection, with every bit of its content intact. No node ever sends a transaction nobody generated or an altered one, and on undisturbed connections no loss is reported.",
 ["inputs","histories","schedules"],"all contents of transactions, all orders of connecting, generating and waiting, in small networks within bounds",
 "The node has no tests; no test connects two nodes.",
 ["node/controller.go","node/sender.go","node/receiver.go","ldpc/encoder.go","ldpc/decoder.go"],[("connection set-up","node/controller.go handleConn/newPeer"),("spreading","node/controller.go loop"),("sending and receiving","node/sender.go loop/sendCodewords, node/receiver.go receive/decode")],
 [("peers","connected peers","node/controller.go")],["bytes written to the connections"])
p("F01","Metric filters report the running maximum and exact differences",
 "The simulators' metric filters are exact: a maximum filter returns the largest non-negative value recorded since it was last read, and starts afresh after a read; a difference filter returns the change since the last read, so that successive readings add up to the total change.",
 ["inputs","histories"],"all sequences of values and reads within bounds, integer instances",
 "Neither simulator has tests.",
 ["simulator/filter.go","newsim/filter.go"],[("maximum and difference filters","simulator/filter.go, newsim/filter.go")],(),["filter readings"])
p("T01","Topology files load into exactly the connections they list",
 "Loading a topology file of lines 'node,node,milliseconds' yields exactly one connection per line, in order, between these nodes and with this delay, whatever the size of the file and of the numbers; the node count is one above the largest node index; a file with a line that lacks a field or has a field that is no number is refused instead of loading without it.",
 ["inputs"],"all file contents",
 "No test loads a topology.",
 ["simulator/topology.go","newsim/topology.go"],[("line parsing","simulator/topology.go loadTopology")],(),["loadTopology()"])
p("M02","The node measures delays exactly and once each",
 "A transaction a node generates carries the microsecond of its generation and a codeword a node sends that of its sending. Once the warm-up is over, a node's controller adds for every decoded transaction, expired or not, exactly one sample to its latency record: the milliseconds from its generation until then; it adds none earlier and none for local transactions. A node's receiver adds exactly one sample for each codeword: the milliseconds from its sending to its arrival, and starts its record afresh every second.",
 ["inputs","histories","schedules"],"all times, warm-ups and orders of events within bounds",
 "The node has no tests.",
 ["node/main.go","node/controller.go","node/receiver.go","node/sender.go"],[("latency of transactions","node/main.go getDelayUs, node/controller.go loop"),("transit time of codewords","node/receiver.go decode")],(),["delay records"])
# ---------------------------------------------------------------- not claimed
p("Z01","Reconciliation overhead stays near its design value",
 "The expected number of coded symbols or codewords needed to reconcile a difference stays within the designed factor of the size of the difference, for all difference sizes and window configurations.",
 ["configurations","inputs"],"expectation over random hashes and degrees, for all set sizes",
 "Tests log the number of codewords of one run but compare it to nothing.",
 ["riblt/random.go","lt/encoder.go","ldpc/encoder.go"],[("degree distribution","riblt/random.go, github.com/yangl1996/soliton")],(),["codewords until decoded"])
p("Z03","The node is free of data races and deadlocks",
 "The goroutines of a node share no memory without synchronisation and never block each other forever, whatever the scheduling and however slow a peer's connection is.",
 ["schedules"],"all goroutine schedules and peer speeds",
 "The node has no tests.",
 ["node/controller.go","node/sender.go","node/receiver.go","node/main.go"],[("channels between controller, senders and receivers","node/controller.go newPeer")],(),["progress of all goroutines"])

path=os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))),"properties.jsonl")
with open(path,"w") as f:
    for x in P: f.write(json.dumps(x)+"\n")
if __name__=="__main__":
    import jsonschema
    s=json.load(open("/root/.vp/PROPERTIES.schema.json"))
    for x in P:
        jsonschema.validate(x,s)
    print(len(P),"properties")
