def m(*pairs):
    return [{"name": a, "where": b} for a, b in pairs]

def st(*tr):
    return [{"name": a, "meaning": b, "where": c} for a, b, c in tr]

CON, PRO, ORD = "delivery/consumer.go", "delivery/producer.go", "delivery/ordering.go"
KAF, WEB, RES, NUL, WAI, TYP = "transports/kafka.go", "transports/websockets.go", "transports/resolver.go", "transports/null.go", "waiter/waiter.go", "delivery/types.go"
TODO = "check under construction; listed so that the property list is complete"

prop("P01", "Blocks are reassembled exactly, whatever the delivery order",
     "A consumer that receives every message of a block once, in any order, releases that block exactly when the last message arrives and not before. The released block has the published number, hash, parent, weight, updates (empty values and any announced prefix included) and deletes, nothing missing, nothing extra, also when messages of other blocks with the same keys or sub-batch keys are interleaved.",
     ["inputs", "schedules"], "for every block content (indexed, unindexed, sub-batches, empty values, any prefix form) and every permutation of its messages, alone or interleaved with another block's",
     "The tests shuffle a handful of messages of one or two block shapes randomly; the guarantee is over all orders and all content shapes, including orders in which sub-batch parts precede their headers and keys that end or start at unusual places.",
     [CON, PRO, TYP], m(("per-prefix counters, sub-batch bitmaps, queued early messages", CON)),
     st(("prefix counters", "messages still expected per announced prefix", CON), ("queued messages", "messages that came before their header", CON)),
     ["block subscription"], bin="hd", quick=60, deep=840,
     technique="all permutations of the messages of each block shape through the real producer and processor, all map-iteration orders up to a deviation bound, exact content oracle",
     note="Exhaustive over delivery orders of the listed block shapes (up to 6 messages, up to 720 orders each, times one deviating map iteration); content compared with what was given to the producer.",
     rule="an evaluation is one complete execution of producer and consumer for one delivery order; outcomes are distinct orders", bounds="22 block shapes up to 6 messages, 4 pairs of blocks, one map-iteration deviation (3 in thorough), long sub-batches in rotated and reversed order")

prop("P02", "A block is released once and only when complete, despite duplicates",
     "Whatever messages are redelivered, however often and in whatever positions (repeats, replay from an earlier position, a second producer's copies), a block is never released before every distinct message of it has been received, is released as soon as that is the case, and is not released again by further copies. The redelivery never alters its content.",
     ["histories", "inputs"], "for every arrangement of 1..3 copies of every message of a block, every rollback point, and every merge of two producers' streams",
     "Tests deliver each message once or repeat a whole stream once; early release needs a duplicate to be mistaken for the missing message, which depends on which message is repeated and where.",
     [CON, ORD], m(("duplicate suppression by key, index and completed-block memory", CON)),
     st(("completed blocks", "recently released hashes", CON)), ["block subscription", "chain updates"], bin="hd", quick=60, deep=840,
     technique="all distinct arrangements of duplicated messages, rollbacks and merges of redundant producers, replayed on the real processors",
     note="Exhaustive over all multiset permutations for the listed shapes (2 or 3 copies of each message), all rollback points of two-block streams and all merges of two producers' streams within bounds.",
     rule="one evaluation is one arrangement of original and duplicate messages", bounds="up to 4 distinct messages with 2 copies (2520 arrangements each), streams of up to 6 messages with up to two rollbacks")

prop("P03", "Untracked prefixes never matter and tracked ones are complete",
     "A consumer configured with a set of tracked prefix expressions releases a block exactly when it has everything the block announces under matching prefixes, and the released block contains exactly the tracked updates and deletes. Content announced under other prefixes neither delays the block nor appears in it, whether or not its messages are received.",
     ["configurations", "inputs", "schedules"], "for every subset of a family of tracking expressions, every block shape and every delivery order",
     "The tests track everything; a filter that is slightly too wide or narrow shows only with particular expression sets and message orders.",
     [CON], m(("filtering of announced records", CON)), st(("tracked prefixes", "expressions of interest", CON)), ["block subscription"], bin="hd", quick=60, deep=600,
     technique="product of all tracking subsets and all delivery orders on the real processor against a reference filter",
     note="Exhaustive over 32 tracking subsets times all delivery orders of the listed shapes.", rule="one evaluation is one (tracking subset, delivery order)", bounds="5 tracking expressions, 4 block shapes of up to 6 messages, a two-block chain")

prop("P04", "Producers route every item and redundant producers are interchangeable",
     "For every block each update and delete is sent exactly once: on the topic of the schema entry matching its key and counted under the matched prefix in the announcement, or inline in the announcement if no entry matches; the announcement is a single message, last on the default topic, carrying number, weight and parent. Sub-batches go to the topic of their key as a header with the right count followed by consecutively numbered messages. Two producers given the same input send the same set of messages, so a consumer can take each message from either.",
     ["inputs", "configurations", "schedules"], "for every subset of a universe of keys as updates and deletes, every sub-batch arrangement, every internal iteration order and every per-message choice between two producers",
     "The producer test checks the number of messages of one block; determinism across processes cannot be seen in a single run.",
     [PRO, TYP], m(("schema matching, counts, sorted sub-batch keys", PRO)), st(("pending batches", "announced sub-batches", PRO)), ["messages returned by the producer"], bin="hd", quick=60, deep=600,
     technique="exhaustive enumeration of block contents and internal map orders of the real producer against a reference encoder, and of all producer mixes through the real consumer",
     note="Exhaustive over 1024 key subsets with one deviating map order; mixes of two producers enumerated for 7 shapes.", rule="one evaluation is one block content (or mix) with one internal iteration order", bounds="6 update keys, 4 delete keys, up to 2 sub-batches with up to 3+2 items")

prop("P05", "Refused input has no effect",
     "A schema with an invalid or overlapping expression is refused. A block with an invalid sub-batch id, or whose sub-batch key is also a key or announced prefix of the block, is refused, and a sub-batch that was not announced or was already sent is refused. A refused call produces no messages and does not change what later calls do: exactly the sub-batches of accepted blocks can be sent, once each, under the block that announced them.",
     ["histories", "inputs"], "for every sequence of accepted and refused block and sub-batch calls up to a depth, and every subset of a schema universe",
     "Tests check single error returns; side effects of a refused call only show in a later call.",
     [PRO], m(("validation in the producer", PRO)), st(("pending batches", "announced sub-batches", PRO)), ["producer calls"], bin="hd", quick=60, deep=840,
     technique="all operation sequences up to depth 4 (6 in thorough) on the real producer against a reference model, with internal map orders",
     note="Exhaustive over sequences of 10 operations up to the depth.", rule="one evaluation is one operation sequence", bounds="depth 4 quick, 6 thorough; 128 schemas")

prop("P06", "Chain updates always link up",
     "Applied in order, the updates a subscriber receives always form one chain: each removes exactly the current end of the chain as seen by the subscriber (listed in ascending order) and then adds blocks that each have the previous one as parent, starting at the block the consumer was started from. No block is added while it is part of the chain, and no update both removes and adds a block.",
     ["histories", "inputs", "schedules"], "for every block tree up to a size, every delivery order of its blocks and messages, and every weighting",
     "The ordering tests replay about thirty hand-picked orders of one tree; a wrong fork point needs a particular tree, arrival order and weighting.",
     [ORD], m(("fork search and emission of waiting descendants", ORD)), st(("pending and queued blocks", "blocks available for reorgs, children by parent", ORD)), ["chain update subscription"], bin="hd", quick=100, deep=1500,
     technique="all labelled block trees (shape x delivery order) up to 6 blocks (7 in thorough) and all weightings of smaller ones on the real ordered processor, with a subscriber model as monitor",
     note="Exhaustive over every rooted tree with every arrival order up to the size bound, with the start block redelivered or not, and forks below the start block.", rule="one evaluation is one tree with one delivery order and weighting", bounds="trees of 6 blocks (quick), 7 (thorough); 4 blocks with weight increments 0..3")

prop("P07", "Consumers converge to the heaviest delivered chain",
     "Once all blocks of a block tree have been delivered, in any order, the chain seen by subscribers ends in a block of maximal weight among the delivered blocks that are connected to the start block. Consumers that receive the same blocks in different orders therefore end on equally heavy chains.",
     ["histories", "schedules"], "for every block tree up to a size, every weighting and every delivery order, with forks at and below the start block within the reorg threshold",
     "Getting stuck on a lighter chain needs several blocks of a side branch to arrive before their parent in a particular order.",
     [ORD], m(("weight comparison, evaluation of waiting descendants", ORD)), st(("finished blocks", "blocks connected to the chain", ORD)), ["chain update subscription"], bin="hd", quick=100, deep=1500,
     technique="all labelled block trees up to 6 blocks (7, with 8 attempted, in thorough) on the real ordered processor, final state compared with the reference fork choice",
     note="Exhaustive over every rooted tree with every arrival order up to the size bound.", rule="one evaluation is one tree with one delivery order and weighting", bounds="trees of 6 blocks (quick), 7 (thorough); weight increments 0..3 for 4 blocks, 1..2 for 5 blocks in thorough")

prop("P08", "Only strictly heavier chains replace the current one",
     "Blocks are removed from the chain only by an update that ends in a block strictly heavier than the end before it; a competing chain of equal weight never replaces the current one. Delivering blocks again that were already received, from any source and at any time, produces no update.",
     ["histories", "schedules"], "for every block tree up to a size, every weighting, every delivery order and every position and origin of a repeated block",
     "Ties and repeats must be right at every step of every history; the tests contain a few ties and no repeats at the chain level.",
     [ORD], m(("weight comparison and memory of finished blocks", ORD)), st(("finished blocks", "blocks already considered", ORD)), ["chain update subscription"], bin="hd", quick=100, deep=840,
     technique="all labelled block trees with a repeated block at every position on the real ordered processor, monitor on every update",
     note="Exhaustive over trees of 4 (with weights) and 5 blocks with one repetition anywhere through either entry point, and trees of 7 blocks without.", rule="one evaluation is one tree, delivery order, weighting and repetition", bounds="trees of 4 and 5 blocks with repeats (6 in thorough), 7 without")

prop("P09", "Whitelisted block numbers are honoured",
     "With a whitelist, no block whose number is listed with another hash, and no descendant of such a block, is ever added to the chain, whatever its weight and whenever it or its descendants arrive. Every other delivered block is treated as if the excluded ones had never been published, so the chain still converges to the heaviest allowed one.",
     ["histories", "configurations"], "for every block tree up to a size, every whitelist with one or two entries (three in thorough; entries may name a hash that is never delivered) and every delivery order",
     "An excluded block can slip in through the path that evaluates waiting descendants, which only particular arrival orders take.",
     [ORD], m(("whitelist and blacklist lookup before a block is considered", ORD)), st(("blacklist", "hashes excluded so far", ORD)), ["chain update subscription"], bin="hd", quick=60, deep=840,
     technique="all labelled block trees times all whitelists over their blocks on the real ordered processor, with a reference fork choice over the allowed blocks",
     note="Exhaustive over trees of 4 and 5 blocks and whitelists of up to 2 entries.", rule="one evaluation is one tree, delivery order and whitelist", bounds="4 blocks with weight increments and one entry, 5 blocks with two entries; 6 blocks and three entries in thorough")

prop("P10", "Reorganisations within the threshold always work; older blocks are let go",
     "However long the chain has grown, a heavier branch that replaces at most the last threshold blocks is adopted whatever the order in which its blocks arrive, and the branch that was left can win back as long as it forks within the threshold. Blocks further back than twice the threshold, their side blocks, blocks whose ancestors never arrived and never-completed blocks at their height are released, no longer held by the consumer, and not held again when their messages are repeated.",
     ["histories", "configurations"], "for every threshold up to a bound, every chain length around multiples of the threshold, every reorg depth up to the threshold and every arrival order of the branch",
     "All tests use a threshold of 128 with a dozen blocks, so the bounded window of recent blocks never fills.",
     [ORD, CON], m(("bounded memory of finished blocks and eviction", ORD)), st(("finished blocks", "bounded window of connected blocks", ORD)), ["chain update subscription", "WhyNotReady"], bin="hd", quick=60, deep=840,
     technique="all chain lengths, reorg depths and branch arrival orders for small thresholds on the real ordered processor",
     note="Exhaustive for thresholds 1 to 3 (4 in thorough).", rule="one evaluation is one (length, depth, arrival order, return order)", bounds="thresholds 1..3 (4 in thorough), chain lengths up to 3*threshold+2, all orders of the branch")

prop("P11", "A consumer starts where it is told",
     "A consumer started from a last block emits no block at or before it and continues with its children, also when history up to that block is delivered again in any order and mixed with new blocks. A consumer started without a last block, given each block after its parent, starts with the first block it receives (also when that is a genesis block without a parent or of weight zero, and with or without an initial weight) and follows the heaviest chain from there.",
     ["histories", "configurations"], "for every tree of new blocks and every merge with redelivered history; for every tree delivered parents first without a start block",
     "Tests start at one position and deliver in one or two orders.",
     [ORD], m(("initial last hash and initial emission", ORD)), st(("last hash", "end of the chain", ORD)), ["chain update subscription"], bin="hd", quick=60, deep=840,
     technique="all labelled trees merged in all ways with redelivered history on the real ordered processor",
     note="Exhaustive over 3 new and 3 old blocks or 4 new and 1 old, and trees of 6 blocks for fresh starts.", rule="one evaluation is one tree and merge", bounds="up to 5 blocks in total for resuming, 6 for fresh starts (one more in thorough)")

prop("P12", "Reorganisation notices take effect at their place in the stream",
     "When the stream contains a notice that names an earlier block as new end of the chain, subscribers are notified once with that number and hash, blocks sent before the notice are processed before it and blocks sent after it after it, and the blocks that follow are emitted on top of the named block: also when they arrive in one burst with the notice, were already known or emitted before, and when the branch goes back further than the threshold. Blocks can be assembled again after a notice.",
     ["schedules", "histories"], "for every schedule of the processor's goroutine against the delivering one up to a preemption bound, notices deeper and shallower than the threshold, bursts and single deliveries, unknown and known branches",
     "The consumer test sends one notice and waits; whether the notice overtakes blocks depends on which of two ready channels a select takes.",
     [ORD, CON], m(("notice and block channels between assembler and ordering", ORD)), st(("reorg counter", "notices handled", ORD)), ["reorg subscription", "chain update subscription"], bin="hd", quick=60, deep=840,
     technique="all schedules and select choices up to a deviation bound of the real processors, plus all redelivery orders at the assembly level",
     note="Exhaustive over schedules with up to 2 deviations (3 in thorough) for 11 scenarios.", rule="one evaluation is one schedule", bounds="chains of up to 7 blocks; 2 deviations from the default schedule, 3 in thorough")

prop("P13", "Resuming from any token loses nothing",
     "The resumption token of a block names for each source a position such that a new consumer started after that block, which reads every source from the named position (or from the start if it is not named), rebuilds the rest of the chain completely. This holds however the sources were interleaved and whenever the sub-batches of a block are published, for blocks announced in the order of their chain. Positions advance with the chain: when blocks arrive one after another, a token names no position before the messages of the previous block.",
     ["histories", "schedules"], "for every interleaving of the messages of up to four sources and every block emitted in it",
     "The error needs a source to run ahead of the block announcements, which depends on the interleaving of partitions.",
     [CON], m(("per-source positions kept with each block", CON)), st(("resumption", "position per source", CON)), ["PendingBatch.Resumption"], bin="hd", quick=60, deep=600,
     technique="all interleavings of the per-partition streams through the real consumer; each emitted token replayed into a second real consumer",
     note="Exhaustive over interleavings of streams with 4 to 8 messages on 2 to 4 sources.", rule="one evaluation is one interleaving (all tokens in it are checked)", bounds="up to 4 blocks, 3 topics, 2 partitions; sub-batches of up to 3 blocks published at any later moment")


prop("P14", "Waiters report the truth about blocks",
     "A wait for a block hash or number reports success only if that block, or some block of that number, was marked done, and does so promptly once that happens, however often and by whomever the block was announced and however many subscribers mark it. It reports a timeout only after the whole timeout has passed without the block being done, and reports not found only for blocks that were not announced or have been forgotten. Waiting and marking never crash or block the stream.",
     ["schedules", "histories"], "for every schedule of waiting, announcing and marking goroutines up to a preemption bound, one or several waits per block, competing blocks, repeated announcements",
     "The tests wait once per block under one schedule; races between announcing, waiting and marking, and repeated announcements, are not reached.",
     [WAI, ORD, TYP], m(("announcement subscription, channels per hash and number", WAI), ("marking blocks done", TYP)), st(("hash and number channels", "announced blocks waited for", WAI)), ["WaitForHashResult", "WaitForNumberResult"], bin="hd", quick=60, deep=840,
     technique="all schedules up to a deviation bound of announcing, waiting and marking goroutines with virtual time, every result judged against the recorded history",
     note="Exhaustive over schedules with up to 2 deviations (3 in thorough) for 9 scenarios.", rule="one evaluation is one schedule", bounds="up to 4 blocks, 4 waits, 2 subscribers; 1-2 deviations, 2-3 in thorough")

prop("P15", "Waiters remember recent blocks and forget old ones",
     "Once the first block of a number was marked done, it and its number are remembered for a minute: waits for its hash or number within that time succeed at once, and later it is forgotten together with the blocks that competed for its number (a block that competed with one already done is kept for a minute from its announcement), so that memory does not grow. Waits that started before keep working, and stopping the waiter leaves the stream and other subscribers undisturbed.",
     ["histories", "schedules"], "for every sequence of announcing, marking, waiting and passing time up to a length, and every schedule around stopping up to a bound",
     "The retention period is a minute, so no test reaches the far side of it.",
     [WAI], m(("delayed removal of finished waits", WAI)), st(("hash and number channels", "remembered blocks", WAI)), ["WaitForHashResult", "WaitForNumberResult", "Stop"], bin="hd", quick=60, deep=840,
     technique="all event sequences of bounded length with virtual time on the real waiter, plus all schedules up to a bound around stopping",
     note="Exhaustive over event sequences of the listed alphabet.", rule="one evaluation is one event sequence or schedule", bounds="sequences of up to 6 events on a chain with a side block; 2 deviations around Stop (3 in thorough)")

KASSUME = ("the Kafka cluster and client library are replaced by /verif/fakes/sarama, written from the client's documented behaviour and source (v1.28)",)

prop("P16", "Kafka consumers lose and repeat nothing",
     "A started Kafka consumer delivers every block in its topics that follows its starting block, in chain order, complete, and exactly once: however the messages are spread over partitions (empty and unevenly filled ones included), whatever was removed by retention before, whether they were in the log before the start or arrive during or after it, and after a restart from the token of any delivered block with a rollback that covers the difference between partitions.",
     ["schedules", "inputs", "configurations"], "for every placement of the messages over up to three partitions, every schedule of starting, consuming and producing up to a bound, every restart point",
     "The transport tests run one placement on one schedule and are skipped without a Kafka cluster.",
     [KAF], m(("partition goroutines, warm-up and merging of partitions", KAF)), st(("messages", "merged stream of all partitions", KAF)), ["chain update subscription"], bin="ht", quick=60, deep=840,
     technique="all placements and all schedules up to a deviation bound of the real Kafka consumer over an in-memory cluster with virtual time",
     note="Exhaustive over placements on 1 to 3 partitions of up to 3 blocks, schedules with up to 1 deviation (2 in thorough) while starting.", rule="one evaluation is one placement and schedule", bounds="up to 3 partitions, 2 topics, 4 blocks; rollbacks that cover the difference; slow partitions; one long uneven log of 700 blocks", assume=KASSUME)

prop("P17", "Readiness means caught up, and everyone is told",
     "A Kafka consumer reports ready only after every block that was in its topics when it was started has been delivered, and it does so within a minute once messages are further than a second apart, also when some or all partitions are empty. Everyone who waits for it or asks later, before or after starting, is told.",
     ["schedules", "inputs", "configurations"], "for every placement over up to three partitions, every schedule up to a bound, several waiters before, during and after",
     "Readiness depends on which partition catches up last and on who asks when; no test covers it without a cluster.",
     [KAF], m(("high water mark tracking, ready channel", KAF)), st(("ready", "closed when caught up", KAF)), ["Ready"], bin="ht", quick=60, deep=840,
     technique="all placements and schedules up to a deviation bound of the real consumer with several waiters over an in-memory cluster with virtual time",
     note="Exhaustive over placements of up to 3 blocks and schedules with up to 1 deviation (2 in thorough).", rule="one evaluation is one placement and schedule", bounds="up to 3 partitions (slow ones included), 7 waiters, messages arriving every 7 s or every 0.5 s for 5 s", assume=KASSUME)

prop("P18", "Kafka consumption starts at the right position",
     "A partition named in the resumption token is read from rollback messages before the named position, or from the oldest message if the log does not reach back that far. A token made for a point in time makes a consumer deliver every block published since. Without a token a consumer with a starting block reads everything and one without starts at the end of the log. A start fails only if the named position is not in the log.",
     ["inputs", "configurations"], "for every token, rollback, log extent (after retention or not) and kind of start, and every point in time",
     "Off-by-one and fallback errors show only with particular combinations of rollback, retention and token.",
     [KAF, RES], m(("start offset computation and fallback", KAF), ("tokens for timestamps", RES)), st(("startOffset", "position per partition", KAF)), ["positions requested from the cluster", "chain update subscription"], bin="ht", quick=60, deep=600,
     technique="exhaustive enumeration of tokens, rollbacks and log extents on the real consumer, and of timestamps end to end",
     note="Exhaustive over the product of log extents, tokens, rollbacks and starts within bounds.", rule="one evaluation is one configuration", bounds="logs of up to 7 messages, rollbacks 0,1,2,100, up to 2 partitions for timestamps", assume=KASSUME)

prop("P19", "Closing a Kafka consumer always works",
     "Close returns whenever it is called: before the start or after a failed one, while partitions warm up (also when some of them are or become empty), before and after the consumer is ready, while messages flow, and several times or from several goroutines. Afterwards no partition is consumed any longer and nothing published later is delivered. A failed start leaves nothing behind and can be repeated.",
     ["schedules", "crash_points"], "for every schedule up to a bound of closing against starting, consuming and producing, at four stages and for every placement",
     "Hanging depends on which goroutine waits for which at the moment of closing.",
     [KAF], m(("shutdown of partition consumers", KAF)), st(("shutdownWg", "running partitions", KAF)), ["Close", "open partition consumers of the cluster"], bin="ht", quick=100, deep=840,
     technique="all schedules up to a deviation bound of closing the real consumer at every stage over an in-memory cluster with virtual time",
     note="Exhaustive over schedules with 1 deviation (2 in thorough) for 8 scenarios with all placements.", rule="one evaluation is one placement, stage and schedule", bounds="up to 2 partitions, 3 messages; 1 deviation, 2 in thorough", assume=KASSUME)

prop("P20", "Kafka producers publish every block once among redundant producers",
     "A block given to a Kafka producer, with its sub-batches, is published completely in the topics of its schema (created if they do not exist) unless its announcement is already in the default topic, in which case the block and its sub-batches are accepted and nothing is sent. This holds for announcements made by other producers at any time and for the last 100 messages of each partition from before the start; creating a producer always returns, whatever the topic contains or has lost. Purging the replay cache makes blocks be sent again in full. When a message cannot be sent, a call reports it, and a block whose own call failed is published completely when it is tried again.",
     ["histories", "schedules", "fault_sequences"], "for every interleaving of two redundant producers, every content and retention state of the topic, every position of a failing message and every schedule up to a bound",
     "The tests have no cluster; duplicate suppression, failures and retention are never reached.",
     [KAF], m(("recent announcements and skipped sub-batches", KAF), ("order of emission", KAF)), st(("recentHashes", "blocks announced by anyone", KAF), ("skipBatches", "sub-batches of skipped blocks", KAF)), ["messages in the topics"], bin="ht", quick=60, deep=840,
     technique="all interleavings, topic states, failing messages and schedules up to a deviation bound of the real producer over an in-memory cluster",
     note="Exhaustive over 70 interleavings of two producers, 864 topic states, failures of each of the first messages, schedules with 1 deviation (2 in thorough).", rule="one evaluation is one topic state, interleaving or schedule", bounds="2 producers, 2-3 blocks, 2 partitions, 150 earlier messages; one failing message", assume=KASSUME)

prop("P21", "The latest block of the feed is found",
     "LatestBlockFromFeed returns the highest block number announced in the last 100 messages of the partitions of the default topic (0 if there is none), whatever the distribution over partitions, order, retention, foreign or malformed messages, and during publication a number between those before and after the call. It always returns and leaves nothing running.",
     ["inputs", "histories"], "for every distribution, order and surrounding messages of up to three announcements",
     "It needs a cluster, and errors show only for particular fill levels of the partitions.",
     [KAF], m(("scan of the last messages per partition", KAF)), st(("highestNumber", "result of the scan", KAF)), ["LatestBlockFromFeed"], bin="ht", quick=60, deep=300,
     technique="exhaustive enumeration of topic contents on the real producer over an in-memory cluster",
     note="Exhaustive over 11340 topic contents.", rule="one evaluation is one topic content", bounds="3 announcements, 2 partitions, 0/5/120 messages before, 0/96 after", assume=KASSUME)

prop("P22", "Producers are counted by their heartbeats",
     "Every healthy Kafka producer sends a heartbeat each 30 seconds and an unhealthy one none. ProducerCount of a producer is the number of other producers heard from in the given period, that of a consumer the number of all producers, for every history of producers becoming healthy and unhealthy.",
     ["histories"], "for every health history of up to three producers over three rounds",
     "The heartbeat interval is longer than any test.",
     [KAF], m(("heartbeat ticker and tracker", KAF)), st(("pingTracker", "last heartbeat per producer", KAF)), ["ProducerCount"], bin="ht", quick=60, deep=300,
     technique="all health histories with virtual time on real producers and consumers over an in-memory cluster",
     note="Exhaustive over health histories of 1 to 3 producers for 3 rounds.", rule="one evaluation is one history", bounds="3 producers, 3 rounds, periods of 45 and 75 s", assume=KASSUME)

WASSUME = ("the websocket library, the RPC server of cardinal-rpc and its subscription forwarding are replaced by /verif/fakes/websocket and /verif/fakes/rpctransports, written from their source",)

prop("P23", "Websocket streams pass from stored to live blocks without loss",
     "A consumer connected to a websocket producer receives every block after its starting block exactly once, in chain order and complete: stored blocks, blocks added while the stream passes from stored to live ones, and live blocks with their sub-batches, also when messages arrive before the subscription is confirmed. It reports ready once, after all blocks that were stored at its start have been delivered.",
     ["schedules"], "for every schedule, up to a bound, of adding blocks against a stream that is being set up, for several consumers and buffer sizes",
     "The handover has a gap of microseconds between the last stored block and the subscription to live ones, which a test does not hit.",
     [WEB], m(("subscription to the live feed, resumption of missed blocks", WEB), ("messages before the confirmation", WEB)), st(("live", "blocks added while stored ones are sent", WEB), ("early", "messages before the subscription's identifier", WEB)), ["chain update subscription", "Ready"], bin="ht", quick=60, deep=840,
     technique="all schedules up to a deviation bound of the real websocket producer and consumers over an in-memory network with virtual time",
     note="Exhaustive over schedules with up to 2 deviations for one or two consumers.", rule="one evaluation is one schedule", bounds="up to 2 stored and 2 live blocks, 2 consumers, buffers of 0, 1 and 4 blocks, up to 6 messages ahead of the confirmation", assume=WASSUME)

prop("P24", "Websocket blocks in parts are released exactly when complete",
     "A websocket consumer releases a block when its announcement and all announced sub-batches have arrived, in whatever order and mixed with parts and whole copies of other blocks, and not before; the released block is complete. A websocket producer accepts exactly the sub-batches it announced, once each, and refuses others without an effect.",
     ["inputs", "histories"], "for every order of the parts of up to three blocks, with whole copies of them, and every sequence of producer calls up to a depth",
     "The tests send parts in one order only.",
     [WEB], m(("batches, subbatches and pendingSubbatches of a connection", WEB)), st(("pendingSubbatches", "parts that are still missing", WEB), ("expectedBatches", "announced sub-batches", WEB)), ["chain update subscription", "SendBatch errors"], bin="ht", quick=60, deep=600,
     technique="all permutations of the real producer's messages delivered to the real consumer, and all producer programs up to a depth",
     note="Exhaustive over orders of up to 5 messages (7 in thorough) and programs of 4 calls (5 in thorough).", rule="one evaluation is one order or program", bounds="up to 3 blocks with up to 3 sub-batches", assume=WASSUME)

prop("P25", "Websocket consumers recover from broken connections",
     "Wherever connections break, however many dials, subscriptions and resumptions fail, and whatever happens while a consumer is disconnected (further blocks, parts of blocks, a longer branch), it connects again and delivers every block exactly once, in chain order and complete, ending on the chain of the producer. Messages that are malformed or belong to something else are ignored without a loss. No connections or streams are left behind.",
     ["crash_points", "fault_sequences"], "for every position of up to two broken connections, every pattern of refused dials and failing resumptions, and every kind and position of a foreign message",
     "Every message is a place where a connection can break; the tests break none.",
     [WEB], m(("reconnection from the last complete block", WEB)), st(("lastNum, lastHash", "position from which to resume", WEB)), ["chain update subscription", "open connections and streams"], bin="ht", quick=60, deep=840,
     technique="all positions of connection failures and other faults, with schedules up to a bound, on the real producer and consumer over an in-memory network with virtual time",
     note="Exhaustive over the positions of up to 2 cuts, 3 refusals or 4 failing resumptions; 1 schedule deviation (2 in thorough) for the shortest history.", rule="one evaluation is one placement of faults", bounds="up to 4 blocks and a branch of 3; 16 kinds of foreign messages at 9 positions", assume=WASSUME)

prop("P26", "Websocket connections end cleanly",
     "Closing a websocket consumer returns at any time (not started, connecting, server unreachable, running, twice), ends a start that is under way, and afterwards the consumer neither connects again nor delivers blocks, and other consumers are undisturbed. When a client goes away, however slow it was and whatever was queued for it, the producer stops its stream, stops asking the store for its blocks, and adding blocks does not hang.",
     ["schedules", "configurations"], "for every schedule up to a bound of closing against starting, connecting and receiving, at several stages, and every fill level of a client that does not read",
     "Leaks and hangs need a close or a stalled client at a particular moment.",
     [WEB], m(("closing under connLock and quit", WEB), ("context of a stream", WEB)), st(("quit", "closed with the consumer", WEB)), ["Close", "Start", "open connections and streams"], bin="ht", quick=60, deep=840,
     technique="all schedules up to a deviation bound of closing at every stage on the real producer and consumers over an in-memory network with virtual time",
     note="Exhaustive over schedules with 1 deviation (2 in thorough).", rule="one evaluation is one stage and schedule", bounds="up to 3 blocks, 2 consumers; stalled clients with 3, 40 and 1100 queued blocks", assume=WASSUME)

prop("P27", "Reorganisation notices arrive in order over websockets",
     "A notice given to a websocket producer reaches the subscribers of connected consumers once, with its number and hash, after the blocks added before it; the blocks added after it are delivered on top of the named block, complete, also when they follow at once, had been sent before, or the branch goes back further than the threshold.",
     ["schedules", "histories"], "for every schedule up to a bound of a burst of blocks and a notice, with branches shallower and deeper than the threshold, new and known",
     "Whether a notice overtakes a block depends on the schedule of three goroutines.",
     [WEB, ORD], m(("reorg messages in the stream", WEB)), st(("reorg", "notice passed to the ordered processor", WEB)), ["reorg subscription", "chain update subscription"], bin="ht", quick=60, deep=840,
     technique="all schedules up to a deviation bound of the real producer and consumer over an in-memory network",
     note="Exhaustive over schedules with up to 1 deviation (2 in thorough) for 8 histories.", rule="one evaluation is one schedule", bounds="up to 6 old and 3 new blocks", assume=WASSUME)

prop("P28", "Websocket messages preserve content exactly",
     "A block received over a websocket, live, from history or requested by number, is identical to the one given to the producer or its store: number, hash, parent, weight, every update (empty, binary) and deletion under keys of valid UTF-8, and everything in its sub-batches. Requesting a block that is not stored is answered with an error.",
     ["inputs"], "for every combination of keys, values, deletions and sub-batch contents from a set of unusual ones, and extreme numbers, hashes and weights",
     "Encoding errors show for particular values only (empty, null, numbers above 2^53, quotes in keys).",
     [WEB], m(("TransportBatch and transportSubbatch encodings", WEB)), st(("TransportBatch", "block on the wire", WEB)), ["blocks delivered", "StreamsBlock"], bin="ht", quick=60, deep=600,
     technique="exhaustive enumeration of block contents sent through the real producer and consumer",
     note="Exhaustive over the products of content choices.", rule="one evaluation is one block content and route", bounds="9 update keys, 4 delete keys, 3 sub-batches with 6 contents each, 5 numbers, 4 weights, 3 hashes", assume=WASSUME)

prop("P29", "Consumers of several brokers merge them into one stream",
     "A consumer of several brokers (Kafka clusters, websocket servers) delivers every block exactly once, in chain order and complete, when all brokers have all of it, when the parts of the blocks are split between brokers, and when some brokers are unavailable, whichever comes first and however their messages interleave. It is ready as soon as one of its brokers is, and everyone who waits is told; its start fails only if no broker can be started. After a restart from the token of any delivered block nothing is lost or repeated. ProducerCount is the sum of the counts of its Kafka brokers. Close ends all of its brokers.",
     ["schedules", "configurations"], "for every schedule up to a bound of two brokers delivering stored and live blocks, every division of the parts, every set of unavailable brokers",
     "How two brokers interleave is not under a test's control; the tests have no cluster and one websocket.",
     [RES, KAF, WEB], m(("muxConsumer over one shared message processor", RES)), st(("consumers", "brokers of the consumer", RES)), ["chain update subscription", "Ready", "Start", "Close"], bin="ht", quick=60, deep=840,
     technique="all schedules up to a deviation bound of the real consumer of several brokers over in-memory clusters and network with virtual time",
     note="Exhaustive over schedules with 1 deviation (2 in thorough) for 20 configurations.", rule="one evaluation is one configuration and schedule", bounds="2 or 3 brokers, up to 3 blocks with 2 sub-batches, 1 deviation (2 in thorough)", assume=KASSUME + WASSUME)

prop("P31", "Producers and consumers can be used from several goroutines",
     "Everything that users of a consumer or producer may do at the same time is free of data races: starting, several subscribers of every kind, asking for readiness, the state of a block, the number of producers or a waiter, waiting for blocks, and closing, while one or several brokers (Kafka, websocket) deliver blocks; publishing, reporting health, counting producers and asking for the latest block.",
     ["schedules"], "for every schedule up to a bound of all kinds of users of one consumer or producer; a race is reported for any two conflicting accesses that nothing orders, whatever the order in which they were executed",
     "The tests never use one consumer from two goroutines, and maps written concurrently crash the process only now and then.",
     [CON, ORD, KAF, WEB, RES, WAI], m(("maps of the processors", CON), ("pingTracker, health", KAF), ("waiters made on demand", RES)), st(("pendingBatches", "incomplete blocks", CON), ("pending", "blocks that may be built on", ORD)), ["reports of the race detector about accesses of the code under test"], bin="ht", quick=90, deep=840, race=True,
     technique="all schedules up to a deviation bound of concurrent users of the real consumers and producers, with happens-before race detection in every execution",
     note="Exhaustive over schedules with 1 deviation (2 in thorough) for 5 compositions of users.", rule="one evaluation is one schedule", bounds="10 to 20 users, 3 blocks, 1 or 2 brokers", assume=KASSUME + WASSUME + ("the scheduler, the fakes and the subscription library drumline are not instrumented; the order they establish for the code under test is given to the detector by /verif/vs",))

prop("P32", "The state of a block is told truthfully",
     "WhyNotReady never says of an incomplete block anything but a part that is really missing: a prefix, a sub-batch announcement or a message of a sub-batch; a block that is unknown, not yet announced or already released by the message processor is 'not found'; in the ordered processor a complete block waits for its 'pending parent' or is done. The question is answered at any time, also while a subscriber does not receive.",
     ["histories", "schedules"], "for every order of arrival of all parts of every shape of block, after every message; for every schedule up to a bound of questions while blocks and reorgs are stuck in a subscription",
     "The tests never call WhyNotReady.",
     [CON, ORD], m(("WhyNotReady", CON), ("WhyNotReady", ORD)), st(("pendingBatches", "incomplete blocks", CON), ("finished, pending", "complete blocks", ORD)), ["WhyNotReady"], bin="hd", quick=60, deep=600,
     technique="exhaustive enumeration of arrival orders on the real processors; all schedules up to a deviation bound",
     note="Exhaustive over arrival orders of the shapes and of a chain of four blocks, and over map iteration orders and schedules up to the bound.", rule="one evaluation is one order of arrival or schedule", bounds="blocks of up to 6 messages; 4 blocks; up to 2 deviations (3 in thorough)")

prop("P33", "Messages that belong to nothing do no harm",
     "Malformed or foreign messages before, between or after the messages of a block (keys of any type and length, unknown hashes, sub-batches and indices, arbitrary values) neither panic nor lose, complete, alter or repeat the block: it is released exactly once, with its last genuine message, with exactly its content, and no genuine message is refused because of them. (Excluded: messages under exactly the key of a genuine one, and reorg requests.)",
     ["inputs", "histories"], "for every foreign message of a systematic list of about 100, with every one of five values, at every position of every order of the block's messages; in thorough every pair of them",
     "The tests feed only what producers emit.",
     [CON], m(("processMessage, ApplyMessage", CON)), st(("pendingBatches, pendingMessages", "incomplete blocks and early messages", CON)), ["block subscription", "ProcessMessage"], bin="hd", quick=60, deep=840,
     technique="exhaustive enumeration of histories with injected messages on the real message processor",
     note="Exhaustive over injected message, value, position and order of a block with 6 messages.", rule="one evaluation is one history", bounds="1 injected message in every order; 2 in the forward and backward orders in thorough")

prop("P34", "Foreign records in Kafka topics do no harm",
     "A record in one of the topics that is no message of a block (no key, keys of any type and length, arbitrary values), stored or arriving live, before, between or after the genuine messages, does not stop a producer or consumer: blocks are delivered exactly once, the consumer becomes ready, closes and can be restarted from its tokens; producers recognise duplicates, publish new blocks and find the latest block. (Excluded: reorg records and records under the key of a genuine message.)",
     ["inputs", "histories"], "for every foreign record of a systematic list of about 220, at every position of every topic, stored and live",
     "The tests have no broker; real topics contain whatever was ever written to them.",
     [KAF, CON], m(("NewKafkaProducer, LatestBlockFromFeed, Start", KAF)), st(("messages", "records on the way to the processor", KAF)), ["chain update subscription", "records in the cluster", "LatestBlockFromFeed"], bin="ht", quick=60, deep=840,
     technique="exhaustive enumeration of foreign records and their positions, run on the real producer and consumer over an in-memory cluster with virtual time",
     note="Exhaustive over record and position (and schedules with 1 deviation in thorough).", rule="one evaluation is one record and position (and schedule)", bounds="1 foreign record among the messages of 2 blocks in 3 topics", assume=KASSUME)

prop("P30", "Producers for several brokers serve all of them",
     "A producer for several brokers gives every block and sub-batch to all of them, each in its own topics, and nothing to others; a failing broker does not keep the others from getting a block, the caller is told, and after a repeated block whose own calls had failed has been accepted it is complete everywhere and delivered once to the consumers of every broker. The latest block is the lowest one of the brokers that can tell; health, purging, counting of producers and notices of reorgs concern all of them; a broker that cannot be used makes the creation fail.",
     ["schedules", "configurations", "fault_sequences"], "for every schedule up to a bound of publishing to two clusters and a websocket, every selection and order of brokers, every position of one or two failing messages",
     "The tests never use a producer for several brokers.",
     [RES, KAF, WEB], m(("muxProducer", RES)), st(("producers", "brokers of the producer", RES), ("failedBatches", "sub-batches that have to be sent again", KAF)), ["records in the clusters", "blocks delivered", "errors of calls"], bin="ht", quick=90, deep=840,
     technique="all schedules up to a deviation bound of the real producer of several brokers over in-memory clusters and network with virtual time, all positions of failing messages",
     note="Exhaustive over schedules with 1 deviation (2 in thorough) for every configuration.", rule="one evaluation is one configuration, fault and schedule", bounds="up to 3 brokers, 2 blocks, 2 failing messages, 1 deviation (2 in thorough)", assume=KASSUME + WASSUME)

prop("P35", "The wire format is the specified one",
     "What a producer emits is what SPEC.md specifies, so that other implementations understand it: the prefix bytes of the eight kinds of message, the layouts of their keys, the Avro encodings of the batch record, the sub-batch record, the sub-batch header and the index messages, exactly one of value, count, deletion marker and sub-batch for every announced prefix, and reorg notices with the block number. In return every conforming encoding of a block is understood whoever made it: any order and any block form of Avro maps and arrays, any distribution of updates and deletions over messages of a sub-batch, items without updates, sub-batches of zero items, weights with leading zeros, numbers of any length up to 64 bits.",
     ["inputs"], "for every shape of block of a systematic list, every number, weight and hash of a set of extreme ones, decoded by an independent implementation of the format; for every permutation and packing of encodings made by it",
     "The tests encode and decode with the same code: an incompatible change of both sides passes every test but breaks every deployed counterpart and every stored topic.",
     [PRO, CON, TYP], m(("Producer.AddBlock, SendBatch, Reorg", PRO), ("processMessage, ApplyMessage", CON)), st(("BatchRecord, SubBatchRecord", "block as announced", TYP)), ["messages returned by the producer", "block subscription"], bin="hd", quick=60, deep=600,
     technique="exhaustive enumeration of blocks and of their conforming encodings, exchanged between the real producer and message processor and an independent codec",
     note="Exhaustive over shapes, extreme values, map orders and packings.", rule="one evaluation is one block and encoding", bounds="blocks of up to 8 messages; maps of up to 4 entries in every order and block division")

prop("P36", "The websocket protocol stays as it is",
     "What a websocket producer sends for a subscription is: one result per subscription and block whose fields are type, number, weight, hash, parent, values, deletes and batches; sub-batches with batchid, updates and deletions; reorg notices; a ready message when history ends; and it answers block requests in the same form. A consumer asks with cardinal_subscribe, 'streams', the number and hash it resumes from as hex strings, requests blocks by number, and understands all of these messages with absent, null or empty optional fields, unknown further fields, and fields in any order.",
     ["inputs", "histories"], "for every kind of message and block content of a systematic list, live, from history and by request, spoken by an independent implementation of the protocol on either side",
     "The tests connect the producer to the consumer of the same tree: an incompatible change of both passes every test but breaks deployed counterparts.",
     [WEB], m(("TransportBatch, transportSubbatch", WEB), ("Start of the websocket consumer", WEB)), st(("TransportBatch", "block on the wire", WEB)), ["JSON messages on the connection", "chain update subscription"], bin="ht", quick=60, deep=600,
     technique="exhaustive enumeration of messages exchanged between the real producer or consumer and an independent implementation of the protocol",
     note="Exhaustive over the listed contents, optional fields and routes.", rule="one evaluation is one block content, form and route", bounds="up to 3 blocks", assume=WASSUME)

prop("P37", "Broker URLs and configuration mean what they say",
     "A Kafka URL leads to exactly its brokers with exactly its settings (TLS, user and password with escapes, SASL mechanism, compression, acknowledgements, retries, fetch sizes), anything absent or unusable keeps its documented default, and every connection of producers, consumers, resumption by time and topic creation uses them; with SCRAM a client proves its password and accepts only a server that proves it knows it too. The scheme of a URL, with or without cardinal://, selects the kind of broker for every function that takes one; what cannot be used is refused with an error and never causes a panic or a connection. Topics that do not exist are made with the partitions, replication and entries asked for and carry messages of up to 10 MB; existing ones stay as they are; failures are reported; several producers may start together. A consumer of nothing is ready at once and all its methods return.",
     ["inputs", "configurations", "schedules", "fault_sequences"], "for every combination of any two options of a URL (all in thorough) with every user, mechanism and broker list; every scheme with every function; every number of brokers and partitions; every failing request; every schedule up to a bound of two producers starting together",
     "The tests parse no URL and have no cluster; a setting that is not passed on is noticed only in a deployment that depends on it.",
     [KAF, "transports/scram.go", RES, WEB, NUL], m(("ParseKafkaURL, CreateTopicIfDoesNotExist", KAF), ("XDGSCRAMClient", "transports/scram.go"), ("Resolve*, ResumptionForTimestamp", RES)), st(("sarama.Config", "settings of a connection", KAF)), ["configuration of clients", "topics created", "errors", "SASL messages"], bin="ht", quick=60, deep=840,
     technique="exhaustive enumeration of URLs, schemes, cluster configurations and failing requests on the real code against a reference interpretation, all schedules up to a deviation bound of producers starting together",
     note="Exhaustive over pairs of option values (the full product in thorough), schemes and configurations listed.", rule="one evaluation is one configuration (with all pairs of options inside) or schedule", bounds="10 options with up to 6 values, 5 users, 5 mechanisms, 3 broker lists; up to 5 brokers; 2 producers, 1 deviation (3 in thorough)", assume=KASSUME + WASSUME)

prop("P38", "Subscribers do not depend on each other",
     "Every subscriber of chain updates, blocks, announcements or reorg notices gets every event that is published after it subscribed, once and in order, whoever else subscribes, leaves or is slow to leave: a subscriber that joins later misses nothing from then on, one that leaves gets nothing more, is told so and holds nobody up, and each kind of subscription gets its own kind of events. This is the same for the message processor alone and for Kafka, websocket and combined consumers.",
     ["schedules", "configurations"], "for every schedule up to a deviation bound of publishing, receiving, joining and leaving; every moment of leaving and joining; every kind of event and stream",
     "The tests have one subscriber per stream that never leaves.",
     [ORD, CON, KAF, WEB, RES], m(("Subscribe, SubscribeReorg", ORD), ("Subscribe", WEB), ("Subscribe, SubscribeReorg of the combined consumer", RES)), st(("feeds", "subscribers of each kind of event", ORD)), ["events received by each subscriber", "Subscription.Err"], bin="ht", quick=60, deep=840,
     technique="all schedules up to a deviation bound of subscribers joining, receiving and leaving while blocks are published, on the real processor and consumers with virtual time",
     note="Exhaustive over schedules with 1 deviation (2 in thorough) for every kind of event, stream and moment.", rule="one evaluation is one kind of event, stream, moment and schedule", bounds="4 subscribers, 4 blocks, 1 deviation (2 in thorough)", assume=KASSUME + WASSUME)

prop("P39", "Consumers offer waiters that keep their word",
     "The waiter of a Kafka, websocket or combined consumer, made before or after the start, is always the same one. A wait for a block of it ends with success at the moment the block has been marked done by the subscriber, immediately if it had been; with a timeout exactly after the time given if the block is known but not done; immediately with not found for blocks that were not published. Waits stay possible for later blocks, do not keep the consumer from closing, and return after it was closed.",
     ["histories", "schedules"], "for every combination of moments of publishing, applying, waiting and timeout, every kind of consumer",
     "The tests use a waiter on a processor alone, never through a consumer.",
     [KAF, WEB, RES, WAI], m(("Waiter of each consumer", RES), ("WaitForHashResult, WaitForNumberResult", WAI)), st(("waiter", "waiter of the consumer", KAF)), ["WaitForHashResult", "WaitForNumberResult", "moments of return"], bin="ht", quick=60, deep=600,
     technique="exhaustive enumeration of the moments of publishing, applying and waiting on the real consumers with virtual time, schedules up to a deviation bound",
     note="Exhaustive over the listed moments, schedules with 1 deviation.", rule="one evaluation is one kind of consumer, combination of moments and schedule", bounds="2 blocks, 4 moments of applying, 3 of waiting, 3 timeouts, 4 waits, 1 deviation", assume=KASSUME + WASSUME)

prop("P40", "The death of a producer loses nothing for good",
     "A producer may die at any point of publishing, so that any first part of what it sent to each log (or connection) has arrived. A Kafka producer that takes over - started afterwards or standing by - and publishes the blocks again after its replay cache was purged, completes them: each is delivered once, in order and complete to consumers that ran all the time, to new ones and to ones that resume, even if another producer dies in between. Without a purge a new producer publishes exactly the blocks that had not been announced, in full, and reports the last announced one as the latest. When a websocket producer's process dies and another one takes over its address, consumers reconnect and end up with the chain of the new one, whatever part of a block they had and whether or not the store had it.",
     ["crash_points", "histories", "schedules"], "for every first part per log of the messages sent, every message at which a connection's process dies, every combination of two deaths",
     "The tests never stop a producer in the middle of anything.",
     [CON, ORD, KAF, WEB], m(("PurgeReplayCache, AddBlock, SendBatch", KAF), ("Streams", WEB)), st(("recentHashes, skipBatches", "blocks and batches another producer published", KAF), ("pending and finished blocks", "what had arrived of a block", CON)), ["logs of the cluster", "ChainUpdate", "LatestBlockFromFeed"], bin="ht", quick=120, deep=840,
     technique="exhaustive enumeration of crash points: every first part per partition of the messages sent, every message of a connection and pairs of crashes on the real producers and consumers, schedules up to a deviation bound",
     note="Exhaustive over crash points for histories of 2 (thorough: 3) blocks; schedules of the republication with 1 deviation.", rule="one evaluation is one crash point (one first part per log, or one message), way of recovery, resumed token and schedule", bounds="2-3 blocks before the crash, 1-2 partitions, 2 crashes, 2 consumers, 1 deviation", assume=KASSUME + WASSUME)

prop("P41", "Failing requests to the cluster are survived or reported",
     "When a request to the Kafka cluster fails (listing partitions, looking up an offset, beginning to read a partition), starting a consumer and creating a producer return promptly. Either an error is returned - then nothing stays open, and starting again works - or everything works as if nothing had failed: the consumer delivers every block from where it was to start, once and in order, becomes ready and closes; the producer publishes what others have not, completely; a latest block that is reported is never higher than the latest one, and is the latest one if no request failed.",
     ["fault_sequences", "histories"], "for every failing request (thorough: every two) of starting a consumer, creating a producer and looking for the latest block, every prior state of the partitions",
     "The tests use no cluster at all.",
     [KAF], m(("Start, NewKafkaProducer, LatestBlockFromFeed", KAF)), st(("readyWg, warmupWg", "partitions that are waited for", KAF)), ["Start error", "ChainUpdate", "Ready", "logs of the cluster"], bin="ht", quick=90, deep=840,
     technique="exhaustive enumeration of the requests that fail and of prior states of the partitions on the real consumer and producer",
     note="Exhaustive over single failing requests (pairs in thorough).", rule="one evaluation is one prior state of the partitions and one combination of failing requests", bounds="1-2 partitions per topic plus one, 3 states each, up to 2 blocks before and 4 in all, 1 failing request (2 in thorough)", assume=KASSUME)

prop("P42", "What was closed leaves nothing running",
     "Within two minutes of closing a consumer - of Kafka, a websocket or several brokers, before or after a start or a failed one, before or after it was ready, while messages arrive or it is connecting - nothing it started is left: no goroutine, no connection, no partition being read and no stream being served to it. The same holds for a message processor that was closed while idle, for a consumer or producer whose creation failed, and after making the token of a point in time or looking for the latest block, also if that failed. (Excluded: waiters, subscribers that do not receive, and producers, which cannot be closed, that were made for other brokers before one failed.)",
     ["schedules", "fault_sequences", "histories"], "for every moment of closing, schedule up to a bound, prior state of the partitions and failing request",
     "Tests end before anybody could notice what is left behind.",
     [KAF, RES, WEB, ORD], m(("Close", KAF), ("Close", WEB), ("Close, Ready", RES), ("Close", ORD)), st(("client", "connection to the cluster", KAF), ("quit", "end of a consumer", KAF)), ["goroutines that have not ended", "open clients and partition consumers of the cluster", "open websocket connections", "streams served"], bin="ht", quick=60, deep=840,
     technique="exhaustive exploration of the schedules of closing under a controlled scheduler, up to a deviation bound, that sees every goroutine and connection of the real code",
     note="Exhaustive over moments, states and failing requests; schedules with 1 deviation (2 in parts of thorough, 2-3 for the processor).", rule="one evaluation is one state, moment of closing, failing request and schedule", bounds="1-2 partitions with 3 states each, 3 messages, 2 clusters, 1 websocket server, 1-2 deviations", assume=KASSUME + WASSUME)
