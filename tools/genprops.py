#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the wording lives in one reviewable place)."""
import json, os
S="streams/"
P=[]
def p(id,title,statement,over,text,why,files,mech,observe):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),
      why_tests_cant=why,anchors=dict(files=files,mechanism=[dict(name=mech,where=files[0])],observe_at=[observe])))

p("C01","Every consumed event takes effect exactly once",
 "Every record on the source topic is eventually processed and its output records and state-store changes become visible to read-committed readers exactly once: none is lost, duplicated or altered (topic, partition, key, value, headers, record type). This holds for synchronous, asynchronous, batched and chained processing and for every valid transaction-pool configuration and load.",
 ["schedules","inputs","configurations","histories"],
 "all interleavings of the fetch, partition, producer and commit goroutines; all event mixes; all EOS pool sizes, batch sizes and delays",
 "Losing or doubling an event needs a particular interleaving of transaction hand-over, batch boundary and asynchronous completion; the existing tests never run the transactional pipeline without a real Kafka cluster.",
 [S+"eos_producer.go",S+"partition_worker.go",S+"event_context.go",S+"source_consumer.go"],
 "Per-partition worker feeds event contexts to a rotating pool of transactional producers; commit loop waits for all contexts, flushes and ends the transaction.",
 "committed records on the output, change-log and commit-log topics of the broker")
p("C02","An event's outputs, state changes and progress commit atomically",
 "For every event, its forwarded records, its state-store changes and the progress marker that says it is done are committed in one and the same transaction, or none of them becomes visible. A transaction in which any record could not be produced is never committed unless the configured transaction error policy says to continue.",
 ["schedules","fault_sequences","crash_points","histories"],
 "all interleavings and all broker faults (rejected records, dropped connections, expired transactions) at any request",
 "Atomicity only shows when a transaction is cut at a particular request; unit tests have neither faults nor transactions.",
 [S+"eos_producer.go",S+"commit_log.go",S+"event_context.go"],
 "All records of a set of events, plus one commit-log record per partition, are produced by one transactional client; errors abort.",
 "transaction identity of every committed record on the broker")
p("C03","Committed progress never passes unfinished work; crashes lose nothing",
 "The committed position of a partition never moves backwards and never passes an event that is not Complete. After a crash at any point the next owner resumes at the first event whose effects were not committed, so that no event is skipped and no committed effect is repeated; an immediate stop never skips an event either.",
 ["crash_points","schedules","histories"],
 "all crash points of a consumer, including while events are in flight asynchronously, all completion orders",
 "The interesting crash points lie between internal steps (completion, flush, end of transaction) and need several incarnations of the application over one log.",
 [S+"eos_producer.go",S+"commit_log.go",S+"source_consumer.go",S+"partition_worker.go"],
 "Commit-log topic holds next offset per partition, written inside the transaction; a new owner reads it back to a marker and filters older records.",
 "commit-log records in log order versus completion events; histories over several incarnations")
p("C04","Output order per source partition follows event order",
 "Records produced on behalf of events of one source partition become committed in the order in which the application produced them across successive transactions: if an event precedes another on the same source partition, none of its transaction's records appear after those of a later transaction, and two records one handler call produced to the same output partition keep their order.",
 ["schedules","inputs","configurations"],
 "all interleavings of several open transactions and partitions, all pool sizes",
 "Misordering requires two or more producers of the pool to hold records of the same partition at the moment ownership moves between them.",
 [S+"eos_producer.go"],
 "Partition ownership moves round-robin between producer nodes; records for partitions owned by another node are buffered until ownership is transferred.",
 "log order of committed records per (source partition, output partition)")
p("C05","Moving partitions between members neither loses nor repeats events",
 "When partitions move between live members (scale out, scale in, graceful leave, any balance strategy), every event is processed to a committed effect exactly once, and the old owner stops processing a partition, with all its accepted events committed and its state released, before the new owner starts on it.",
 ["schedules","histories","configurations","fault_sequences"],
 "all interleavings of joins, leaves and in-flight (also asynchronous) events over several members and balance strategies",
 "Needs several members of a consumer group and a rebalance that falls on in-flight transactions.",
 [S+"source_consumer.go",S+"partition_worker.go",S+"incr_rebalancer.go",S+"eos_producer.go"],
 "Revocation halts the worker and waits for accepted events; incremental rebalancer prepares the receiver first.",
 "effects per event across members; owner intervals observed by lifecycle callbacks and handlers")
p("C06","A partition's state store is rebuilt to exactly the committed state",
 "Before the first event or interjection of a newly assigned partition is processed, its state store has received exactly the committed change-log entries of that partition, in order, up to the last committed transaction: no uncommitted, aborted or internal record is delivered, and none is missing. Changes recorded while active are, in event order per key, exactly those the store would be rebuilt to.",
 ["histories","schedules","crash_points"],
 "all histories of committed and aborted transactions, deletions and compaction, hand-overs with and without standby preparation",
 "Depends on the exact moment of assignment relative to commits, on markers, on aborted transactions and on standby replication; no test loads a change log.",
 [S+"state_store_consumer.go",S+"partitioned_store.go",S+"source_consumer.go"],
 "Change-log consumer replays the partition from the start up to a marker record it produces itself; standby stores keep following.",
 "entries delivered to the store versus the broker's committed change log at activation")
p("C07","All application code of a partition runs one call at a time",
 "For each assigned partition, event handlers, asynchronous finalizers, interjections and state-store callbacks never run concurrently with one another, so that the partition's store needs no locking; the store a handler sees is always the one of its own partition.",
 ["schedules","histories"],
 "all interleavings of events, async completions, interjections, activation and revocation",
 "Overlap appears only under certain timings of completion, interjection and revocation; a passing test says nothing about others.",
 [S+"partition_worker.go",S+"event_context.go",S+"source_consumer.go",S+"partitioned_store.go"],
 "One goroutine per partition selects over events, interjections and async jobs; revocation releases the store afterwards.",
 "enter/exit events at every handler, finalizer, interjection and store callback")
p("C08","Keyed async scheduler: per-key order, bounded, every job exactly once",
 "Every job scheduled on the keyed job scheduler while it is running is processed exactly once and finalized exactly once with its own event, key, value and processing error; jobs of one key run one at a time in the order scheduled, and never more jobs run at once than the configured concurrency. Reconfiguring key limits or queue depth while running never loses, reorders or blocks a job, and after shutdown nothing is reported complete that was not processed and no caller stays blocked.",
 ["schedules","inputs","configurations"],
 "all interleavings of schedulers, workers, reconfiguration calls and shutdown; all key distributions, concurrency and queue depths",
 "Lost wake-ups and stuck queues need a queue to drain at the very moment a blocked producer resumes.",
 [S+"async_scheduler.go",S+"async_item_queue.go"],
 "Per-key bounded queues handed to a fixed set of workers through a channel; blocked producers add directly to the queue channel.",
 "job start/end/finalize events recorded at the processor and finalizer callbacks")
p("C09","Async batcher: size, concurrency and key exclusivity, callback exactly once",
 "Every item handed to the batcher is executed in exactly one batch and every batch callback fires exactly once, after all of its items are executed (also when it has no items). Batches never exceed the maximum size, at most the configured number run at once, a key is never in two running batches, items of one key execute in the order added, and callbacks of one key are delivered in the order added, even for events without items.",
 ["schedules","inputs","configurations"],
 "all interleavings of adders, timers and executing batches; all batch sizes, delays and key mixes",
 "Ordering and exclusivity depend on which batch is executing when an item of the same key arrives.",
 [S+"async_batcher.go"],
 "Fixed executors with key assignments, a flush timer and a pending list drained on completion.",
 "executor calls and callbacks recorded with item ids")
p("C10","Standalone producers report each record's fate exactly once",
 "A synchronous or asynchronous produce call on a standalone producer that was not closed reports exactly once whether the record was written, with the error the cluster returned, and success means that the record is on the log with the given topic (or the default one), key, value and headers. A batch produce invokes its callback exactly once, inside the event's partition context, after every record of the batch has a result, also for an empty batch, and the event completes even when no callback is given.",
 ["schedules","inputs","fault_sequences"],
 "all batch sizes including empty, all subsets of failing records, connection faults",
 "Needs a broker that fails individual records, and partial failures in one batch.",
 [S+"producer.go"],
 "Pending counter decremented by produce promises; completion re-enters the partition worker.",
 "callbacks, results and broker log")
p("C11","Interjections run on schedule, in the partition, and always report back",
 "A one-off interjection on an assigned, active partition runs exactly once in that partition's context, or its result channel reports an error; on a partition that is not owned it reports an error immediately, and in every case the caller is released, also when the partition is revoked or the application stops. Periodic interjections keep firing on every active partition about every configured interval plus or minus the jitter, also when they complete asynchronously, and stop after revocation.",
 ["schedules","histories","configurations"],
 "all interleavings of interjection, revocation and shutdown; all intervals and jitters",
 "The failing cases are races between a queued interjection and a revocation, or asynchronous completion.",
 [S+"interjection.go",S+"partition_worker.go",S+"source_consumer.go"],
 "Timer pushes the interjection to the partition's input channel; one-off result channel closed by a wrapper.",
 "interjection start/end, result channel, effects in the log, in virtual time")
p("C12","Incremental rebalancing keeps every partition owned and converges",
 "In every plan computed by the incremental balancer, each partition is assigned to exactly one live member, no partition moves away from a live owner to a member that has not reported it ready, at most one partition is in motion at a time, and departing members receive nothing new. Repeated rebalancing of a stable group with prompt members converges to partition counts that differ by at most one, drains departing members completely, and then changes nothing.",
 ["histories","inputs","configurations"],
 "all member sets, partition counts, ownership and readiness reports, and join/leave histories",
 "The plan depends on the whole group state and its history; no test builds one.",
 [S+"group_state.go",S+"incr_rebalancer.go"],
 "Leader reconstructs group state from member metadata and applies a budgeted move plan.",
 "sync assignments and instructions computed for each generation")
p("C13","Rebalance members follow prepare, ready, assign and leave faithfully",
 "A member told to prepare a partition starts preparing it once, reports it as preparing and then ready in its next joins until it is assigned or told to forget it, and asks for a new round after each such change; it releases every partition it is told to forget. A graceful leave is announced in the next join and is signalled as finished only when the member owns nothing, exactly once.",
 ["histories","schedules"],
 "all sequences of assignments, instructions, preparation results and leave requests, with concurrent callbacks",
 "Protocol state spans several joins and asynchronous preparation.",
 [S+"incr_rebalancer.go",S+"source_consumer.go"],
 "preparing/ready sets guarded by a lock and serialised to join metadata; instructions parsed from the sync payload.",
 "join metadata bytes, handler calls, group requests at the broker")
p("C14","Each event reaches exactly the handler for its type, decoded",
 "An event is passed, exactly once per delivery, to the handler registered for its record type with the value its decoder returned, and to the default handler when its type is missing or unknown. When decoding fails the handler is not called: the configured decode-error handler (or the default one when none is set) decides, a decision to continue marks the event complete with no effects, and any other decision leaves it uncommitted and makes the consumer fail and leave the group, or the process exit, so that another member handles it.",
 ["inputs","configurations"],
 "all type headers, registered type sets, payloads, and combinations of configured error handlers",
 "Depends on the combination of optional settings and malformed payloads.",
 [S+"event_source.go",S+"source.go",S+"error_handling.go"],
 "Chain of typed processors falling back to the default processor.",
 "handler, decoder and error-handler invocations per offset, committed progress")
p("C15","Transaction errors follow the configured policy",
 "Every failure to produce or commit is reported to the configured transaction error handler, and its decision is honoured: failing the consumer makes it unhealthy, stops processing and leaves the group so others take over, exiting terminates the process, and continuing keeps it running. With no handler configured the consumer fails, and in no case is an effect of the failed transaction visible unless the decision was to continue.",
 ["fault_sequences","schedules","configurations"],
 "all broker error codes and faults on transactional requests, at any time, for each policy",
 "Requires injected broker faults in the middle of transactions.",
 [S+"eos_producer.go",S+"source.go",S+"error_handling.go",S+"event_source.go"],
 "Commit loop consults the error handler, marks the source failed and triggers an immediate stop.",
 "handler calls, application state, group membership and committed records")
p("C16","Transactions respect batch limits and the batch delay",
 "No transaction takes in more events than the configured maximum, at most the configured number of producers have open transactions, and an idle application commits a pending event within about the batch delay of its completion.",
 ["schedules","configurations","inputs"],
 "all batch sizes, delays, pool sizes and arrival patterns, including several records per event",
 "Boundary conditions arise only for particular counts of events and records relative to the limits.",
 [S+"eos_producer.go",S+"eos_config.go"],
 "Target and maximum batch thresholds plus a flush timer on the open producer.",
 "events per committed transaction, and virtual-time latency from completion to commit")
p("C17","Partition lifecycle callbacks are complete and correctly ordered",
 "For every partition a member obtains and gives up, its callbacks run in the order assigned, activated, will-revoke, revoked, each exactly once per ownership (activation may be missing when revoked early). No event is handled before activation begins or after the revoked callback, the state is loaded when activated is called, and the store is told of revocation before the revoked callback and never used afterwards.",
 ["schedules","histories"],
 "all histories of assignment and revocation, including revocation during state loading and with asynchronous events in flight",
 "Needs rebalances timed against loading and in-flight work.",
 [S+"source.go",S+"source_consumer.go",S+"partition_worker.go",S+"partitioned_store.go"],
 "Callbacks issued by the group-assignment hooks and by the partition worker.",
 "callback, handler and store-callback events per partition")
p("C18","Codecs round-trip every value and never read outside their input",
 "For every supported codec, decoding what was encoded yields the same value for the full range of the type, and the sortable integer encoding orders bytewise exactly as the integers do. Decoding arbitrary bytes returns a value or an error, without panicking and without reading memory outside the input.",
 ["inputs"],
 "all values of the types and all byte strings, in particular extremes and truncated inputs",
 "Only a handful of values are sampled by the tests; ordering and memory safety are claims over all pairs and lengths.",
 [S+"codec.go",S+"commit_log.go"],
 "Fixed-width integers via pointer casts, sign-prefixed sortable integers, JSON, string and bytes codecs.",
 "return values; guarded input buffers under the checkptr and race instrumentation")
p("C19","Records carry exactly what was set, and recycled records leak nothing",
 "A record built through the builder, whatever the order of calls, is produced with exactly the key, value, headers, topic, partition and record type set on it, an empty value meaning deletion. Recycling never lets one record's data appear in another, converting a record to a plain or incoming one preserves all of it without altering the original, and automatic partitioning applies if and only if no partition was set.",
 ["inputs","schedules","histories"],
 "all builder call sequences and all interleavings of borrowing, producing and releasing pooled records",
 "Leaks through recycled buffers need particular reuse patterns across goroutines.",
 [S+"record.go",S+"sak/pool.go"],
 "Pooled records with reusable buffers; the record type is carried as a header.",
 "the produced record at the client boundary and on the broker")
p("C20","Keyed stores agree with their change log",
 "Replaying the change-log entries returned by a key-value store's put and delete operations, from any point and in order, into a fresh store yields the same contents as the original, and get returns the last value put and not deleted. A sharded tree always routes equal keys to the same shard and behaves as one ordered map per shard whose total length is the sum of the shards.",
 ["histories","inputs"],
 "all operation histories over all keys and values",
 "Agreement between store and log is a property of whole histories; the tests exercise one insertion.",
 [S+"stores/simple_store.go",S+"stores/sharded_tree.go"],
 "B-tree store emitting JSON or custom encoded entries.",
 "store contents and emitted entries after each operation")
p("C21","The priority queue always yields the true minimum and maximum",
 "After any sequence of pushes, updates, removals, peeks and pops at either end, the minimum and maximum the double-ended priority queue reports are the true extremes of the items held, peeking changes nothing observable, and popping from either end until empty yields the items in order, each exactly once.",
 ["histories","inputs"],
 "all operation sequences and priorities, with duplicates",
 "Heap corruption by one operation is only visible after a particular later one.",
 [S+"stores/min_max_heap.go"],
 "Array-based min-max heap with item index tracking and a lazily positioned maximum.",
 "results of every operation against a sorted reference model")
p("C22","Utility containers and run states keep their contracts under concurrency",
 "A pool never hands the same item to two borrowers at once, resets every returned item, and never keeps more than its size; halting a run state stops it and all its descendants and never its ancestors or siblings; the linked list agrees with a reference sequence after any operations, including those given elements of other lists. The numeric and slice helpers agree with their mathematical definitions.",
 ["schedules","histories","inputs"],
 "all operation sequences and all interleavings of concurrent borrowers and halts",
 "Double hand-out and reset races depend on interleaving; list integrity on the whole history.",
 [S+"sak/pool.go",S+"sak/context.go",S+"sak/yadll.go",S+"sak/util.go"],
 "Mutex-protected free list, context trees, ring-based list.",
 "borrow/release/halt events and list contents against models")
p("C23","Managed-cluster configuration connects to the right cluster with credentials",
 "For every authentication type, the cluster configuration yields the bootstrap addresses of the cluster whose name was given, for that authentication type, together with working credentials obtained from the configured provider, or an error when the cluster, its addresses or its credentials are unavailable. Errors are not remembered as success, and the configuration is the same on each later call.",
 ["inputs","configurations","fault_sequences"],
 "all authentication types, cluster listings (other clusters with similar names, several pages), and provider or service failures",
 "The tests look at one mocked listing and never authenticate.",
 ["msk/cluster.go"],
 "Looks the cluster up by name, picks the address list by authentication type, wires credential retrieval.",
 "service requests made, addresses dialled and credentials presented on the wire")
p("C24","Partitioning is manual when asked, key-consistent otherwise",
 "A record with an explicit partition is always sent to exactly that partition; a record without one is sent to the partition its key determines, the same one the canonical hash partitioner chooses, for every topic and partition count, and per-topic partitioners apply to their topics only.",
 ["inputs","configurations"],
 "all keys, partition counts, explicit partitions and per-topic overrides",
 "Only one key and topic are sampled by the test.",
 [S+"record.go",S+"topics.go"],
 "Wrapper choosing between manual and keyed partitioners per record.",
 "partition chosen, and partition of the record on the broker")
p("C25","Topics are created or resolved as configured, and conflicts are reported",
 "Creating a source yields existing topics unchanged and adopts their partition counts, or creates the missing source, commit-log and state topics with the configured partition counts, replication, a valid in-sync minimum and compaction exactly where state is kept; configurations which are incomplete (no group, topic or cluster) or inconsistent (an existing state topic whose partition count differs from the source topic's) return an error and never crash. Creating a destination creates its topic as configured, and deleting a source removes exactly its topics.",
 ["configurations","fault_sequences"],
 "all combinations of existing and missing topics, partition counts, replication settings, separate state clusters and broker errors",
 "The tests need a live broker for this and cover one path.",
 [S+"topics.go",S+"source.go"],
 "Admin client lists and creates topics; configuration defaults are derived.",
 "topic metadata and create/delete requests at the broker, returned errors")
p("C26","A global change log delivers every committed entry, in order, everywhere",
 "Every instance following a global change log receives every committed entry of all its partitions from the beginning, in order within each partition and exactly once while it runs uninterrupted, and no uncommitted or aborted one; pausing a partition stops its delivery and resuming at an offset continues from exactly that offset. A failing receiver does not stop later entries, and stopping ends delivery.",
 ["histories","schedules","fault_sequences"],
 "all log contents, transactions, pause and resume sequences and connection faults",
 "Requires a broker with transactions and concurrent writers.",
 [S+"global_change_log.go"],
 "Dedicated consumer assigned all partitions from the start.",
 "entries delivered versus the broker's committed log")
p("C27","Progress is tracked per group, topic and partition",
 "The position at which a partition is resumed is determined only by what was committed for the same consumer group, topic and partition, for any number of commit-log partitions and any number of source partitions. When ordinary offset commits are enabled for migration, the offset committed to the consumer group never exceeds the transactionally committed position of the partition.",
 ["configurations","histories","schedules"],
 "all partition counts, commit-log partition counts, groups and topics sharing a cluster, and fleets in migration",
 "Needs several applications over one cluster and several incarnations.",
 [S+"commit_log.go",S+"source_consumer.go",S+"eos_producer.go"],
 "Commit-log record keyed by topic and partition, spread over a fixed number of partitions.",
 "resume offsets, commit-log records, group offset commits at the broker")
p("C28","Stopping always terminates, releases the group and is signalled",
 "Stopping an application, gracefully or immediately, at any moment of its life (starting, loading state, processing, rebalancing, after failure, repeatedly, or from several goroutines) terminates within bounded time: done is signalled, the group is left, no handler runs afterwards, and remaining members own everything. A graceful stop first finishes the work in flight, so nothing accepted is repeated elsewhere.",
 ["schedules","histories","fault_sequences"],
 "all stop points relative to loading, rebalancing, interjections, asynchronous work and failures",
 "Deadlocks and panics on shutdown depend on what is blocked on which channel at that moment.",
 [S+"event_source.go",S+"source_consumer.go",S+"partition_worker.go",S+"state_store_consumer.go",S+"sak/context.go"],
 "Leave protocol, run-status halting, client close and done channel.",
 "done signal, group membership and handler activity in virtual time; absence of panics and stuck goroutines")
p("C29","No data races or invalid memory use under concurrent operation",
 "The library performs no unsynchronised conflicting memory accesses and no invalid pointer conversions in any supported use: concurrent events, asynchronous work, interjections, reconfiguration, rebalancing, failure and shutdown, provided that the application touches per-partition state only from that partition's callbacks.",
 ["schedules","histories"],
 "all interleavings of the library's goroutines under all workloads of the other properties",
 "A race is harmless in almost every run; only instrumented execution of hostile schedules sees it.",
 [S+"partition_worker.go",S+"eos_producer.go",S+"state_store_consumer.go",S+"async_scheduler.go",S+"async_batcher.go",S+"event_source.go",S+"event_context.go"],
 "Channels, mutexes, atomics and unsafe pointer tricks that avoid allocation.",
 "race-detector and pointer-check reports over the stress workloads")
p("C30","Metrics are accurate and never disturb processing",
 "Every committed transaction with records produces a metric whose record, byte and partition counts match the transaction, and every completed standby preparation one for its partition, unless the metrics buffer is full. A slow, blocked or stopped metrics consumer never blocks, delays or crashes event processing, and emitting metrics during or after shutdown is harmless.",
 ["schedules","fault_sequences","configurations"],
 "all speeds of the metrics handler, volumes of transactions, and emission at any time around shutdown",
 "Blocking and closed-channel failures need a full buffer or a shutdown race.",
 [S+"metric.go",S+"event_source.go",S+"eos_producer.go",S+"source_consumer.go"],
 "Buffered metrics channel drained by one goroutine.",
 "metrics delivered versus broker transactions; progress with a blocked handler")
out=os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))),"properties.jsonl")
with open(out,"w") as f:
    for x in P:
        assert len(x["title"])<=80,(x["id"],len(x["title"]))
        f.write(json.dumps(x)+"\n")
