#!/usr/bin/env python3
# Writes known_findings.json: one entry per repaired defect ("fixed" entries suppress nothing).
import json, os
F = """
7bac3e4 C18 encodings of LexoInt64Codec did not sort like the integers they encode (e.g. MinInt64, negative values)
e5b56c9 C18 integer codecs read past the end of short inputs (Decode of 0..7 bytes)
4ee558f C18 JsonCodec reported io.EOF for valid top level numbers
70b3b93 C20 SimpleStore.ReceiveChange ignored every change which was decoded successfully
6cb670c C21 MinMaxHeap: Max, Update, Remove and Push of some histories broke the order of the heap
fc23e1b C08 an item enqueued while the queue of its key ran empty was never processed, its worker polled forever
54e40dd C08 Schedule of a closed scheduler returned Complete for an item which is never processed
5839a83 C08 only one of several Schedule calls waiting for a free key returned on shutdown
d74dbd8 C08 SetMaxConcurrentKeys: shrink then grow loses or blocks keys; zero stops scheduling
03adb2e C09 callbacks of items without work came after those of later events; their key stayed assigned forever
dd9c54b C10 an event whose batch of records is empty, or whose callback is nil, never completes
630194e C05 partitions assigned by a balancer other than the incremental one: assignment fails on the missing incremental balancer
8108137 C17 OnPartitionActivated could precede OnPartitionAssigned
827b109 C06 a state store cancelled while it was bootstrapping was reused half filled; its cancellation raced
fea7bb8 C05 revoked partitions were given up while accepted events were still running (repeated by the next owner)
4ef61cb C16 produceCnt can skip MaxBatchSize, the transaction then grew without bound
4730aaf C29 data race on the counters of a producer node
173c1ea C30 a full metrics channel blocked commits; closing it panicked
ba173da C02 a transaction with failed records was committed without them
f9bb2f3 C17 OnPartitionAssigned called twice if the first offset fetch is interrupted
e056507 C11 Interject of a revoked partition never answered; asynchronous interjections ran once
76fbb07 C28 a stopping member could commit after it left the group; only one waiter of done was released
0400100 C28 partitions assigned before the EventSource was set up crashed it
249768e C25 topics were not created as configured; failures were not reported
384b129 C14 a decode error without a configured handler panicked
2ec2e36 C19 a record without key had an empty key or nil, depending on recycling
a2651dd C19 converting a record altered it or lost headers, topic, partition or type
292816a C27 progress of two topics shared one entry per partition; malformed commit log records were read past their end
6040b12 C13 a member did not release partitions it was told to forget
cf9da87 C13 a member reported partitions ready which were forgotten or assigned before
2bae376 C12 members about to close received partitions
5c45bbc C12 the state of several topics of a group was mixed up while balancing
84fd7f8 C08 completing asynchronous jobs blocked while a handler waited for a free worker (deadlock)
75fa9b4 C12 a group stayed unbalanced after unassigned partitions were distributed
eed737d C11 events and interjections ran in another order than their transactions (deadlock, changes recorded out of order)
1f7be5f C28 a second Stop interrupted leaving the group
882d976 C12 repeated assignments forced another rebalance, endlessly
a4afcb6 C06 a change log partition about to be prepared was paused for good
1c0c148 C05 partitions were kept after the membership was lost
aff6364 C28 a marker which could not be sent was never sent again: the partition was never activated
49d8cd7 C03 polled records were handed to the worker of a later assignment of the same partition (events skipped)
8d3b136 C25 topics which could not be deleted were not reported
579b63a C14 a decode error which is not to be ignored did not fail the consumer
1a333ba C23 the retrieved IAM credentials were not used; a missing provider crashed
025e64f C23 the cluster was matched by prefix, and only on the first page of the listing
00b8bba C29 the pending records of a transaction were reset while a late event produced
166781f C05 the fetched events of a revoked partition each queued for a producer: at slow commits the member was thrown out of the group
3088fcb C05 a group with a client which also supports eager strategies rebalanced endlessly
e8076ea C01 an eager client consumed partitions revoked while their offsets were determined (events skipped)
e3346fb C28 a member leaving incrementally waited forever if the group changed its protocol
""".strip().splitlines()
out = []
for l in F:
    c, p, w = l.split(' ', 2)
    out.append({"property": p, "status": "fixed", "commit": c, "what": f"fixed: property={p} {c} {w}"})
out.append({"property": "C28", "status": "known", "kind": "stop does not end|partitions are not owned by the remaining members",
    "detail": r"strategies of members \[\[3 2 0\] \[3 2\] \[2 3\]\]",
    "what": "a member leaving gracefully never finishes while the group balances incrementally and another member lists an eager strategy (e.g. [Incremental, CooperativeSticky, Range]): that member gives up its partitions in every rebalance, and nothing is scheduled to be moved while partitions are unassigned; reproduced by the e2e profile mixed with set=eager"})
json.dump(out, open(os.path.join(os.path.dirname(__file__), '..', 'known_findings.json'), 'w'), indent=1)
