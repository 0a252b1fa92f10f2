#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one source for the property texts)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, state, mech, observe, hook=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, state=[dict(name=s, meaning=s, where=files[0]) for s in state],
            mechanism=[dict(name=n, where=w) for n, w in mech],
            observe_at=observe, hook_needed=hook)))

Q='pkg/queue/badger_priority_queue.go'; QM='pkg/queue/queue_manager.go'; PQ='pkg/queue/priority_queue.go'
DQ='pkg/queue/delayed_priority_queue.go'; FQ='pkg/queue/fair_priority_queue.go'; FSM='pkg/raft/fsm.go'
CMD='pkg/raft/commands.go'; NODE='pkg/raft/node.go'; BS='pkg/badger-store/badger_store.go'
HM='pkg/http/messages.go'; HQ='pkg/http/queues.go'; HP='pkg/http/proxy.go'; HS='pkg/http/service.go'; SC='pkg/http/schemas.go'
GS='pkg/grpc/server.go'; GP='pkg/grpc/proxy.go'; ST='pkg/queue/queue_stats.go'; PM='pkg/queue/prometheus_metrics.go'
CF='pkg/config/config.go'; CL='pkg/cluster/cluster.go'; SD='pkg/cluster/service_discovery.go'; JO='pkg/cluster/jointer.go'
SEQ='every sequence of create, enqueue, dequeue (with and without acknowledgement), ack, nack, priority change, delete, and passage of time, on delayed and fair queues'
TESTS='The unit tests replay a handful of fixed sequences of three to five messages'

prop('C01','No accepted message is lost, duplicated or invented',
 'From the moment an enqueue succeeds until the message is acknowledged, dequeued with automatic acknowledgement, or its queue is deleted, the message stays in its queue in exactly one place: ready, or handed out and waiting for acknowledgement. A message is never handed out again while it is still held unacknowledged inside its timeout, is never handed out after it was acknowledged, and nothing is ever handed out that was not successfully enqueued in that queue. Whenever a queue holds a ready message that is due, a dequeue returns one instead of reporting an empty queue.',
 ['histories','inputs'], SEQ+', including enqueues that fail',
 TESTS+'; conservation is a statement about all interleavings of the seven operations and of timeout redelivery.',
 [Q,PQ,DQ,FQ],['ready heap(s)','unacknowledged heap','messages:<queue>:<id> keys'],
 [('enqueue persists before publishing in memory',Q+' Enqueue'),('dequeue moves or deletes',Q+' Dequeue'),('ack deletes',Q+' Ack'),('nack and monitor requeue',Q+' Nack, monitorAckQueue')],
 ['results of dequeue/ack/nack','queue info counts','stored message keys'])
prop('C02','Delayed queues hand out messages in priority order, oldest first on ties',
 'On a delayed queue a dequeue always returns, among the ready messages, one with the smallest current priority value, and among equal priorities the one that was enqueued first. This holds however the messages got there: enqueued, returned by nack, redelivered after a timeout, reprioritised, or reloaded from storage.',
 ['histories','inputs'], 'all multisets of priorities (including ties, negative-free full int64 range up to now) and all operation histories',
 TESTS+' with distinct priorities; heap bugs show only for particular shapes, ties and index bookkeeping after updates and removals.',
 [PQ,DQ,Q],['heap array and id index'],[('heap order',PQ+' Less/Swap/Push/Pop'),('update in place',PQ+' UpdatePriority'),('removal',PQ+' DeleteByID')],
 ['order of messages returned by dequeue'])
prop('C03','A message with a future delivery time is never handed out early, nor held late',
 'On a delayed queue a priority that lies in the future (unix seconds) is a delivery time: the message is not handed out before that second, and from that second on it is available to dequeue. Changing its priority moves the delivery time accordingly, in both directions, and a future message never blocks messages that are already due.',
 ['histories','inputs','schedules'],'all mixes of past and future priorities, priority changes and dequeue times',
 'The tests use one future message and real sleeps; the guarantee is about every (priority, time of dequeue) pair and its interplay with updates, nacks and redelivery.',
 [DQ,Q],['delayed heap'],[('future gate',DQ+' Dequeue')],['dequeue results against the clock'])
prop('C04','Fair queues serve groups round-robin and no group is bypassed or starved',
 'On a fair queue, while a group has a ready message waiting, every other group is served at most once before that group is served. Within a group messages come out by smallest current priority, oldest first on ties. This holds while groups appear, drain and reappear and messages are nacked, redelivered and reprioritised.',
 ['histories','inputs'],'all group populations and operation histories on fair queues',
 'The tests check two fixed enqueue patterns; fairness is a statement over all future schedules and depends on the cursor position when groups drain or join.',
 [FQ,PQ,Q],['linked list of groups','round-robin cursor','per-group heaps'],[('cursor advance',FQ+' Dequeue'),('group removal',FQ+' Remove/DeleteByID')],
 ['sequence of groups and ids returned by dequeue'])
prop('C05','Unacknowledged messages are redelivered after the timeout, not before',
 'A message dequeued without acknowledgement becomes ready again once its acknowledgement timeout has passed, at the latest one check interval (plus one second of rounding) later, and not more than one second before the timeout. This holds for every such message independently of what other messages are held, acknowledged, nacked or reprioritised meanwhile, each redelivery starts a fresh timeout, and a nack makes the message ready at once. The redelivered message carries its current priority, group and content.',
 ['histories','schedules','configurations'],'all timeouts, check intervals, dequeue times and interleavings with other operations',
 'Tests use one message, one timeout and real sleeps; starvation and early redelivery need several outstanding messages with different deadlines.',
 [Q,DQ,PQ],['unacknowledged heap keyed by deadline','monitor goroutine'],[('deadline set at dequeue',Q+' Dequeue'),('expiry scan',Q+' monitorAckQueue')],
 ['which messages are ready as (virtual) time advances'])
prop('C06','Ack, nack and priority change do exactly what they report',
 'Ack and nack succeed exactly for messages currently handed out and unacknowledged in that queue; a priority change succeeds exactly for messages that are in the queue (ready or unacknowledged). On success ack removes just that message for good, nack makes just that message ready again at once with its current priority, and a priority change alters just that message\'s priority and is what later dequeues report and order by; on failure nothing changes.',
 ['histories','inputs'],'all targets: ready, unacknowledged, acknowledged, redelivered, unknown, other queue\'s ids, deleted queue',
 'Tests settle one happy path and one unknown id per operation; exactness needs every state of the target and the untouched rest of the queue.',
 [Q,PQ,FQ,FSM],['both heaps','stored messages'],[('settlement',Q+' Ack/Nack/UpdatePriority')],['operation results, later dequeues, counts'])
prop('C07','Creating and deleting queues is exact and complete',
 'A created queue exists with its requested type until it is deleted; creating an existing queue changes nothing, and listing returns exactly the existing queues with their types, sorted by name. Deleting removes the queue with every message in it, ready or unacknowledged, also from storage: afterwards operations on it fail, and a queue re-created under that name is empty with the newly requested type, also after a reload. Deleting a queue that does not exist fails, and operations on unknown queues fail without creating anything.',
 ['histories','inputs','configurations'],'all create/delete/recreate histories with any number of messages in any state, with reloads in between',
 'Tests delete at most an empty queue in memory and never reload afterwards.',
 [QM,Q,FSM],['map of open queues','queues:<name>: and messages:<name>: keys'],[('create',QM+' Create'),('delete',Q+' Delete'),('load',QM+' LoadQueues')],
 ['queue list, errors, dequeues after recreate/reload, stored keys'])
prop('C08','Queues are isolated from each other whatever their names',
 'An operation on one queue never changes what any other queue delivers, counts or stores, for arbitrary distinct names - also when one name is a prefix of another or contains separator characters. This includes deletion, reload from storage and timeout redelivery.',
 ['inputs','histories'],'all sets of distinct names over an alphabet with separators, prefixes, unicode; all interleavings of operations on them',
 'Every test uses a single queue or two unrelated names.',
 [Q,QM],['key layout messages:<name>:<id>'],[('prefix iteration',Q+' Load/Delete'),('key building',Q+' GetMessagesKey')],
 ['per-queue deliveries and counts, reload, stored keys'])
prop('C09','Reopening the storage recovers exactly the unsettled messages',
 'When a queue store is reopened, after a clean close or after a crash at any point between operations, every queue comes back with its name and type, and holds exactly the messages that were enqueued and not yet removed, all ready, with content, group and current priority unchanged. Messages acknowledged or dequeued with automatic acknowledgement, and deleted queues, stay gone, and delivery order after the reload is the order the queue guarantees.',
 ['crash_points','histories'],'all operation histories, with a close or crash after any operation, repeatedly',
 'Tests reload once after a fixed handful of operations.',
 [QM,Q],['badger key space'],[('persist',Q+' Enqueue/Dequeue/Ack/UpdatePriority'),('reload',QM+' LoadQueues, '+Q+' Load')],
 ['queues, messages and order after reopen'])
prop('C10','A restarted node has lost nothing it acknowledged and revives nothing it removed',
 'After a node stops or is killed at any moment and is started again on the same data directory, every message whose enqueue was acknowledged and that was not removed is still deliverable with its content, group and latest acknowledged priority, exactly once, in the guaranteed order. Acknowledged, auto-acknowledged and deleted items stay gone, existing queues keep their type, messages that were unacknowledged may be held or ready again, and an operation that was in flight at the crash takes effect entirely or not at all.',
 ['crash_points','histories'],'all histories of acknowledged operations (without timeout redelivery), with kill or stop at any point, several restarts',
 'No test restarts a node.',
 [NODE,FSM,BS,Q,QM],['raft log, stable store and queue data in one database'],[('log replay into the queue store',FSM+' Apply'),('log store',BS)],
 ['node API after restart'])
prop('C11','Replicas that apply the same command log reach the same state and answers',
 'Applying the same sequence of commands gives the same response to each command and the same queue contents and order on every replica, whatever the local clock of the replica shows when it applies them and however many commands it applies at a time. This includes messages with future delivery times whose due time lies between the leader\'s and the replica\'s moment of applying, as long as no acknowledgement timeout expires.',
 ['histories','schedules'],'all command logs; all per-replica apply times; replay from the beginning after a restart',
 'Tests apply commands once on a single state machine.',
 [FSM,Q,DQ],['replicated state machine'],[('apply',FSM+' Apply'),('time used by the future gate',DQ+' Dequeue')],
 ['responses and final drained contents of independent replicas'])
prop('C12','A cluster keeps acknowledged messages across leader failure',
 'In a three-node cluster every operation acknowledged to a client survives the failure of any single node, including the leader: after a new leader is elected each acknowledged message is delivered exactly once with unchanged content, and acknowledged removals stay removed. The surviving nodes agree on queues and counts.',
 ['fault_sequences','histories'],'all workloads and moments of failing one node of three',
 'Tests start a single node.',
 [NODE,FSM,BS,CMD],['replicated log'],[('join',NODE+' Join'),('apply through raft',CMD)],['node API on survivors'])
prop('C13','The raft log store behaves as an indexed log',
 'After any sequence of storing single entries and batches, overwriting, range deletions (inclusive) and reopening the store, reading an index returns exactly the entry last stored there with all fields intact, deleted or never stored indices report not found, and the first and last index are those of the entries actually present (zero when empty).',
 ['histories','inputs','configurations'],'all sequences of store/overwrite/delete-range/reopen with any indices (1 to 2^63) and entry contents, ranges of any size',
 'Tests delete ranges of at most a few entries, all within one internal batch.',
 [BS,'pkg/badger-store/utils.go'],['logs key range'],[('batched range deletion',BS+' DeleteRange'),('boundary indices',BS+' FirstIndex/LastIndex')],['log store API'])
prop('C14','Raft metadata, log entries and queue data share one store without interference',
 'A key-value pair written to the stable store is read back exactly, also as a 64-bit number, until overwritten, and unset keys report not found; values survive reopening. Raft metadata, log entries and queue data live in one database and no operation on one of them - log truncation, key writes, queue operations, deletion or reload - changes what the others return.',
 ['histories','inputs'],'all interleavings of stable-store, log-store and queue operations on one database; arbitrary keys and values',
 'Tests exercise each store alone on its own database.',
 [BS,Q,QM],['key prefixes logs, conf, queues:, messages:'],[('prefixes',BS+' Set/Get/DeleteRange'),('prefix iteration',Q+' Load/Delete')],['stable store, log store and queue APIs'])
prop('C15','HTTP and gRPC round-trip messages and report outcomes truthfully',
 'Whatever content and priority a client enqueues over HTTP or gRPC is exactly what a dequeue over either of the two interfaces returns, with the id that enqueue reported; the group is preserved on fair queues (a missing one over HTTP means "default") and is "default" on delayed queues. Every ack, nack, priority change, queue creation and deletion is reported as success exactly when it took effect, and queue listings and queue info show the true names, types and counts. The acknowledgement choice of a dequeue is honoured by both interfaces.',
 ['inputs','histories'],'all unicode contents, groups, int64 priorities, ids, and all mixes of HTTP and gRPC calls',
 'Tests send a few ASCII bodies to a stub node.',
 [HM,HQ,SC,HS,GS,CMD,FSM],['request and response mapping'],[('HTTP handlers',HM+', '+HQ),('gRPC handlers',GS),('command encoding',CMD)],['HTTP and gRPC responses'])
prop('C16','A request sent to a follower has the effect and answer of asking the leader',
 'Any request that changes a queue (create, delete, enqueue, dequeue, ack, nack, priority) that a follower receives over HTTP or unary gRPC is executed exactly once by the current leader, on the same queue, id, group, priority, content and acknowledgement flag, and the follower returns the leader\'s answer; listings and queue info are answered locally. When the leader reports failure the follower reports failure, and when the leader cannot be reached the follower reports failure too.',
 ['inputs','histories','fault_sequences'],'all request kinds, parameters and leader outcomes, leader changes between requests',
 'Tests forward one fixed request of each kind to a stub.',
 [HP,GP,HM,HQ,GS],['forwarding clients'],[('HTTP proxy',HP),('gRPC proxy',GP)],['requests seen by the leader and the follower\'s response'])
prop('C17','Queue statistics equal the true message counts and operation rates',
 'At every moment queue info reports as ready, unacknowledged and total exactly the numbers of ready, handed-out and all messages of the queue. The reported enqueue, dequeue, ack and nack rates equal the number of successful operations of that kind in the last full window of seconds divided by the window length (a configured window below one second counts as one second); failed operations and redeliveries do not count.',
 ['histories','schedules','configurations'],'all operation histories, idle periods and window lengths',
 'Tests read the counts after one fixed sequence and never let the window slide.',
 [Q,ST,FQ,DQ,QM],['message counters','ring of per-second counts'],[('window update',ST+' UpdateWindow'),('counts',Q+' GetStats')],['queue info'])
prop('C18','Prometheus metrics track every queue exactly',
 'With metrics enabled, for each queue the enqueue, dequeue, ack and nack totals equal the numbers of successful operations that the process has executed since it started, and after each operation the messages, ready and unacknowledged gauges equal the true counts, also after timeout redelivery, reload, and deletion of the queue (when they read zero or are absent). Queues never affect each other\'s series, and with metrics disabled all operations work the same.',
 ['histories','configurations'],'all operation histories over several queues',
 'No test reads a metric value.',
 [PM,Q],['counter and gauge vectors by queue name'],[('metric updates',Q+' updatePrometheusQueueSizes and callers')],['gathered metric families'])
prop('C19','Message ids are unique and increase in enqueue order',
 'Every message accepted by the cluster gets an id different from the id of every other message accepted before, however fast or concurrently clients enqueue, and for enqueues made one after another through the same node ids increase. Nodes that join a cluster one after another generate ids from different generator numbers so that ids stay unique when leadership moves, and a restart does not cause reuse.',
 ['schedules','histories','configurations'],'all concurrent enqueue schedules; all cluster memberships; restarts',
 'Tests generate one id per node.',
 [NODE,CMD],['snowflake generator'],[('generator number from membership',NODE+' InitIDGenerator'),('id per enqueue',CMD+' Enqueue')],['ids returned by enqueue'])
prop('C20','Streaming consumers receive each message exactly once',
 'While any number of consumers stream from a queue and producers enqueue singly or by stream, every enqueued message reaches exactly one consumer, with its id, group, priority and content intact, also when the messages were in the queue before the consumer connected, when consumers come and go between messages, and when the consumers acknowledge manually. A stream producer gets one response per request, in request order, describing that message; streams of different queues never mix.',
 ['schedules','histories'],'all numbers of consumers and producers, backlog sizes, arrival schedules, acknowledgement modes, queues',
 'Tests stream a few messages to one consumer.',
 [GS],['consumer registry','per-consumer notification channels'],[('notification',GS+' broadcastMessage'),('consumer loop',GS+' DequeueStream'),('producer loop',GS+' EnqueueStream')],['messages received on streams'])
prop('C21','Malformed or invalid input is rejected without crash and without effect',
 'No byte sequence offered as a replicated command, HTTP request or gRPC request makes a node panic, hang or change any queue unless it is a valid request: undecodable commands, unknown operations, wrong types, negative priorities or unknown queue types over HTTP, bad ids, and operations on unknown queues are answered with an error. After any such input the node continues to serve all queues correctly.',
 ['inputs'],'all byte strings and all structurally mutated commands and requests',
 'Tests send well-formed requests and two or three invalid ones.',
 [FSM,HS,SC,HM,HQ,GS],['command decoding','request validation'],[('command decoding',FSM+' UnmarshalJSON/Apply'),('schema validation',SC)],['responses and queue state afterwards'])
prop('C22','Every configuration option takes effect with flag over file over default',
 'For every documented option the effective configuration is the command-line flag when given, otherwise the value in the configuration file (the one named by --config, or config.yaml in the working directory), otherwise the documented default, with its type and unit preserved. Options never influence each other.',
 ['configurations'],'all subsets of options set by flag and/or file, with arbitrary values',
 'No test loads a configuration.',
 [CF,'cmd/server/main.go'],['viper bindings'],[('flag binding',CF+' InitCobraCommand'),('decoding',CF+' LoadConfig')],['loaded configuration'])
prop('C23','Discovery finds exactly self and peers, and the leader owns the endpoint',
 'From the service records a node identifies as itself exactly the record of its own hostname, and all other records, each exactly once, as peers, also when one hostname is a prefix of another; its raft address is its own host with the raft port. Whenever a node becomes leader the service endpoint slice afterwards contains exactly that node\'s current address with the HTTP port, whether or not a slice existed before, and losing leadership leaves the slice unchanged.',
 ['inputs','configurations','histories'],'all sets of hostnames, domains and ports in any order; all sequences of leadership changes',
 'Tests use three nodes with equal-length names and one leadership change.',
 [CL,SD],['discovered addresses','endpoint slice object'],[('self identification',CL+' Init'),('endpoint update',CL+' UpdateServiceEndpointSlice'),('record formatting',SD+' Lookup')],['node id, hosts, raft address, stored endpoint slices'])
prop('C24','Joining a cluster is complete, idempotent and tries every host',
 'A joining node offers its id and raft address to each configured host in turn and succeeds as soon as one accepts; it reports failure only after every host has refused in every round, and with no hosts it does nothing. On the leader a join makes the cluster contain that id at that address exactly once, as a voting member: repeating it changes nothing, and a known id with a new address, or a known address under a new id, replaces the old member and no other.',
 ['fault_sequences','histories','configurations'],'all patterns of hosts refusing, failing or accepting; all sequences of join requests',
 'Tests cover one accepting and one refusing host.',
 [JO,NODE,'pkg/http/cluster.go'],['cluster membership'],[('retry loop',JO+' Join'),('membership change',NODE+' Join')],['requests received by hosts, raft configuration'])
prop('C25','Concurrent clients and background redelivery never corrupt a queue',
 'When many clients enqueue, dequeue, ack, nack and reprioritise on the same queues at the same time while timed-out messages are being redelivered and statistics are read, no operation panics or deadlocks, and every message still ends up delivered and settled exactly once: each successful ack removes exactly one message, nothing is lost, no message is ready twice, and after everything is settled the queues are empty with all counts zero.',
 ['schedules'],'all interleavings of concurrent operations with the redelivery scan',
 'Tests are single-threaded.',
 [Q,QM,DQ,FQ,FSM],['heaps shared by operations and the redelivery goroutine'],[('locking',Q),('redelivery scan',Q+' monitorAckQueue')],['results of concurrent operations, final counts and stored keys'])
out=os.path.join(os.path.dirname(__file__),'..','properties.jsonl')
with open(out,'w') as f:
    for p in P:
        assert len(p['title'])<=80,(p['id'],len(p['title']))
        f.write(json.dumps(p)+'\n')
print(len(P))
