NW = I + "network.h"
prop("P09", "Two peers settle on one common connection",
 "When two nodes know each other and at least one keeps dialling the other, then once nothing disturbs them they end up, within a bounded time, with exactly one connection which both regard as the connection to the other, however their dials, accepts and handshake messages interleave. Once settled, that connection is kept.",
 ["schedules", "histories", "fault_sequences"], "all interleavings of simultaneous dials and handshakes of the two sides, equal and unequal nonces, any order of registration, addressing and dialling calls, restarts of attempts, lost connections",
 "Which connection survives depends on random nonces and on the order in which four handshake messages and two teardowns are processed; the tests see a few of these orders.",
 [NW], ["handshake nonce", "chosen connection", "inbound and outbound candidate", "state of a peer"],
 [("choice by nonce", NW + " PeerNetwork::ping_handler, pong_handler"), ("take over", NW + " PeerNetwork::finish_handshake"), ("superseded candidates", NW + " PeerNetwork::replace_pending_conn, start_active_conn")],
 ["peer callback on both sides", "get_peer_conn"], TV, NOTE % "PeerObs.tla")
prop("P10", "Peer notifications are paired and name the right peer",
 "For each peer the user is told alternately that it is up and that it is down, each connection is reported up at most once and its end is always reported unless the peer was removed, and only a registered peer is reported up. While nothing changes, get_peer_conn returns the connection reported up last (a terminated one when the peer is down), and that connection names the peer it was reported for.",
 ["schedules", "histories"], "all interleavings of handshakes, preemptions by a new inbound connection, terminations, address changes and removals",
 "The tests look at the callbacks of a few undisturbed connections.",
 [NW], ["connection of a peer", "peer of a connection"],
 [("up", NW + " PeerNetwork::finish_handshake"), ("down", NW + " PeerNetwork::on_dispatcher_teardown"), ("lookup", NW + " PeerNetwork::get_peer_conn")],
 ["peer callback", "get_peer_conn", "Conn::get_peer_id"], TV, NOTE % "PeerObs.tla")
prop("P11", "A peer is dialled as often and as fast as requested",
 "conn_peer(ntry, delay) makes at most ntry attempts in a row (without end if negative, none if zero), waits at least the delay between them, and keeps trying until that number is used up or the peer is connected. A lost connection is replaced under the same policy, with the number of attempts starting afresh after each success (the loss itself counts as one).",
 ["histories", "fault_sequences", "configurations"], "all sequences of failures, successes, losses, policy changes and address changes; all values of ntry and delay",
 "The retry test waits for one reconnection with one policy.",
 [NW], ["remaining attempts", "retry timer"],
 [("retry", NW + " PeerNetwork::on_dispatcher_teardown, start_active_conn"), ("policy", NW + " PeerNetwork::conn_peer")],
 ["connection attempts seen by the remote", "connection and peer callbacks"], TV, NOTE % "PeerObs.tla")
prop("P12", "Heartbeats keep a live peer and drop a silent one",
 "On every peer connection a heartbeat is sent about once per ping period and every heartbeat received is answered. A peer that stops answering is reported down after the connection timeout and no earlier, whether it is silent, stopped reading or gone; a peer that answers is never dropped, however quiet or busy the application is; and a connection over which no handshake comes is dropped as well.",
 ["schedules", "fault_sequences", "configurations"], "all moments at which a remote stops answering, reading or writing; all ping periods and timeouts; any message traffic in between",
 "No test runs long enough with a silent remote for a timeout to be due.",
 [NW, I + "conn.h"], ["ping timer", "outstanding heartbeat", "connection timeout"],
 [("heartbeat", NW + " PeerNetwork::Peer::send_ping, ping_timer, pong_handler"), ("timeout", I + "conn.h ConnPool::Worker, tcall_reset_timeout")],
 ["heartbeats seen by the remote", "peer callback"], TV, NOTE % "PeerObs.tla")
prop("P13", "Only registered peers get through",
 "add_peer, del_peer, set_peer_addr and conn_peer take effect in the order they are called, and has_peer, get_peer_conn and send_msg agree with the resulting set of peers. A node that is not registered is never reported as a peer, its handshake is announced through the unknown-peer callback and its connection is closed; a removed peer's connection is closed and the peer can be registered again, and no order of these calls brings the process down.",
 ["histories", "schedules", "inputs"], "all sequences of membership and address calls, at any moment of a handshake, with honest and hostile remotes",
 "The tests register all peers once at the start.",
 [NW], ["table of known peers", "address of a peer", "pending connections"],
 [("membership", NW + " PeerNetwork::add_peer, del_peer, set_peer_addr"), ("unknown peers", NW + " PeerNetwork::ping_handler")],
 ["has_peer, get_peer_conn, send_msg", "unknown-peer callback", "peer callback"], TV, NOTE % "PeerObs.tla")
prop("P14", "Messages to a peer survive reconnections",
 "A message accepted for a registered peer waits while the peer is not connected and is sent once it is: it reaches that peer and no other, at most once, unmodified, and what one thread sends to one peer is put on the wire in order. When a connection is lost, only messages already (partly) written on it may be missing; the others go over the next connection, which never starts in the middle of a message.",
 ["schedules", "histories", "fault_sequences"], "all interleavings of sending threads with the loss and the replacement of a connection, at any byte of the stream",
 "The tests never compare what was sent across a reconnection with what arrived.",
 [NW, I + "conn.h", "src/conn.cpp", I + "buffer.h"], ["send buffer of the old and the new connection"],
 [("carrying over unsent messages", NW + " PeerNetwork::finish_handshake"), ("sending by peer id", NW + " PeerNetwork::_send_msg"), ("partial writes", "src/conn.cpp Conn::_send_data")],
 ["messages at the receiving peer", "bytes on the wire"], TV, NOTE % "PeerObs.tla")
prop("P20", "Asynchronous failures are reported once, by their id",
 "Every asynchronous peer call returns an id of its own; a call that fails (peer unknown or already there, address missing, connection not ready, send buffer full) is reported exactly once through the error callback with that id and the documented error code, and a call that succeeds is never reported. A multicast reaches every listed peer exactly once when all are registered, and no asynchronous failure is fatal to the network.",
 ["histories", "schedules"], "all sequences of failing and succeeding calls on any membership, racing with handshakes and reconnections",
 "The tests install an error callback but never provoke most of the errors.",
 [NW, I + "conn.h"], ["async call id", "error callback"],
 [("reporting", I + "conn.h ConnPool::recoverable_error"), ("deferred sends", NW + " PeerNetwork::_send_msg_deferred, _multicast_msg")],
 ["error callback", "messages at the receiving peers"], TV, NOTE % "PeerObs.tla")
prop("P19", "A client is reached by its address, and only that client",
 "On a client network, a message sent to an address goes to the client currently connected from it and to nobody else, at most once and in order, from any thread and however clients come, go and come back from the same address. Sending to an address without a connection fails with the documented error (as an exception, or reported once by id for a deferred send); while a client stays connected, sending to it never fails for that reason and everything accepted arrives.",
 ["schedules", "histories"], "all interleavings of sends from any thread with clients that connect, disconnect, are terminated and return from the same address",
 "No test uses the client network under changing connections.",
 [NW], ["table of clients by address"],
 [("table", NW + " ClientNetwork::on_dispatcher_setup, on_dispatcher_teardown"), ("lookup", NW + " ClientNetwork::_send_msg, _send_msg_deferred")],
 ["messages seen by clients", "return value, exception or error callback of a send"], TV, NOTE % "ClientObs.tla")
QU = I + "queue.h"; EV = I + "event.h"; RF = I + "ref.h"
prop("P15", "The queues are linearizable FIFO queues",
 "Whatever threads do concurrently, every history of an MPMCQueue or MPSCQueue is that of a sequential FIFO queue in which each operation takes effect between its call and its return: no element is lost, duplicated, altered or overtaken, dequeuing fails only on an empty queue, and an element put back with rewind is the next one out. A bounded queue never holds more than its blocks allow, and refuses an element only when no further block is free.",
 ["schedules", "histories", "configurations"], "all interleavings of any number of producers and consumers at every atomic step, including blocks that are emptied, recycled and reused while an operation is under way",
 "The queue tests run a few producers against real threads and count elements; the windows between two atomic instructions are practically never hit, and order is not checked.",
 [QU], ["chain of blocks", "free list", "reference count and flags of a block"],
 [("enqueue", QU + " MPMCQueue::_enqueue"), ("dequeue", QU + " MPMCQueue::try_dequeue, MPSCQueue::try_dequeue"), ("put back", QU + " MPSCQueue::rewind"), ("recycling", QU + " FreeList")],
 ["return values and elements of enqueue, try_dequeue, rewind"], "TLA+ specification of a sequential queue; TLC searches a linearization of every history recorded from the real code under a deterministic scheduler", NOTE % "QueueObs.tla" + " The block size is reduced (in a copy of the header) so that short histories cross block boundaries; a share of the histories uses the real size.")
prop("P16", "An event-driven queue never leaves an element behind",
 "Every element put in an event-driven queue is taken by its handler exactly once, on the thread of the event loop the handler is registered with, and each producer's elements are taken in order (with several loops: in order at each loop). Whenever producers and loops come to rest the queue is empty: no wake-up is ever lost, whatever the handler's burst size and however enqueuing, waking and handling interleave.",
 ["schedules", "configurations"], "all interleavings of producers with the notification and handling of the event loops, all burst sizes, one or several loops",
 "A lost wake-up needs an enqueue at one exact point of the consumer's wake-up sequence; the tests keep producing, which hides it.",
 [EV, QU], ["wait flag", "notification descriptor"],
 [("notification", EV + " MPSCQueueEventDriven, MPMCQueueEventDriven enqueue and reg_handler"), ("descriptor", EV + " NotifyFd")],
 ["elements seen by the handler and the thread it runs on"], TV, NOTE % "EvQueueObs.tla")
prop("P17", "A cross-thread call runs once, in order, on its loop",
 "A closure handed to a ThreadCall runs exactly once, on the event loop's thread, never overlapping another one there, in the order the calls were made, and is destroyed afterwards. A synchronous call returns exactly what its closure produced, or throws what it threw; a throwing asynchronous closure harms nothing; after stop() nothing is run any more, synchronous calls fail with the documented error, and closures still waiting are released with the ThreadCall.",
 ["schedules", "histories"], "all interleavings of calling threads with one or several loops, nested calls, stops, any burst size, calls made before, during and after the life of the loop",
 "The tests only use it implicitly and never with racing, failing or late calls.",
 [EV, "src/event.cpp"], ["queue of closures", "stopped flag", "result of a synchronous call"],
 [("execution", EV + " ThreadCall::ThreadCall, Handle::exec"), ("results", EV + " ThreadCall::call, Result, ThreadNotifier"), ("release", EV + " ThreadCall::~ThreadCall")],
 ["executions of closures and the thread they run on", "results and exceptions", "destruction of closures"], TV, NOTE % "TCallObs.tla")
prop("P18", "A shared object lives exactly as long as its owners",
 "An object held by ArcObj or RcObj handles is destroyed exactly once, when its last strong handle goes and not earlier, whatever copies, moves, casts, swaps and assignments happened; handles of different threads may be used concurrently. A weak handle yields a strong one exactly while the object is still owned, a BoxObj has one owner at a time, the reported count is the number of strong handles, and when all handles are gone no memory is left.",
 ["schedules", "histories"], "all interleavings of copying, dropping and upgrading handles of the same object in several threads, all sequences of handle operations in one",
 "The unit test drops handles in one thread in one order; the races between the last drop and an upgrade need an exact interleaving.",
 [RF], ["strong and weak count", "control block"],
 [("counting", RF + " _RCCtl, _ARCCtl"), ("handles", RF + " _RcObjBase, _WeakObjBase, _BoxObj, static_pointer_cast")],
 ["destruction of the object", "success of an upgrade", "memory left"], TV, NOTE % "RefObs.tla")
ST = I + "stream.h"; BF = I + "buffer.h"; MS = I + "msg.h"; UT = I + "util.h"; NA = I + "netaddr.h"
prop("P22", "What is encoded is decoded unchanged, and short input is refused",
 "A byte stream yields exactly the bytes put in, in order, whatever mix of typed and raw reads, writes, copies, moves and conversions is applied; a read beyond the end fails and takes nothing. Blobs, bit sets, hash lists, addresses, hex text, digests and message frames survive a round trip unchanged, malformed or truncated input is refused with an exception (never a crash, a wild read, or memory out of proportion to the input), and a segmented buffer returns exactly the pushed bytes not yet popped. The C interface gives the same results.",
 ["inputs", "histories"], "all byte strings, all sequences of stream, blob, bit set, frame and buffer operations, through the C++ and the C interface",
 "The tests encode one or two fixed values; boundary lengths, hostile lengths and reads after failures are not sampled.",
 [ST, "src/stream.cpp", BF, MS, I + "crypto.h"], ["bytes of a stream and read position", "words of a bit set", "segments of a buffer"],
 [("streams", ST + " DataStream; src/stream.cpp"), ("blobs and bit sets", ST + " Blob, _Bits"), ("frames and lists", MS + " MsgBase"), ("buffers", BF + " SegBuffer"), ("digests", I + "crypto.h SHA1, SHA256")],
 ["results of every operation"], TV, NOTE % "CodecObs.tla")
prop("P23", "Options and addresses are read as written, or rejected",
 "The value of every option is the one given last, reading the default file, then the command line from left to right (a further file is read where it is named); files accept exactly the 'name = value' syntax and ignore unknown names, list options collect all values in order, and the command line follows the usual long and short option syntax. A malformed or out-of-range number, address, option or overlong line is rejected with the documented error, leaking nothing; formatted, split, trimmed and logged text is complete and unaltered whatever its length.",
 ["inputs", "configurations"], "all command lines, configuration files, addresses and texts",
 "The test programs use a handful of fixed options; the syntax corners, the numeric limits and the length limits are not sampled.",
 [UT, "src/util.cpp", NA, "src/netaddr.cpp"], ["registered options and their values"],
 [("options", "src/util.cpp Config::add_opt, load, parse; " + UT + " OptVal*"), ("addresses", NA + " NetAddr"), ("text", "src/util.cpp vstringprintf, split, trim, Logger")],
 ["option values, index of the first argument that is no option", "error codes", "address and port"], TV, NOTE % "ConfObs.tla")
prop("P24", "An event object calls its own callback exactly when armed",
 "A timer calls its callback once per arming, not before its delay and not after being disarmed, cleared, destroyed or re-armed; a descriptor event calls its callback only while armed and only for a readiness it asked for, and none is left unseen; with a timeout, every activity restarts the timeout, and its expiry is reported once and disarms the event; signal and check events likewise. Moving, swapping or assigning event objects carries arming and callback along and leaves nothing else behind, also from within callbacks, and no handle survives the objects.",
 ["histories", "schedules"], "all sequences of operations on event objects of every kind, at all times relative to expiries and readiness, from inside and outside callbacks",
 "No test exercises the event classes on their own; a callback bound to a moved-from object or a timeout that is not restarted shows only for particular sequences.",
 [EV, "src/event.cpp"], ["handle, arming, callback and timeout of an event object"],
 [("timers", EV + " TimerEvent"), ("descriptors", EV + " FdEvent, TimedFdEvent"), ("signals, checks", EV + " SigEvent, CheckEvent"), ("C interface", "src/event.cpp timerev_*, sigev_*")],
 ["callbacks and their time, descriptor, readiness"], TV, NOTE % "EventObs.tla")
