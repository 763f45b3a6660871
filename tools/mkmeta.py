#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json (the single source of both)."""
import json, os, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
I = "include/salticidae/"
P = []
def prop(id, title, statement, over, text, why, files, state, mech, observe, technique, note):
    P.append((dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, state=[dict(name=x, meaning=x, where=files[0]) for x in state], mechanism=[dict(name=a, where=b) for a, b in mech], observe_at=observe, hook_needed=None)), technique, note))
TV = "TLA+ observable specification; traces recorded from the real code under a deterministic scheduler validated by TLC"
NOTE = "Every recorded trace of the real code is judged by TLC against spec/%s; scenarios and schedules are generated from the seed, so the claim is exhaustive on the design models and sampled on the code."

prop("P01", "Messages arrive exactly once, in order and unmodified",
 "While a connection stays up, every message accepted for sending on it is handed to the handler registered for its type at the other end exactly once, with the same bytes, and the messages one thread sends on one connection arrive in the order they were sent. This holds with and without TLS, for any segmentation of the byte stream and any buffer settings, and a connection never goes down unless something (a terminate request, a network failure, a stop, a refusal) caused it.",
 ["schedules", "inputs", "configurations"], "all interleavings of the sending threads, worker threads and the user loop; all message sizes, segmentations, chunk and buffer sizes",
 "The tests send a handful of messages over loopback with one timing; partial writes, full buffers and short reads almost never occur there.",
 ["src/conn.cpp", I + "network.h", I + "msg.h", I + "buffer.h", I + "crypto.h"], ["send queue", "receive buffer", "parser state of each connection"],
 [("byte stream to messages", I + "network.h MsgNetwork::on_read"), ("partial writes", "src/conn.cpp Conn::_send_data, _send_data_tls"), ("receive buffer limit", "src/conn.cpp Conn::_recv_data, _recv_data_tls")],
 ["registered message handlers", "return value of send_msg"], TV, NOTE % "MsgObs.tla")
prop("P02", "Malformed input never harms anything but its own connection",
 "Whatever bytes a remote sends, the process neither crashes nor hangs, no corrupted message is delivered, and other connections keep working. A message whose checksum does not match, or whose type is unknown, is dropped and the messages behind it are still delivered; an oversized or undecodable message ends that connection, and nothing received behind an oversized one is delivered.",
 ["inputs", "schedules"], "all byte sequences and segmentations from a hostile remote, in every state of the receiver including back-pressure",
 "No test sends anything malformed.",
 [I + "network.h", I + "msg.h", "src/conn.cpp"], ["parser state", "receive buffer"],
 [("header and checksum checks", I + "network.h MsgNetwork::on_read"), ("decode errors", I + "network.h MsgNetwork::reg_handler")],
 ["registered handlers", "connection callbacks", "process liveness"], TV, NOTE % "MsgObs.tla")
prop("P03", "A slow consumer loses nothing and memory stays bounded",
 "While the user's event loop is busy, received messages wait in bounded buffers: no more data is taken from a connection than the configured message queue and receive buffer hold. Once the loop runs again everything that was sent is delivered, in order and without loss or duplication.",
 ["schedules", "configurations", "histories"], "all lengths and moments of a stall of the user loop, queue sizes, receive buffer sizes and sender behaviours",
 "The one back-pressure test uses a single configuration and only checks that it does not crash.",
 [I + "network.h", "src/conn.cpp", I + "queue.h"], ["incoming message queue", "receive buffer", "paused state of a connection"],
 [("retry of a full queue", I + "network.h MsgNetwork::on_worker_setup"), ("masking of READ", "src/conn.cpp Conn::_recv_data")],
 ["bytes consumed from the remote", "registered handlers"], TV, NOTE % "MsgObs.tla")
prop("P04", "A full send buffer rejects a message cleanly",
 "With a bounded send buffer, sending reports failure only when at least the configured amount is waiting (less one queue block for each other thread that is sending on the connection at that moment), and a connection whose remote does not read never accepts more than the bound. A message reported as not sent is never delivered, one reported as sent is delivered in order, and sending works again as soon as the remote reads.",
 ["schedules", "configurations", "histories"], "all buffer sizes, all patterns of a remote that stops and resumes reading, concurrent senders",
 "The tests leave the send buffer unbounded.",
 [I + "conn.h", I + "buffer.h", I + "queue.h", "src/conn.cpp"], ["send queue of a connection"],
 [("bounded enqueue", I + "queue.h MPMCQueue::_enqueue"), ("write", I + "conn.h Conn::write")],
 ["return value of send_msg", "messages seen by the remote"], TV, NOTE % "MsgObs.tla")
prop("P05", "Connection notifications are paired and connections do not leak",
 "For each connection the user is told at most once that it is up and at most once that it is down, up comes before down, and no message is delivered before the up notification has returned. Every connection that is terminated, closed or reset by the remote, or refused, is reported down, its descriptor is closed exactly once, and no connection goes down without a cause.",
 ["schedules", "histories", "fault_sequences"], "all interleavings of connects, accepts, terminations from any thread, remote closes and resets",
 "The tests set up a connection and tear it down a few times in one fixed order.",
 ["src/conn.cpp", I + "conn.h"], ["pool of connections", "terminated flag"],
 [("termination", "src/conn.cpp worker_terminate, disp_terminate, del_conn"), ("notification", I + "conn.h ConnPool::update_conn")],
 ["connection callback", "open descriptors"], TV, NOTE % "MsgObs.tla")
prop("P06", "Every connection attempt is resolved exactly once",
 "Each connect request ends in exactly one outcome: an up notification, a down notification for that attempt, or an error carrying the request's id (an exception for the synchronous form). A listener that answers within the timeout is always reached, and an unreachable, silent or refusing destination is reported within the configured connection timeout. (A TLS remote that accepts the TCP connection and then stays silent is out of scope: no handshake timeout is offered.)",
 ["fault_sequences", "schedules", "configurations"], "all destinations (listening, refusing, unreachable, silent), descriptor exhaustion, terminations racing with the attempt, timeouts",
 "The tests only connect to listeners that exist.",
 ["src/conn.cpp", I + "conn.h", I + "event.h"], ["pending connection attempts"],
 [("attempt and timeout", "src/conn.cpp ConnPool::_connect, conn_server")],
 ["connection callback", "error callback", "connect_sync"], TV, NOTE % "MsgObs.tla")
prop("P07", "TLS admits only certified peers and nothing leaks in clear",
 "With TLS on, a connection is reported up only after a completed handshake, and the certificate it shows is the one the remote presented; a remote that speaks no TLS or shows no certificate is never reported up. Every byte sent on such a connection belongs to a TLS record, no message is exchanged on a connection the user's callback refused and that connection ends, and a certificate with a foreign private key is rejected at construction.",
 ["inputs", "schedules", "configurations"], "all remotes (honest, anonymous, plaintext, with any certificate), all accept/refuse decisions and interleavings",
 "The TLS tests only use two honest parties with matching keys.",
 [I + "crypto.h", I + "conn.h", "src/conn.cpp", "src/crypto.cpp"], ["handshake state", "peer certificate"],
 [("handshake", "src/conn.cpp Conn::_recv_data_tls_handshake"), ("admission", I + "conn.h ConnPool::update_conn")],
 ["connection callback", "get_peer_cert", "bytes on the wire"], TV, NOTE % "MsgObs.tla")
prop("P08", "All callbacks run one at a time on the user's event loop",
 "Every callback (connection, error, message, peer, unknown peer) is invoked by the thread that runs the user's event loop, never while another callback of the same network is running.",
 ["schedules", "configurations"], "all interleavings of worker threads, calling threads and the user loop; any number of workers",
 "The tests do not look at the thread their callbacks run on.",
 [I + "conn.h", I + "network.h", I + "event.h"], ["user thread call queue", "incoming message queue"],
 [("forwarding to the user loop", I + "conn.h recoverable_error, update_conn"), ("message dispatch", I + "network.h MsgNetwork::MsgNetwork")],
 ["thread identity inside callbacks"], TV, NOTE % "MsgObs.tla")
prop("P21", "Stopping and destroying a network is clean at any moment",
 "Stop and destruction return at any moment of a network's life without deadlock or crash, whatever connections, attempts and queued work exist. After a stop called on the user loop no further message is handled, after destruction no callback runs, and every descriptor, event handle and connection object has been released.",
 ["crash_points", "schedules", "histories"], "all moments at which stop or destruction begins, all interleavings with traffic, connects, accepts and peers",
 "The tests stop when everything is idle and do not look at what is left behind.",
 [I + "conn.h", I + "network.h", I + "event.h"], ["worker threads", "pool of connections", "thread call queues"],
 [("stop", I + "conn.h ConnPool::stop_workers"), ("destructors", I + "network.h ~MsgNetwork, ~PeerNetwork")],
 ["return of stop()", "open descriptors and handles", "callbacks"], TV, NOTE % "MsgObs.tla")
exec(open(os.path.join(ROOT, "tools", "meta2.py")).read()) if os.path.exists(os.path.join(ROOT, "tools", "meta2.py")) else None
P.sort(key=lambda x: x[0]["id"])
with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
    for p, _, _ in P:
        assert len(p["title"]) <= 80, p["id"]
        f.write(json.dumps(p) + "\n")
man = dict(version=1, setup_cmd="python3 lib/build.py", hooks=dict(guard="none", enable="no hooks: /repo's sources are compiled unmodified against sim/ (interposed threads, clock, sockets, libuv)", source_commits=[]),
    checks=[dict(property=p["id"], quick_cmd="python3 check.py %s --tier quick" % p["id"], thorough_cmd="python3 check.py %s --tier thorough" % p["id"], technique=t, level="model_checking", level_note=n) for p, t, n in P],
    not_applicable=[], notes="See DESIGN.md. TLA+ specifications are in spec/, the simulator and harnesses in sim/ and harness/.")
json.dump(man, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
