#!/usr/bin/env python3
"""Writes known_findings.json."""
import json, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
FIXED = [
 ("C15", "e14ae0d", "concurrent Increment/Decrement lost updates"),
 ("C03", "418a2ab", "Dial (or the server's handshake) could wait forever: lost wake-up in the readiness waiter"),
 ("C03", "5332395", "server marked the connection acknowledged before the client had its ID: both sides could hang; queued early messages were handled out of order"),
 ("C02", "32b9a48", "a client could send the server's handshake frame and choose its ID or skip OnConnect; the wrong frame wedged a client"),
 ("C03", "5b7b00b", "a connection refused by OnConnect after it was ready stayed open and served"),
 ("C14", "efe1290", "a connection that ended at once stayed in the registry forever"),
 ("C14", "ab99299", "Server.Close missed a connection being upgraded; Close right after New was undone"),
 ("C19", "789e422", "a refused connection was not withdrawn from the stack exchange"),
 ("C19", "c6917e8", "a connection could be withdrawn from the stack exchange before it was announced"),
 ("C07", "75333ae", "two Asks in one clock tick shared a token: one got the other's reply, the other hung"),
 ("C07", "8077545", "Ask during a callback took the next message, whatever it was, as its reply; lost messages; hangs"),
 ("C08", "72db2c4", "abandoned Asks leaked, late replies blocked the reader or ran callbacks, Ask hung when the connection closed"),
 ("C04", "897797c", "connect/disconnect/join/leave replies applied out of order: sides disagreed; deadlocks; double Connected"),
 ("C13", "9962172", "locks held while waiting for the remote or firing callbacks: deadlocks; leave/disconnect events fired twice"),
 ("C02", "311bebc", "a waiting remote side did not get a reply for namespaces or rooms this side is not in"),
 ("C12", "0c6cb2e", "second replies to a Server.Ask blocked the replying connections or ran callbacks; entries leaked"),
 ("C10", "c5685a8", "an excluded or unaddressed message of a multi-message broadcast dropped the messages after it"),
 ("C10", "ebbfd31", "Broadcast wrote the sender into the caller's message slice"),
 ("C11", "73e5581", "default broadcaster lost broadcasts, repeated the last one, and waited for slow connections"),
 ("C20", "48a91c9", "the reply of a stack exchange Ask lost its marker and never came back"),
 ("C06", "5742388", "overlapping room/namespace changes of the two sides reached the remote out of order: sides disagreed"),
 ("C11", "bb550f5", "with SyncBroadcaster a callback that broadcasts during Server.Close or a failed broadcast write hung the whole server"),
 ("C14", "af463b5", "GetConnections and GetConnectionsByNamespace read the connections while the server's loop writes them: the process may be aborted"),
 ("C03", "4b95583", "any broadcast while a connection's OnConnect is running accepted the connection: Dial succeeded although OnConnect refused, OnDisconnect fired for it"),
 ("C18", "f6bef73", "a struct handler with unexported fields (or an unexported time.Time) panicked on connect"),
 ("C19", "129fbd3", "when the first of several exchanges failed an Ask the next one was asked with an empty message"),
 ("C19", "e65a45e", "a namespace disconnect could unsubscribe before its connect subscribed (stale subscription), or unsubscribe the next connect"),
 ("C20", "dabf64a", "a broadcast that excludes a connection whose ID has a semicolon was unreadable behind an exchange: nobody received it"),
 ("C20", "266c4f3", "Exclude(id) and other Stringers were ignored when a stack exchange is used"),
 ("C25", "3c24cb0", "gobwas client lost frames the server sent right behind its handshake answer"),
 ("C25", "347be39", "gobwas: a ping arriving after the deadline of the last write ended the connection"),
 ("C25", "0da6d83", "gobwas: a pong could be written between the header and the payload of a message, corrupting the stream"),
 ("C25", "ac06a5b", "gorilla: a write waiting behind another one extended the first one's deadline (and raced on it)"),
 ("C21", "3a43381", "redis: binary messages were delivered as text ones"),
 ("C21", "364669e", "redis: namespaces and connection IDs were used as glob patterns: messages reached namespaces they were not for"),
 ("C21", "7389421", "redis: a connection whose ID equals a namespace's name received that namespace's messages, and its own reached the namespace"),
 ("C21", "a50fc8c", "redis: Server.Ask never returned when a second reply arrived"),
 ("C21", "67ed571", "redis: a broadcast to a room of the empty namespace panicked"),
 ("C22", "9d29583", "nats: binary messages were delivered as text ones"),
 ("C22", "b3a3eda", "nats: the empty namespace was never subscribed; wildcards, dots and spaces in namespaces and IDs misrouted messages"),
 ("C22", "6459248", "nats: a connection whose ID equals a namespace's name received that namespace's messages, and its own reached the namespace"),
 ("C22", "b272dc5", "nats: a broadcast to a room of the empty namespace panicked"),
 ("C22", "bab8dd9", "nats: Server.Ask left a goroutine behind when a second reply arrived"),
 ("C22", "dccdb6e", "nats: Server.Ask could miss its reply: the message was published before the subscription reached the broker"),
 ("C22", "cb3f9e9", "nats: the subscriber of a connection that ended while the broker was unreachable was leaked and subscribed again"),
 ("C22", "c3236c3", "nats: the broker connection of a refused connection was leaked"),
 ("C21", "c303bcd", "broadcasts through an exchange did not reach connections of native messages only"),
 ("C21", "370faed", "redis: a native broadcast was sent to the excluded connection too"),
 ("C22", "de559d2", "nats: a native broadcast was sent to the excluded connection too"),
 ("C26", "fb38fce", "WaitConnect inside an event callback blocked the reader, so the connect it waits for was never handled"),
 ("C26", "789b400", "WaitConnect without a deadline never returned after its connection was closed"),
 ("C06", "b081eda", "LeaveAll gave up with a write error, leaving the remaining rooms, when another call left one of its rooms"),
 ("C03", "84d9c6e", "messages sent before the handshake were handled out of order when the callback of one of them waited for a reply"),
 ("C06", "4344669", "LeaveAll and DisconnectAll reported success for a room or namespace whose refusal's error text was that of a bad room or namespace"),
]
FINDINGS = []
with open(os.path.join(ROOT, "known_findings.json"), "w") as f:
    json.dump(dict(fixed=[f"fixed: property={p} {c} {w}" for p, c, w in FIXED], findings=FINDINGS), f, indent=1)
    f.write("\n")
