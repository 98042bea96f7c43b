#!/usr/bin/env python3
"""Single source for properties.jsonl (and, later, MANIFEST.json)."""
import json, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

P = []
def prop(id, title, statement, over, qtext, why, files, mech, state=None, observe=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=files, state=[dict(name=a, meaning=b, where=c) for a, b, c in (state or [])],
            mechanism=[dict(name=a, where=b) for a, b in mech],
            observe_at=observe or [], hook_needed=None)))

prop("C01", "The wire format round-trips every message",
 "Serializing any message and deserializing the bytes gives back the same namespace, room, event, body, error and text/binary kind: semicolons, empty fields and arbitrary body bytes included. The bytes always follow the documented seven-field layout, a registered known error comes back as the identical error value, and a Reply travels as a body, never as an error. (Header fields containing the library's reserved escape marker, and errors with an empty text, are outside the format.)",
 ["inputs"], "all field values over an alphabet that contains the separator, digits, prefixes, empties and marker fragments, all flag combinations",
 "TestMessageSerialization samples about ten literal messages; the guarantee is over all combinations of separators, empties, errors, replies and flags.",
 ["message.go", "event.go"],
 [("escape/unescape of header fields", "message.go:escape,unescape"), ("7-field split with remainder as body", "message.go:deserializeInput"), ("known errors", "message.go:resolveError")],
 observe=["Message.Serialize", "DeserializeMessage"])

prop("C02", "Hostile or malformed frames never crash, wedge or leak into handlers",
 "Whatever sequence of frames a remote peer sends, before or after the handshake, the process does not panic, the connection keeps answering later well-formed requests (or is closed), and other connections are unaffected. A frame that is not a well-formed message, or that addresses a namespace the connection is not connected to, never runs an event callback.",
 ["inputs", "histories"], "all sequences, up to a bound, of frames drawn from a menu of malformed, spoofed, duplicated and truncated frames, on server and on client side",
 "The tests only ever talk to the library's own well-behaved peer.",
 ["conn.go", "message.go", "conn_namespace.go"],
 [("invalid payload rejection", "conn.go:handleMessage"), ("namespace gate", "conn.go:tryNamespace"), ("ack state machine", "conn.go:handleACK")],
 observe=["event callbacks", "frames written to the peer", "Conn.IsClosed"])

prop("C03", "Dial completes with the server's verdict",
 "When the server accepts a connection, Dial returns a client whose ID equals the server-side connection's ID; when the server's OnConnect returns an error, Dial returns an error with that text, the connection ends, and none of its messages reach an event callback. Dial never hangs while the server runs, under any schedule of the two sides, and messages sent before the handshake finished are handled after it, in order.",
 ["schedules", "histories"], "all interleavings up to the deviation bound of dialing client, server upgrade handler, both readers, OnConnect doing nothing / failing / connecting a namespace / emitting",
 "Tests dial on an idle loopback with one schedule; the wait/notify hand-shake has windows of a few instructions.",
 ["waiter_once.go", "conn.go", "server.go", "client.go"],
 [("readiness waiter", "waiter_once.go:wait,unwait"), ("ack exchange", "conn.go:handleACK,sendClientACK"), ("pre-ack queue", "conn.go:handleQueue")],
 observe=["Dial return values", "Client.ID", "Server.OnConnect", "event callbacks"])

prop("C04", "A namespace connection is agreed by both sides",
 "When Connect returns without error, both sides hold that namespace; when either side does not declare it or its OnNamespaceConnect returns an error, Connect returns that error and neither side holds the namespace. Each side fires OnNamespaceConnect before and OnNamespaceConnected after the connection is established, once each, and before any other event of that namespace; connecting again returns the existing connection without firing anything.",
 ["schedules", "histories"], "all operation sequences up to a depth over 2 clients and 2 namespaces against a reference model, plus interleavings of concurrent Connect calls",
 "TestConnect performs one Connect per namespace on one schedule; repeated, concurrent, refused-then-retried and reconnect-after-disconnect histories are not reached.",
 ["conn.go", "process.go", "conn_namespace.go"],
 [("ask/reply connect", "conn.go:askConnect,replyConnect"), ("per-namespace process gate", "process.go")],
 state=[("connectedNamespaces", "namespaces held by a connection", "conn.go:Conn")],
 observe=["Conn.Connect", "Conn.Namespace", "OnNamespaceConnect/OnNamespaceConnected callbacks"])

prop("C05", "A namespace disconnect leaves no residue on either side",
 "After Disconnect or DisconnectAll returns without error, neither side holds the namespace or any of its rooms, both sides fired OnRoomLeave and OnRoomLeft for every joined room and then (the refusable server-side check aside) OnNamespaceDisconnect, and a later Connect starts clean. When the server-side OnNamespaceDisconnect refuses a client's request, the client gets that error and both sides keep the namespace and its rooms; a client cannot refuse a server's request.",
 ["schedules", "histories"], "all operation sequences up to a depth, both initiators, with and without refusal",
 "No test calls Disconnect or DisconnectAll.",
 ["conn.go", "conn_namespace.go"],
 [("askDisconnect/replyDisconnect", "conn.go"), ("forced leave of rooms", "conn_namespace.go:forceLeaveAll")],
 observe=["NSConn.Disconnect", "Conn.DisconnectAll", "Conn.Namespace", "event callbacks"])

prop("C06", "Room membership is agreed by both sides",
 "When JoinRoom returns without error both sides are in the room, and when Leave or LeaveAll returns without error neither is; when a side's callback refuses the join, or the server's refuses the leave, the caller gets that error and is not wrongly joined or removed. OnRoomJoin/OnRoomJoined and OnRoomLeave/OnRoomLeft fire once each, in that order, on both sides, and leaving a room that is not joined reports a bad-room error.",
 ["histories", "schedules"], "all operation sequences up to a depth over 2 rooms in 2 namespaces, both initiators, refusing and accepting callbacks",
 "Two tests join and leave a single room once.",
 ["conn_namespace.go", "conn_room.go"],
 [("askRoomJoin/replyRoomJoin", "conn_namespace.go"), ("askRoomLeave/replyRoomLeave", "conn_namespace.go")],
 state=[("rooms", "rooms joined in a namespace connection", "conn_namespace.go:NSConn")],
 observe=["NSConn.JoinRoom", "Room.Leave", "NSConn.LeaveAll", "NSConn.Room(s)", "event callbacks"])

prop("C07", "Every Ask gets exactly its own reply",
 "Ask returns the reply (body or error) that the remote callback produced for that very request, never another request's reply, an event or nothing, no matter how many goroutines of either side are asking, emitting or handling events on the connection at the same time, including Ask called from inside an event callback. Known errors come back as the identical error value and events that arrive meanwhile are still delivered to their own callbacks.",
 ["schedules"], "all interleavings up to the deviation bound of 2-3 concurrent Asks/Emits in both directions on one connection, with clock readings that may repeat",
 "TestAsk asks sequentially from one goroutine; BUILD.json documents that even that hangs on some schedules.",
 ["conn.go", "message.go"],
 [("wait token", "message.go:genWait"), ("waiting table", "conn.go:ask,handleMessage"), ("ask inside handler", "conn.go:startReader,ask")],
 state=[("waitingMessages", "outstanding asks by token", "conn.go:Conn")],
 observe=["Conn.Ask", "NSConn.Ask", "event callbacks"])

prop("C08", "Ask always ends, and a late reply harms nothing",
 "Ask returns when the reply arrives, when its context ends (with the context's error), or when the connection is closed from either side (with an error), whichever is first: it never blocks past that. A reply that arrives late, twice or for an abandoned request neither blocks the connection nor reaches another Ask, and later requests on that connection still work.",
 ["schedules", "fault_sequences"], "all interleavings of an Ask with its reply, cancellation, deadline, local and remote close, write failure, and duplicated replies",
 "No test cancels an Ask or closes a connection with one outstanding.",
 ["conn.go", "conn_namespace.go"],
 [("select on reply/context/close", "conn.go:ask"), ("cleanup of waiting table", "conn.go:ask,Close"), ("bad namespace answer", "conn.go:tryNamespace")],
 observe=["Conn.Ask", "later Ask on the same connection"])

prop("C09", "Messages are handled in order, once, one at a time",
 "Messages that one side successfully writes on a connection, from one goroutine, are each handed to exactly one callback call on the other side, in the order written, with namespace, room, event, body and binary flag intact; messages of concurrent writers are not lost, merged or repeated. Callbacks of one connection run one at a time unless a callback is itself blocked waiting for a reply.",
 ["schedules"], "all interleavings of 2 writers per direction with connect, reader and handler activity",
 "Tests send single messages and wait for each.",
 ["conn.go", "conn_handler.go", "event.go"],
 [("single reader loop", "conn.go:startReader"), ("dispatch", "conn.go:handleMessage"), ("fireEvent", "conn_handler.go")],
 observe=["NSConn.Emit, EmitBinary, Room.Emit, Conn.Write", "event callbacks"])

prop("C10", "A message reaches only connections entitled to it",
 "Emit, Room.Emit and every Broadcast variant deliver a message to a connection if and only if that connection is (on the sending side) connected to the message's namespace, joined to its room when one is set, matches To when one is set, and is not the excluded sender or excluded ID; each message of a multi-message broadcast is judged on its own. Writing to a namespace or room the connection is not in reports failure and sends nothing.",
 ["histories", "inputs"], "all membership configurations of 3 connections x 2 namespaces x 2 rooms, all addressing combinations, both broadcaster modes",
 "TestServerBroadcastTo checks one address against two connections.",
 ["server.go", "conn.go", "conn_namespace.go", "conn_room.go"],
 [("write gate", "conn.go:canWrite"), ("publishMessages", "server.go"), ("Broadcast sender marking", "server.go:Broadcast")],
 observe=["frames received by each client", "Emit/Write return values"])

prop("C11", "Broadcasts are neither lost, duplicated nor reordered",
 "Every Broadcast that starts after a connection joined the namespace, and while it stays connected, is delivered to it exactly once, whatever other broadcasts, connects and disconnects run at the same time, in the default and in the synchronous broadcaster mode. Broadcasts issued one after another arrive at each connection in that order, and one connection's failure or slowness does not take the message from the others.",
 ["schedules"], "all interleavings up to the deviation bound of 2-3 concurrent or back-to-back broadcasts, 2 connections, one joining or closing",
 "Tests broadcast one message at a time on an idle server.",
 ["broadcaster.go", "server.go"],
 [("async broadcaster", "broadcaster.go"), ("sync mode through the server loop", "server.go:start"), ("per-connection publisher", "server.go:waitMessages")],
 observe=["messages received by each client"])

prop("C12", "Server-wide Ask returns one genuine reply and wedges nobody",
 "Server.Ask returns the first reply to its own message (from the addressed connection when To is set), or the context's error when the context ends first. Further, late or repeated replies from other connections never block those connections, never answer another Ask, and never hang the server.",
 ["schedules", "histories"], "all interleavings of 1-2 concurrent server asks answered by 0-2 connections, with cancellation before or after replies",
 "TestServerAsk has one responder and one ask.",
 ["server.go", "conn.go"],
 [("server waiting table", "server.go:Ask"), ("reply routing", "conn.go:handleMessage")],
 observe=["Server.Ask", "liveness of every client connection afterwards"])

prop("C13", "Closing a connection tears everything down exactly once",
 "When a connection is closed by either side, by the server, by a network failure, or by several of these at once, each side that held namespaces fires OnRoomLeave, OnRoomLeft and then OnNamespaceDisconnect (all marked forced) exactly once per joined room and namespace, NotifyClose fires after them, and the server's OnDisconnect fires exactly once. Afterwards no namespace or room remains, writes and asks fail without blocking, no further event fires, and a namespace connect or room join racing with the close never leaves a member behind.",
 ["schedules", "fault_sequences"], "all interleavings of 2 concurrent closers with traffic, and a connection cut at every frame boundary",
 "Tests close idle connections and never look at the teardown callbacks.",
 ["conn.go", "conn_namespace.go", "client.go", "server.go"],
 [("close-once", "conn.go:Close"), ("forced leave", "conn_namespace.go:forceLeaveAll"), ("disconnect notification", "server.go:start")],
 observe=["event callbacks", "Client.NotifyClose", "Server.OnDisconnect", "Conn.IsClosed"])

prop("C14", "The server's connection registry matches reality",
 "Once activity settles, GetTotalConnections, GetConnections, GetConnectionsByNamespace and Do report exactly the accepted, still open connections; OnDisconnect fires exactly once for every connection that OnConnect accepted and that ended (for refused ones only when FireDisconnectAlways is set). Server.Close closes every connection and later upgrades are refused; none of these calls deadlocks against connecting or closing clients.",
 ["schedules", "histories"], "all interleavings of accepts, immediate client closes, refusals, Do and Server.Close; all short histories of dial/close",
 "No test reads the registry, and the connect/disconnect race needs a busy server loop.",
 ["server.go", "conn.go"],
 [("server loop", "server.go:start"), ("registration", "server.go:Upgrade"), ("unregistration", "conn.go:Close")],
 state=[("connections,count", "registered connections", "server.go:Server")],
 observe=["Server.GetTotalConnections", "Server.GetConnections", "Server.Do", "OnDisconnect"])

prop("C15", "The per-connection store is atomic",
 "Set, Get, Increment and Decrement on a connection's store behave as if executed one at a time: concurrent Increment/Decrement calls lose no update and return distinct consecutive values, Get sees the latest Set, and a non-integer value is replaced as documented.",
 ["schedules", "histories"], "all interleavings of 2-3 goroutines with 1-2 store operations each on colliding keys, checked for linearizability against a plain map",
 "No test touches the store.",
 ["conn.go"], [("store mutex", "conn.go:Set,Get,Increment,Decrement")],
 observe=["Conn.Set/Get/Increment/Decrement return values"])

prop("C16", "Native (raw) websocket messages are routed faithfully",
 "With OnNativeMessage declared on the empty namespace, a raw payload is delivered unchanged, once, to that callback (binary flag included) and to no other event, and a message written as native reaches the remote as exactly its body; without it raw payloads reach no callback. When it is the only declared event, connections work with no handshake or namespace connect at all and every payload, even one that looks like a library message or handshake byte, is delivered as native.",
 ["inputs", "histories"], "all payloads over an alphabet of separators and handshake bytes, for every combination of native/mixed/non-native server and client configuration",
 "Two tests send one fixed sentence.",
 ["conn.go", "message.go"],
 [("native mode detection", "conn.go:newConn"), ("native deserialization", "message.go:deserializeInput"), ("native serialization", "message.go:serializeMessage")],
 observe=["OnNativeMessage callback", "frames on the wire"])

prop("C17", "The declared callback, and only it, handles an event",
 "An incoming event runs the callback registered under exactly its namespace and event name, else that namespace's OnAnyEvent callback, else nothing; handlers combined through JoinConnHandlers, WithTimeout, Events or Namespaces keep every registration (the later handler wins a clash) without altering their inputs. Configured read and write timeouts are the ones applied to every read and write of the connection.",
 ["configurations", "inputs"], "all small handler configurations (2 namespaces x 3 events x registered-or-not x 1-3 joined handlers) and all incoming (namespace,event) pairs",
 "Examples print one configuration each.",
 ["conn_handler.go", "conn.go"],
 [("fireEvent", "conn_handler.go"), ("JoinConnHandlers", "conn_handler.go"), ("timeouts", "conn_handler.go:getTimeouts")],
 observe=["which callback ran", "timeouts passed to the socket"])

prop("C18", "A struct handler is isolated per namespace connection",
 "With a struct handler that has a connection field, every connection to the namespace gets its own instance for its whole life: callbacks see their own connection in that field, non-zero template fields are carried over, and state written by one connection's callbacks is never seen by another or after a reconnect. Methods become events by name (system events included, event matcher applied to the others) for dynamic and static structs alike.",
 ["configurations", "schedules"], "all sequences of connect/emit/disconnect over 2 connections, and interleavings of concurrent connects, for dynamic and static structs, matchers and injector",
 "The struct tests build events but run one callback on one connection.",
 ["conn_handler.go", "reflect.go"],
 [("makeEventsFromStruct", "reflect.go"), ("per-connection value", "reflect.go, conn_namespace.go:NSConn.value")],
 observe=["callback receiver state"])

prop("C19", "Stack exchanges see every connection and namespace exactly once",
 "With one or more stack exchanges installed, each connection is announced to each exchange before it can subscribe, each namespace connect and graceful disconnect becomes one subscribe and one unsubscribe, and each ended connection, refused or accepted, is withdrawn exactly once; an exchange that refuses a connection makes Dial fail. Broadcast publishes through every exchange exactly once, in place of local delivery, and a failing exchange does not stop the next.",
 ["histories", "schedules"], "all short histories of dial/refuse/connect/disconnect/close/broadcast over 1-3 recording exchanges",
 "The tests never install an exchange.",
 ["stackexchange.go", "server.go", "conn.go"],
 [("stackExchangeWrapper", "stackexchange.go"), ("notifyNamespaceConnected/Disconnect", "conn.go"), ("OnConnect/OnDisconnect calls", "server.go")],
 observe=["calls received by a recording exchange"])

prop("C20", "Servers joined by an exchange act as one",
 "With two servers sharing an exchange, a broadcast from either reaches every entitled connection of both exactly once and in order, the sending connection excluded when asked, and direct messages (To) reach the one connection wherever it is. Server.Ask gets the reply of a connection of either server, and the messages and wait tokens survive the trip unchanged.",
 ["histories", "schedules"], "all membership/addressing combinations over 2 servers x 2 connections, and delivery interleavings, over an in-memory exchange",
 "There is no test with an exchange; scale-out is only an example that needs redis or nats.",
 ["server.go", "message.go", "conn.go", "stackexchange.go"],
 [("explicit sender in the wait field", "message.go:serializeMessage,DeserializeMessage"), ("exchange wait tokens", "message.go:genWaitStackExchange"), ("NotifyAsk", "conn.go:handleMessage")],
 observe=["messages received by each client", "Server.Ask"])

prop("C21", "The redis exchange delivers and cleans up",
 "Servers using the redis exchange over one redis deliver each published message exactly once to every connection subscribed to its namespace or addressed by ID, and to no other; a disconnected namespace or connection receives nothing more and leaves no subscription behind; Ask returns the reply.",
 ["histories"], "all operation sequences up to a depth over 2 servers and 2 connections against an in-memory redis speaking the real protocol to the real client library",
 "No test exists: it needs a redis server.",
 ["stackexchange/redis/stackexchange_redis.go"],
 [("subscriber loop", "stackexchange_redis.go:run"), ("channel naming", "getChannel"), ("Ask/NotifyAsk", "Ask, NotifyAsk")],
 observe=["frames received by clients", "subscriptions held at the broker"])

prop("C22", "The nats exchange delivers and cleans up",
 "Servers using the nats exchange over one nats deliver each published message exactly once to every connection subscribed to its namespace or addressed by ID, and to no other; a disconnected namespace or connection receives nothing more and leaves no subscription behind; Ask returns the reply.",
 ["histories"], "all operation sequences up to a depth over 2 servers and 2 connections against an in-memory nats speaking the real protocol to the real client library",
 "No test exists: it needs a nats server.",
 ["stackexchange/nats/stackexchange_nats.go"],
 [("subscriber loop", "stackexchange_nats.go:run"), ("subject naming", "getSubject"), ("Ask/NotifyAsk", "Ask, NotifyAsk")],
 observe=["frames received by clients", "subscriptions held at the broker"])

prop("C23", "API calls never deadlock against incoming traffic",
 "Connect, Disconnect, DisconnectAll, JoinRoom, Leave, LeaveAll, Ask, Emit, Close and the read-only accessors return once the remote has answered, even while messages of any kind keep arriving on the same connection, while the other side issues its own such calls, and when called from inside event callbacks that are allowed to call them.",
 ["schedules"], "all interleavings up to the deviation bound of one client-side and one server-side call with incoming traffic, every pair of calls; calls made inside callbacks",
 "Tests run one call at a time on a silent connection.",
 ["conn.go", "conn_namespace.go", "process.go"],
 [("lock scope around Ask", "conn.go:DisconnectAll, conn_namespace.go:LeaveAll"), ("locks held while firing callbacks", "conn.go:Close, conn_namespace.go:forceLeaveAll"), ("process gate", "process.go")],
 observe=["return of the calls"])

prop("C24", "Only valid upgrade requests become connections",
 "Only GET requests to an open server reach the upgrader: HEAD is answered as a reconnect probe, other methods with 405 and an Allow header, a closed server with 500, and a failed upgrade is reported once to OnUpgradeError; none of these registers a connection or runs OnConnect. URL parameters carrying the header prefix become request headers, and the reconnect header determines WasReconnected/ReconnectTries.",
 ["inputs", "configurations"], "all methods x open/closed x upgrader ok/failing x parameter and header spellings",
 "No test sends anything but a valid upgrade.",
 ["server.go"], [("Upgrade gate", "server.go:Upgrade"), ("tryParseURLParamsToHeaders", "server.go")],
 observe=["HTTP response", "Upgrade return values", "registry"])

prop("C25", "Websocket adapters keep message boundaries and kinds",
 "Through the gorilla and the gobwas adapters, in every pairing of client and server, each text or binary write arrives as exactly one read with the same bytes and kind, however the network splits or joins the stream and however many goroutines write at once; ping, pong and fragmented messages are transparent. A close frame, EOF or corrupt frame ends the read with an error, and read/write timeouts are honoured.",
 ["schedules", "inputs"], "all frame sequences up to a bound x all stream split points, and all interleavings of 2 concurrent writers",
 "Tests send whole small text messages over loopback.",
 ["gobwas/socket.go", "gorilla/socket.go", "gobwas/upgrader.go", "gorilla/upgrader.go", "gobwas/dialer.go", "gorilla/dialer.go"],
 [("write mutex", "gobwas/socket.go, gorilla/socket.go"), ("ReadData loop", "gobwas/socket.go, gorilla/socket.go")],
 observe=["Socket.ReadData", "bytes on the wire"])

prop("C26", "Waiting for the other side's Connect ends with its namespace",
 "WaitConnect and WaitServerConnect return the connected namespace once the other side connected this one to it (before, during or after the call, inside the server's OnConnect included), the same one for every waiter, and what is sent through it right away arrives. When the context ends first they return the context's error, when the connection is closed an error; waiting itself connects nothing, fires nothing and does not keep the connection from handling messages, not even when called inside an event callback.",
 ["schedules", "histories"], "all interleavings up to the bound of waiters and a remote Connect that comes early, late, never, is refused, is undone, or a close, on both sides",
 "Tests call WaitServerConnect once with one schedule; the namespace becomes visible before the other side knows about it.",
 ["conn.go", "client.go"], [("polling wait", "conn.go:WaitConnect"), ("nothing is written before the reply", "conn.go:canWrite,replyConnect")],
 observe=["WaitConnect return values", "event callbacks", "frames after the wait"])

# what each check's verdict rests on, beyond the common part
NOTES = {}
CLAIMED = set("C01 C02 C03 C04 C05 C06 C07 C08 C09 C10 C11 C12 C13 C14 C15 C16 C17 C18 C19 C20 C21 C22 C23 C24 C25 C26".split())
COMMON = ("Stateless model checking of the real code: /repo is copied, every go statement, channel operation, lock, atomic, timer, "
 "map iteration and network call is redirected to a controlled scheduler, and every execution (schedule or input sequence) up to the "
 "stated bound is run and checked. Assurance: exhaustive within the bounds in the evidence file; assumes sequentially consistent memory between "
 "scheduling points (data races on instrumented fields are reported where the scenario asks for it) and trusts the rewriter and the in-memory network.")

def manifest():
    checks, na = [], []
    for p in P:
        i = p["id"]
        if i in CLAIMED:
            checks.append(dict(property=i, quick_cmd=f"bash check.sh {i}", thorough_cmd=f"VERIF_TIER=thorough bash check.sh {i}",
                evidence_file=f"evidence/{i}.json",
                technique="stateless model checking of the implementation (bounded exhaustive schedule/input exploration under a controlled scheduler)",
                level="model_checking", level_note=COMMON + (" " + NOTES[i] if i in NOTES else "")))
        else:
            na.append(dict(property=i, reason="no check built yet"))
    return dict(version=1, setup_cmd="bash setup.sh", checks=checks, not_applicable=na,
        notes="No hooks in /repo: the instrumentation is done on a scratch copy at check time. /repo carries only fix: commits, listed in known_findings.json.")

if __name__ == "__main__":
    with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
        for p in P:
            assert len(p["title"]) <= 80, p["id"]
            f.write(json.dumps(p, ensure_ascii=False) + "\n")
    with open(os.path.join(ROOT, "MANIFEST.json"), "w") as f:
        json.dump(manifest(), f, indent=1)
        f.write("\n")
    print(len(P), "properties", len(CLAIMED), "claimed")
