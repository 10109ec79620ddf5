#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a generator so that the wording is easy to edit)."""
import json, os
P=[]
def prop(id,title,statement,over,text,why,files,mech,observe,state=None,hook=None):
    P.append(dict(id=id,title=title,statement=statement,
      quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,state=state or [],mechanism=[dict(name=n,where=w) for n,w in mech],observe_at=observe,hook_needed=hook)))

prop("C01","Engine payloads round-trip byte for byte, however the stream is split",
 "Any sequence of engine.io packets (any of the seven types, text or binary, any data of any length) written as a payload in either payload encoding and read back yields the same packets, in the same order, with the same kind, type and data. The byte counts reported by writing and by reading equal the bytes written and consumed. The result is the same however the underlying reader splits the bytes into reads.",
 ["inputs","fault_sequences"],"every packet sequence, every content and length of data, both encodings, every fragmentation of the read side",
 "The tests round-trip one five-packet list whose binary data lengths are multiples of three, from an in-memory reader that returns everything at once; short reads, padding, other lengths and other bytes are never seen.",
 ["engine/payload.go"],[("Payload.WriteTo / Packet.WriteTo / packet2.WriteTo","engine/payload.go"),("Payload.ReadFrom / Packet.decode / packet2.decode","engine/payload.go")],
 ["Payload.WriteTo output","Payload.ReadFrom packets and count"])
prop("C02","Engine payloads follow the engine.io v3 framing exactly",
 "A packet is written in the text encoding as `<decimal length>:<type digit><data>`, binary data as `<length>:b<type digit><standard base64>`, with the length counting the characters after the colon; in the binary encoding as a 0/1 kind byte, the decimal digits of the length as bytes 0-9, 0xFF, the type (ASCII digit for text, raw byte for binary) and the data. Any payload in that framing, whoever produced it, decodes to exactly the packets it denotes. Concatenated packets stay independent of each other.",
 ["inputs"],"every packet type, kind, data content and length; every sequence of packets in the framing",
 "The tests compare six fixed packets against fixed bytes; length-digit boundaries, empty data, padding and every other type/content are unsampled.",
 ["engine/payload.go"],[("length/type/data framing","engine/payload.go encodeHead, decodeHead, WriteTo, decode")],
 ["bytes produced by WriteTo","packets produced by ReadFrom from reference-encoded bytes"])
prop("C03","Hostile payload bytes never crash the decoder or invent data",
 "Decoding an arbitrary byte string as a payload in either encoding terminates without panicking and without reserving memory out of proportion to the bytes actually received. It either reports an error or returns packets that account for every byte of the input; a truncated or malformed packet is reported as an error and never surfaces as a packet with missing, padded or invented data.",
 ["inputs"],"every byte string, both encodings",
 "No test feeds a malformed payload; a remote peer controls every byte of a POST body.",
 ["engine/payload.go","engine/polling.go"],[("decodeHead length parsing","engine/payload.go"),("decode data reading","engine/payload.go")],
 ["error / packets returned by ReadFrom","largest allocation made from a decoded length"])
prop("C04","Default parser: encoding then decoding preserves every packet",
 "A socket.io packet encoded with the default parser and fed frame by frame into a default decoder comes back once, with the same namespace, the same acknowledgement id (or none), the same event name and JSON arguments, and byte-identical binary attachments in order. Its type is preserved, except that an Event or Ack carrying binary arguments travels as the corresponding binary type. (Namespaces contain no `,` or `?`, and one given without its leading `/` is taken to have it; event names are non-empty valid UTF-8; the data of an error packet is not a bare number, which the format cannot tell from an id.)",
 ["inputs"],"every packet type, namespace path, 64-bit id, event name, string/number/boolean/null argument and binary argument placement",
 "The tests compare a handful of fixed packets and do not even check the decoded data; names needing JSON escapes, ids over three digits, binary first arguments and binary acks are never tried.",
 ["parser_default.go","packet.go"],[("defaultEncoder.Encode","parser_default.go"),("defaultDecoder.Add/ParseData/UnmarshalArgs","parser_default.go")],
 ["Decoder.Decoded()","Decoder.ParseData","Decoder.UnmarshalArgs"])
prop("C05","Default parser writes socket.io protocol revision 4",
 "Every packet the default parser encodes is one text frame of the form type digit, attachment count and `-` (only for packets with binary arguments), namespace and `,` (only for a namespace other than `/`), decimal id (only if present), JSON data (only if present), followed by exactly the binary arguments as raw frames in argument order with numbered placeholders in the JSON. Nothing else is emitted: no attachment of an earlier or received packet, no empty frame.",
 ["inputs","histories"],"every packet, including packets re-used for an acknowledgement after being received",
 "Eight fixed encodings are compared; placement of binary arguments, ids, namespaces and re-used packets are not varied.",
 ["parser_default.go"],[("defaultEncoder.preprocess/encodeTo","parser_default.go"),("placeholder.MarshalJSON","parser_default.go")],
 ["frames returned by Encoder.Encode"])
prop("C06","Default decoder survives any frame sequence and recovers",
 "For every sequence of text and binary frames with arbitrary contents, the default decoder neither panics nor blocks, and each frame either is accepted or yields an error. Every packet it surfaces has one of the seven types and, if binary, all of its declared attachments. After a rejected frame, a well-formed packet that follows is still decoded correctly. A frame refused on a session of a server or client is reported once to its OnError callback, and the session goes on.",
 ["inputs","histories"],"every sequence of frames with arbitrary bytes and kinds",
 "The tests only decode well-formed single text frames.",
 ["parser_default.go"],[("defaultDecoder.decode/Add","parser_default.go")],
 ["error of Add","packets on Decoded()"])
prop("C07","Binary packets are delivered whole, once, with attachments in order",
 "A binary event or binary acknowledgement surfaces exactly when the last of its declared attachments has arrived, never earlier and exactly once, carrying those attachments in placeholder order. Its handler receives each attachment, byte for byte, in the binary parameter of the same rank, and the JSON arguments in the remaining parameters, wherever the binary arguments stand in the list (first, last, adjacent or alone).",
 ["inputs","histories"],"every number, content and placement of binary arguments, with events and acknowledgements, and every interleaving with unrelated or stray frames",
 "One test checks regular-expression extraction on a literal; no test assembles a binary packet through the decoder.",
 ["parser_default.go","server.go","client.go"],[("attachment counting in Add","parser_default.go"),("extractAttachments","parser_default.go"),("UnmarshalArgs","parser_default.go")],
 ["Decoder.Decoded()","handler arguments"])
prop("C08","Msgpack parser: encoding then decoding preserves every packet and argument",
 "A packet encoded with the msgpack parser and decoded again has the same type, namespace, id (or none) and data; the event name and every argument of a supported type reach a handler parameter of that type unchanged, including the extremes of each integer type, strings and byte strings of any length class, slices, arrays, maps and pointers. Event, ack and binary packets travel as exactly one binary frame; connect, disconnect and error packets as exactly one text frame.",
 ["inputs"],"every packet type, namespace, 64-bit id and argument value of the supported types",
 "The tests decode a few small fixed values; integer width boundaries, negative numbers, length-class boundaries and namespaces are unsampled.",
 ["parser_msgp.go","packet.go"],[("Packet.MarshalMsg/UnmarshalMsg","packet.go"),("msgpackDecoder.ParseData/UnmarshalArgs","parser_msgp.go")],
 ["Encoder.Encode frames","Decoder.Decoded()","UnmarshalArgs values"])
prop("C09","Hostile msgpack frames never crash the decoder or over-allocate",
 "For every byte string, adding it as a frame to the msgpack decoder, extracting its event data and unmarshalling it into handler parameters terminates without panicking or blocking, and never reserves memory out of proportion to the bytes received. Whatever cannot be decoded into the handler's parameter types is reported as an error and the handler is not run.",
 ["inputs"],"every frame content and kind; handler parameters of slice, array, map, pointer, string and integer types",
 "No test feeds malformed msgpack.",
 ["parser_msgp.go","packet.go"],[("msgpUnmashalArg / msgpReadMap","parser_msgp.go"),("Packet.UnmarshalMsg","packet.go")],
 ["errors of Add/ParseData/UnmarshalArgs","largest allocation"])
prop("C10","Each event runs exactly its own handler, once, with its own arguments",
 "An incoming event runs the handler registered for exactly that event name in exactly that namespace (the last one registered, if several were), once, with the arguments sent and, where the handler asks for it, a socket bound to that session and namespace; no other handler runs. An event nobody registered for runs nothing, and one whose arguments do not fit the handler's parameters is reported to that namespace's error callback instead of running the handler. Events for a namespace the server does not have run nothing and are answered with an error packet for that namespace.",
 ["inputs","histories"],"every event name, namespace, argument list and registered handler set, server and client side, several sessions",
 "No test sends an event through a server or client.",
 ["server.go","client.go","handle.go","callback.go"],[("Server.process/Client.process","server.go, client.go"),("namespace.fireEvent","handle.go"),("callback.Call","callback.go")],
 ["handler invocations","frames sent back"])
prop("C11","Every event that asks for an acknowledgement gets exactly one, with its id",
 "When an event carrying an id has been handled, exactly one acknowledgement packet goes back on the same session, with the same id and namespace and the handler's return values as its argument list (an empty list if there are none), binary return values travelling as attachments. An event without an id is never acknowledged, and one whose handler could not be run because of bad arguments is not acknowledged either. (Whether an event nobody registered for is acknowledged is left open.)",
 ["inputs","histories"],"every id, namespace, handler result list, text and binary events, both parsers",
 "No test exercises acknowledgement replies.",
 ["server.go","client.go","socket.go"],[("ack in process","server.go, client.go"),("socket.ack/emitPacket","socket.go")],
 ["frames sent back to the peer"])
prop("C12","An ack callback fires at most once, and only for its own acknowledgement",
 "A callback passed to Emit runs at most once, and only when an acknowledgement with the id sent with that emit arrives on the same session and namespace, receiving that acknowledgement's arguments. Ids of outstanding emits on a session's namespace are distinct, also under concurrent emits, and stay so when the namespace is left and connected again. Unknown, repeated or foreign ids run nothing, even when duplicates are processed concurrently.",
 ["inputs","histories","schedules"],"every history of emits and incoming acknowledgements with arbitrary ids, and every interleaving of two concurrent deliveries or emits",
 "No test covers acknowledgement callbacks.",
 ["handle.go","socket.go"],[("ackHandle.onAck/fireAck","handle.go"),("socket.fireAck/emit","socket.go")],
 ["callback invocations","ids in emitted frames"])
prop("C13","Namespace connect and disconnect callbacks alternate",
 "For each session and namespace, OnConnect and OnDisconnect callbacks alternate strictly, starting with OnConnect, whatever sequence of connect, disconnect, event and close packets the peer sends: no disconnect without a preceding connect, none repeated. Every CONNECT to an existing namespace is answered with a CONNECT for it; when the session ends, every namespace still connected gets exactly one OnDisconnect. Emit succeeds only on a connected namespace and fails with the namespace-unavailable error otherwise.",
 ["histories","inputs"],"every history of packets on one session over several namespaces, ended by close packet or connection loss",
 "No test drives a server through a packet history.",
 ["server.go","client.go","socket.go"],[("process connect/disconnect","server.go, client.go"),("attachnsp/detachnsp/detachall","socket.go")],
 ["callback sequence","frames sent back","Emit result"])
prop("C14","Frames of one packet stay contiguous under concurrent emits",
 "When several goroutines emit on the same session concurrently, the frames of each packet (its text frame followed by its binary attachments) appear on the wire contiguously and in order, so that the peer reassembles every packet with its own attachments. No packet is lost or duplicated.",
 ["schedules","inputs"],"every interleaving of two concurrent emitters (events and acknowledgements with attachments)",
 "No test emits concurrently; the window is a few instructions wide.",
 ["socket.go","engine/emitter.go"],[("socket.emitPacket","socket.go"),("emitter.submit/loop","engine/emitter.go")],
 ["sequence of frames written to the connection"])
prop("C15","A session delivers what was emitted, once, in order, until closed",
 "Packets accepted by Emit on one session are written to its connection exactly once, with the kind, type and data given, and in the order of the Emit calls of each goroutine. Closing a session is idempotent, flushes what was accepted before Close was called, never deadlocks or panics even when concurrent with Emit or repeated, and Emit fails after Close. While a session goes on its packets arrive without a gap: one whose packet cannot be written, within the timeout, ends.",
 ["schedules","histories","inputs"],"every interleaving of emitters, the background writer and Close; every burst length across the internal buffer size; every moment at which the connection stops taking packets",
 "No test uses a session's emitter.",
 ["engine/emitter.go","engine/socket.go"],[("emitter.submit/loop/flush/close","engine/emitter.go"),("Socket.Emit/Close","engine/socket.go")],
 ["packets written to the transport","errors of Emit/Close"])
prop("C16","Engine server answers pings and dispatches packets by type",
 "For every packet received on a session, the server behaves by its type: a ping is answered with exactly one pong carrying the same kind and data and reported once; a message is reported once to the message handler with its kind and data unchanged; a close ends the session; open, upgrade and noop packets do nothing outside an upgrade; any other type runs no handler and does not end the session. Packets of one session are reported in the order received and to that session only.",
 ["inputs","histories"],"every packet type byte, kind and data, every order of packets, over polling and websocket",
 "No test runs the engine server's dispatch.",
 ["engine/server.go","engine/handle.go"],[("Server.handle","engine/server.go"),("eventHandlers.fire","engine/handle.go")],
 ["event callbacks","packets written back"])
prop("C17","HTTP requests are admitted only with valid version, transport, sid and origin",
 "A request is served only if its protocol version is the supported one, its transport is a known one, its session id (if given) names a live session, and, where it opens or upgrades a connection, every origin checker accepts it; otherwise it is refused with a 4xx status, creates no session, runs no callback and leaves every existing session untouched. An admitted request without a session id creates exactly one session, whose first packet is the open packet with that session's id, the offered upgrades and the configured ping interval and timeout in milliseconds.",
 ["inputs","configurations"],"every query value, every set of origin checkers and their answers, every configured interval and timeout",
 "No test sends an HTTP request to the server.",
 ["engine/server.go","engine/transport.go"],[("Server.ServeHTTP","engine/server.go"),("pollingAcceptor.Accept / websocketTransport.Accept","engine/transport.go")],
 ["HTTP status","open packet","callbacks"])
prop("C18","Polling moves every packet once, in order, in the encoding asked for",
 "Each polling GET answers with the next undelivered packet of that session in the encoding the request asks for (binary by default, base64 text with b64=1, JSONP with j) under the matching Content-Type; each accepted POST hands all packets of its body, in order, once, to the session. Requests with a bad method, media type, charset or body get an error status and hand over nothing; a closed session refuses both.",
 ["inputs","histories"],"every packet content, every query and header combination, every sequence of GETs and POSTs",
 "The only test checks timeouts, pausing and closing of an idle connection.",
 ["engine/polling.go"],[("pollingConn.ServeHTTP","engine/polling.go"),("writeJSONP/writeXHR/writeXHR2","engine/polling.go")],
 ["HTTP responses","packets read by the session"])
prop("C19","A successful transport upgrade loses, duplicates and reorders nothing",
 "When a polling session is upgraded to websocket by the probe ping / pong / upgrade exchange, every message emitted before, during or after the upgrade reaches the client exactly once and in order over one of the two transports, every message the client posted before the switch is reported to the server's handler once and in order, and afterwards the session uses the websocket and is never reported closed because of the upgrade. This holds for every interleaving of the upgrade with emitters and with the session's reader, for a client that keeps to the protocol: its pending poll and posts are answered before it sends the upgrade packet.",
 ["schedules","histories","inputs"],"every interleaving of upgrade, writer, reader and poll request; every number of buffered packets",
 "No test performs an upgrade.",
 ["engine/server.go","engine/emitter.go","engine/socket.go","engine/polling.go","engine/barrier.go"],[("Server.upgrade","engine/server.go"),("Barrier","engine/barrier.go"),("pollingConn Pause/Flush","engine/polling.go")],
 ["packets on both transports","message and close events"])
prop("C20","A failed transport upgrade leaves the session as it was",
 "If the candidate connection of an upgrade fails at any step (does not answer, sends something other than the probe ping or the upgrade packet, breaks on write) it is closed and the session goes on over its original transport: no message is lost or duplicated in either direction, the session is not closed, later polls and posts work, and a later upgrade can still succeed.",
 ["fault_sequences","inputs","histories"],"every failure point of the probe exchange, every wrong packet",
 "No test performs an upgrade.",
 ["engine/server.go","engine/polling.go"],[("Server.upgrade error paths","engine/server.go"),("pollingConn.Resume","engine/polling.go")],
 ["packets on the original transport","session events"])
prop("C21","Sessions have unique ids, and end once, completely",
 "Every session gets an id that embeds all of its random bits, is safe in a URL and differs from the ids of sessions with other random bits. When a session ends, because the peer closes, sends a close packet, stays silent beyond interval plus timeout, or its connection breaks, it is reported closed to the close handler, its connection is closed and its id is no longer accepted; a peer that keeps the heartbeat within the timeout is never dropped.",
 ["inputs","histories","fault_sequences"],"every random id value, every way and moment of ending, every heartbeat spacing",
 "No test opens or ends a session.",
 ["engine/session.go","engine/server.go","engine/socket.go"],[("generateSidBytes/newSession/sessionManager","engine/session.go"),("reader loop","engine/server.go")],
 ["session id","close event","status of later requests"])
prop("C22","The API can be used from inside callbacks without deadlock",
 "Calling Emit, EmitError, Close, header or identity methods of a socket, registering handlers or closing the server from within any callback (connect, disconnect, error, event handler, acknowledgement, and every handler of an engine server) returns; it never deadlocks the session or the server. This holds in particular when the callback runs because the session is ending.",
 ["histories","schedules"],"every callback kind and every API call made inside it",
 "No test runs callbacks of a live session.",
 ["socket.go","server.go","client.go"],[("detachall","socket.go"),("socket.mutex","socket.go")],
 ["progress of the calling goroutine and of the session"])
prop("C23","The client only connects to a proper handshake and reports its end",
 "Dial succeeds only if the first packet is a well-formed open packet (a JSON object with a session id and a positive interval and timeout that can be waited for), and then the client carries the session id announced by the server; any other first packet or an error makes Dial fail. The client sends pings spaced by the announced interval while connected, hands every message to its handlers once and in order, and reports the end of the connection (closed by either side, or lost, or silent beyond interval plus timeout) to the disconnect callback of each connected namespace exactly once.",
 ["inputs","histories","fault_sequences"],"every first packet, every announced interval and timeout, every message history and ending",
 "The client is only mentioned in compile-only examples.",
 ["engine/client.go","client.go"],[("engine.Dial","engine/client.go"),("Client.Dial/process","client.go")],
 ["result of Dial","packets sent","callbacks"])
prop("C24","JSONP responses are a single safe call carrying the payload",
 "The body of a JSONP poll is exactly one call `___eio[N](\"...\");` in which N consists only of the digits of the requested index, and whose string literal evaluates to the text encoding of the packet (text packets being valid UTF-8). No value of the request's index or of the packet data can break out of the literal or the index.",
 ["inputs"],"every index parameter, every packet content",
 "No test requests JSONP.",
 ["engine/polling.go"],[("writeJSONP","engine/polling.go")],
 ["response body"])
prop("C25","Header metadata belongs to its session and survives upgrades",
 "The headers visible on a session are those of its opening request plus what was set on that session since; they are independent of the request object and of other sessions. An upgrade keeps every header already present on the session unless the upgrading request carries its own value, and lookups are case-insensitive.",
 ["inputs","histories"],"every header set, set/get history, and upgrade",
 "No test reads or writes session headers.",
 ["engine/transport.go","engine/socket.go"],[("cloneHTTPHeader/copyHeaderFrom","engine/transport.go"),("Socket.GetHeader/SetHeader","engine/socket.go")],
 ["GetHeader results"])
prop("C26","A closed server opens no session and leaves nothing behind",
 "Closing a server may be repeated and ends its background worker. A request that would open a session is answered at all times: before the server is closed it opens one; once Close has returned it is refused (an error status, or a connection that is closed without any packet), is reported to no callback and leaves no goroutine behind; while Close runs it is either of the two, never half open. A session that was open can still end, and when it has, nothing of it or of the server is left running.",
 ["schedules","histories"],"every interleaving of Close with requests that open sessions; every kind of opening request",
 "No test closes a server.",
 ["engine/server.go","engine/session.go","server.go"],[("Server.Close","engine/server.go"),("Server.ServeHTTP (opening)","engine/server.go"),("worker of NewServer","engine/server.go")],
 ["responses to opening requests","callbacks","goroutines left"])
prop("C27","A stuck session holds up no other",
 "Sessions are independent of each other: whatever one session is stuck in - a callback of its own that does not return, a peer that does not read what is sent to it, does not poll, does not send the rest of a request or does not complete its upgrade or its opening, or an origin check of it that does not answer - every other session of the same server, opened before or after, can be opened, exchanges packets, is upgraded, pinged and closed as if the stuck one were not there, and is reported as usual.",
 ["schedules","histories","fault_sequences"],"every way of being stuck, every other session opened before or after it, every datum exchanged",
 "No test has two sessions of which one is stuck.",
 ["engine/server.go","engine/session.go","engine/socket.go","server.go","socket.go"],[("Server.ServeHTTP/dispatch","engine/server.go"),("sessionManager","engine/session.go"),("Server.process","server.go")],
 ["packets and callbacks of the other sessions"])
prop("C28","The API may be used from any goroutine",
 "After a server, session, socket or client has been set up, its operations (emitting with and without an acknowledgement, acknowledging, reading and setting headers, taking the session's id and namespace, closing a session or the server, registering handlers for a namespace other than one being registered at the time) may be called from any goroutine at any time, at the same time as each other and as whatever the peer does: there is no data race, no deadlock, no panic and no fatal error, and each operation has its effect or reports an error. (The handlers of one namespace are registered by one goroutine.)",
 ["schedules"],"every pair of operations under every schedule, several operations under fewer",
 "The tests use the API from one goroutine.",
 ["engine/socket.go","engine/server.go","engine/handle.go","server.go","client.go","socket.go"],[("Socket.Emit/Close/GetHeader/SetHeader","engine/socket.go"),("Server.Namespace","server.go"),("socket.Emit","socket.go")],
 ["data races, deadlocks, panics","results of the operations","packets at the peer"])
with open(os.path.join(os.path.dirname(__file__),"..","properties.jsonl"),"w") as f:
    for p in P: f.write(json.dumps(p)+"\n")
print(len(P))
