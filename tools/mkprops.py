#!/usr/bin/env python3-vt
"""Writes /verif/properties.jsonl (kept in a script so that the long lines stay editable)."""
import json, os, sys
P = []
def prop(id, title, statement, over, text, why, files, mech, observe=(), state=()):
    assert len(title) <= 80, title
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech], observe_at=list(observe),
                     state=[dict(name=n, meaning=m, where=w) for n, m, w in state])))

prop("C01", "Outgoing messages are framed exactly as ZMTP 3.0 prescribes",
 "Sending a message on a connection (frame by frame or as one multipart write, under NULL, PLAIN or any other length-preserving mechanism) appends to the byte stream exactly the concatenation over its frames of flag octet (MORE on all but the last, LONG iff the frame has more than 255 bytes, COMMAND never), one- or eight-octet big-endian length, and the frame's bytes. When the underlying write fails the send returns an error, and what was written is a prefix of that encoding.",
 ["inputs", "fault_sequences"], "every number of frames, every frame size and content, both send paths, every write failure point",
 "The tests send a few short messages between two copies of this library, so a symmetric error (wrong flag order, length truncated at a boundary, MORE on the last frame) is invisible and only a few of the sizes are reached.",
 ["conn.go"], [("frame header and body writer", "conn.go:send"), ("multipart writer", "conn.go:sendMulti"), ("per-message loop", "conn.go:SendMsg")], ["bytes written to the underlying net.Conn"])
prop("C02", "Decoding is the exact inverse of framing, however the stream is cut",
 "For every well-formed sequence of frames a peer writes to a connection (other than a raw STREAM one), however the bytes are split into reads, each receive returns exactly one message whose frames are byte-for-byte the peer's frames in order, reports it as a command iff one of its frames carries the COMMAND flag, and consumes exactly that message's bytes. A stream that ends or fails inside a message yields an error, never a shortened message.",
 ["inputs", "fault_sequences"], "every byte stream, every frame count and size, every segmentation, every truncation point",
 "Tests exchange short messages over loopback where each frame arrives in one piece; long-length encoding of short frames, split headers, and every truncation offset are never exercised.",
 ["conn.go", "protocol.go"], [("message decoder", "conn.go:read"), ("flag accessors", "protocol.go:flag")], ["Conn.RecvMsg", "Socket.Recv"])
prop("C03", "Bytes from a peer never panic the process nor make it allocate unboundedly",
 "Whatever bytes a peer sends, during the handshake or afterwards, the receiving side returns an error or a value: no input makes it panic, and a length field in a frame header does not by itself make it allocate memory that is out of proportion to the bytes actually received.",
 ["inputs"], "every byte string a peer can send at any point of the protocol, to a Conn and to every socket type",
 "Tests only use this library as the peer, which never sends malformed greetings, metadata, commands, lengths, socket types or subscription frames.",
 ["conn.go", "protocol.go", "msg.go", "socket_types.go", "pub.go", "rep.go", "req.go", "router.go"], [("decoder", "conn.go:read"), ("property decoder", "protocol.go:Property.Write"), ("command decoder", "msg.go:unmarshalZMTP"), ("peer socket type check", "conn.go:init"), ("subscription handling", "conn.go:subscribe, pub.go:topic")])
prop("C04", "The greeting has the ZMTP 3.0 layout and bad greetings are refused",
 "The greeting sent is exactly 64 bytes: 0xFF, padding, 0x7F at offset 9, version 3.0 at 10-11, the NUL-padded mechanism name at 12-31, and the rest zero apart from the as-server octet at 32. A peer greeting is accepted iff both signature octets are right, its version is at least 3.0, its mechanism, up to the first NUL, equals ours, and its as-server octet is 0 or 1; otherwise opening the connection fails.",
 ["inputs"], "every 64-byte peer greeting and every prefix of one, every mechanism name of up to 20 bytes",
 "Tests check a handful of greetings; not each octet's role, the version ordering, or names that share a prefix.",
 ["protocol.go", "conn.go"], [("greeting codec", "protocol.go:greeting"), ("exchange", "conn.go:greet")])
prop("C05", "Metadata encodes and decodes without loss and rejects malformed blocks",
 "Encoding connection metadata (names of RFC 23 name characters) yields for each entry exactly one RFC 23 property (name length, name, 32-bit value length, value), with application names prefixed by X-, and fails on an empty name or on names equal up to case. Decoding a block stores each property's value under its title-cased name, and a block that ends inside a property is an error.",
 ["inputs"], "every metadata map with names of at most 253 bytes and values that fit the length field, every byte block",
 "Tests use two or three fixed properties; value lengths above the copy buffer, truncation offsets and case-folding collisions are not covered.",
 ["protocol.go"], [("encoder", "protocol.go:Metadata.MarshalZMTP"), ("decoder", "protocol.go:Metadata.UnmarshalZMTP"), ("property codec", "protocol.go:Property.Read, Property.Write")])
prop("C06", "Commands round-trip and a PING is answered with one PONG",
 "A command is sent as one COMMAND frame whose body is the name's length octet, the name and the command body (names over 255 bytes are refused); receiving such a frame returns the same name and body, and a frame whose name would run past its end is refused. Receiving PING with a connection's RecvMsg writes exactly one PONG command; other commands write nothing.",
 ["inputs"], "every command name and body, every received frame",
 "Tests send the handshake commands only; name lengths 0 and 255, long bodies and truncated names are not covered.",
 ["msg.go", "conn.go"], [("command codec", "msg.go:Cmd"), ("send and receive", "conn.go:SendCmd, RecvCmd, RecvMsg")])
prop("C07", "Only compatible socket types connect, and the relation is RFC 23's",
 "Two socket types are compatible exactly when RFC 23's table (with STREAM only to STREAM) says so, and the relation is symmetric. Opening a connection succeeds only if the peer announced a known type compatible with ours; an incompatible, unknown or missing type is an error.",
 ["inputs"], "all pairs of socket types and every string a peer may announce",
 "Tests try a few pairs; the whole table, its symmetry and unknown announced types are not covered.",
 ["socket_types.go", "conn.go"], [("table", "socket_types.go:IsCompatible"), ("check at open", "conn.go:init")])
prop("C08", "The security handshake follows its command sequence and payloads are kept",
 "Under NULL each side sends one READY with its metadata and accepts only READY; under PLAIN the client sends HELLO (with the user name and password as length-prefixed strings) then INITIATE, the server WELCOME then READY, and each side refuses any other command where HELLO, WELCOME, INITIATE or READY is due. After a successful handshake both ends hold the peer's metadata, and the mechanism passes payload bytes through unchanged in both directions.",
 ["inputs", "histories"], "both mechanisms, both roles, every command the peer may send at each step, every credential of up to 255 bytes, any number of handshakes with one mechanism value",
 "Tests run the library against itself on the success path; no test sends a wrong command at each step or inspects the exchanged bytes.",
 ["security.go", "null_security.go", "security/null/null.go", "security/plain/plain.go"], [("NULL", "security.go:nullSecurity.Handshake, security/null"), ("PLAIN", "security/plain/plain.go:Handshake")])
prop("C09", "REP strips the return envelope and sends it back with the reply",
 "For a request whose frames are an address envelope, the first empty frame and a body, REP delivers exactly the body, and the reply goes only to the connection that sent that request, carrying the same envelope and delimiter followed by the reply's frames. A request with no empty delimiter is an error and is not delivered; a reply to a connection that has gone is dropped.",
 ["inputs", "histories"], "every envelope and body, including bodies with empty frames, any number of connections and interleavings of requests",
 "Tests use one or two hops with non-empty bodies; bodies that contain empty frames and interleaved requesters are not covered.",
 ["rep.go"], [("envelope split", "rep.go:splitReq"), ("reply assembly", "rep.go:buildReplyMsg, sendPayload"), ("current requester", "rep.go:repState")])
prop("C10", "REQ adds and removes the delimiter and reads from the peer it asked",
 "Each request is sent to exactly one live connection as an empty delimiter frame followed by the request's frames, connections taking turns; a connection whose send fails is skipped in favour of the next, and an error is returned only if none accepts it. The reply (a delimiter and at least one frame) is read from the connection that got the last request and is delivered without its delimiter.",
 ["inputs", "histories"], "every message, every number of connections, every history of connections joining, failing and leaving",
 "Tests use one or two connections that stay up, so index arithmetic over a changing list and fail-over are not covered.",
 ["req.go"], [("send with fail-over", "req.go:reqWriter.write"), ("reply affinity", "req.go:reqState, reqReader.read"), ("leaving connections", "req.go:reqWriter.rmConn")])
prop("C11", "ROUTER labels by sender identity and routes by exact identity",
 "Every message ROUTER delivers is the sending peer's identity frame followed by that peer's frames unchanged, in that peer's order; peers without an identity get a fresh non-empty one. A message sent through ROUTER goes, without its first frame, exactly to the peer whose identity equals that frame and to no other.",
 ["inputs", "histories"], "every identity, message, and set of connected peers",
 "Tests use few peers with clearly different identities; prefixes of each other, embedded empty frames and unknown identities are not covered.",
 ["router.go", "socket.go"], [("labelling", "router.go:routerQReader.listen"), ("routing", "router.go:routerMWriter.write"), ("assigned identity", "socket.go:addConn")])
prop("C12", "PUB and XPUB deliver to a subscriber exactly the matching messages",
 "A subscriber connection receives a published message iff, when the message is handed to that connection, its subscription set contains a prefix of the message's first frame (the empty topic matches all), unless its queue was full (high-water mark), each at most once, whole and in publication order. A one-frame message starting with 1 adds its remaining bytes as a topic, one starting with 0 removes that topic and nothing else, and the publisher's topic list is the sorted duplicate-free union over its current connections.",
 ["inputs", "histories"], "every set of subscribers, topics and messages, every order of subscribe, unsubscribe, publish, join and leave",
 "Tests use a few disjoint topics; nested prefixes, removal of one of several overlapping topics, and subscriber churn are not covered.",
 ["pub.go", "xpub.go", "conn.go", "socket.go"], [("filter", "conn.go:subscribed"), ("subscription set", "conn.go:subscribe"), ("subscription frames", "pub.go:topic, listen"), ("per-subscriber queue", "pub.go:pubMWriter"), ("union", "socket.go:topics")])
prop("C13", "SUB's topics are a set, announced on change and again to every new peer",
 "A SUB socket's topic list is the sorted set of topics subscribed and not unsubscribed since. Each subscribe or unsubscribe is announced to the connected publishers as one frame of 1 or 0 followed by the topic, and every connection made later is told all topics held at that time.",
 ["inputs", "histories"], "every topic string, every sequence of subscribe, unsubscribe and connect",
 "Tests subscribe before or after one connect; sequences with removals, duplicates and several peers are not covered.",
 ["sub.go", "socket.go"], [("topic set", "sub.go:subscribe, Topics"), ("announcement", "sub.go:SetOption"), ("replay to new connections", "socket.go:addConn")])
prop("C14", "Each message goes whole, once, and in order to each open connection",
 "A message sent on a PAIR, PUSH, DEALER, SUB or XSUB socket is written exactly once to each of the socket's connections, and messages sent concurrently are never interleaved within a connection. On the receiving side every message a peer sent is delivered exactly once, whole and in that peer's order, for any number of peers; connections that left get nothing more.",
 ["inputs", "schedules", "histories"], "every message, every number of connections, concurrent senders, connections joining and leaving",
 "Tests use one sender and a few messages; concurrent multi-frame sends and several simultaneous peers with per-peer order are not checked.",
 ["msgio.go", "socket.go", "conn.go"], [("fan-out under lock", "msgio.go:mwriter.write"), ("fan-in queue", "msgio.go:qreader"), ("membership", "msgio.go:addConn, rmConn; socket.go:addConn, rmConn")])
prop("C15", "Closed and one-directional sockets fail cleanly",
 "After Close, Close itself, Listen, Dial, and Send, SendMulti and Recv return an error without blocking, and receives already blocked return. Receiving on PUSH or PUB and sending on PULL always fails, a socket listens at most once, and reads and writes on a connection marked closed fail.",
 ["histories", "configurations"], "every socket type and every sequence of API calls around Close",
 "Tests cover Close for some types; not each operation of each type after Close nor blocked calls at Close.",
 ["socket.go", "pub.go", "push.go", "pull.go", "rep.go", "req.go", "router.go", "conn.go"], [("closed flag", "socket.go:Close, Send, Recv, Listen, Dial"), ("cancellation", "socket.go:cancel; pools' read"), ("connection closed flag", "conn.go:Closed")])
prop("C16", "Queue is a FIFO for every history",
 "For every history of Push, Pop, Peek, Len and Init, Peek returns the oldest value not yet popped (and false iff there is none), Pop removes exactly that value, Push appends, Init empties, and Len is the number of values pushed and not popped.",
 ["histories"], "every sequence of operations of any length",
 "Tests run a few linear sequences; interleavings around the internal block size of 512 are not covered.",
 ["queue.go"], [("blocks in a list", "queue.go:Push, Pop, Peek, Init")])
prop("C17", "Message values: constructors, Bytes and Clone",
 "Constructors give a message whose frames are exactly the given frames or strings in order; Bytes is the concatenation of all frames in a slice of its own; Clone has the same frames in memory of its own, so that changing either afterwards does not affect the other.",
 ["inputs"], "every list of frames, including empty lists and empty frames",
 "Tests use one or two short frames and do not check aliasing.",
 ["msg.go"], [("constructors", "msg.go:NewMsg, NewMsgFrom, NewMsgString, NewMsgFromString"), ("values", "msg.go:Bytes, Clone")])
prop("C18", "inproc connections carry a reliable byte stream",
 "Bytes written on one end of an inproc connection are read on the other end in order, without loss, duplication or alteration, whatever the sizes of writes and reads, and the writer may reuse its buffer. After one end closes, the other reads what was written before and then end of file, its writes fail, and blocked reads, writes and dials return.",
 ["inputs", "schedules", "histories"], "every sequence of write and read sizes, every interleaving of closes and blocked operations",
 "Tests read with buffers as large as the writes; short reads, buffer reuse, and close against blocked operations are not covered.",
 ["internal/inproc/conn.go", "internal/inproc/inproc.go"], [("byte stream", "internal/inproc/conn.go"), ("rendezvous", "internal/inproc/inproc.go:Listen, Accept, Dial, Close")])
prop("C19", "Endpoints parse uniquely and transports are registered once",
 "An endpoint is accepted iff it is a registered transport name, one '://' and an address, and it is passed on as exactly that name and that address's canonical form: for tcp and udp an empty or '*' host becomes 0.0.0.0 and an empty, '0' or '*' port becomes 0, everything else is kept, and other transports keep the address as it is. Registering a taken name is an error that leaves the first registration in force, and the list of transports is sorted and complete.",
 ["inputs", "histories"], "every endpoint string and every sequence of registrations",
 "Tests use a fixed table of addresses; wildcard combinations, IPv6 hosts and repeated separators are not all covered.",
 ["utils.go", "transport.go", "transport/transport.go"], [("endpoint split", "utils.go:splitAddr"), ("registry", "transport.go:transports"), ("canonical address", "transport/transport.go:Addr")])
prop("C20", "The networking layer routes each message to its handler exactly once",
 "A received message is given once to the handler registered for its type, with all fields as sent, unless it is this node's own broadcast; malformed data only counts as dropped. The peer list holds each connected peer once and changes only by connecting and disconnecting, sends stamp the sender and go only to the named peer (an unknown peer is an error), and retries stop at the first success or after the configured number of attempts.",
 ["inputs", "histories"], "every message, every sequence of register, unregister, connect, disconnect and send",
 "There are no tests for this package.",
 ["networking/transport.go"], [("dispatch", "networking/transport.go:processMessage"), ("peers", "networking/transport.go:ConnectPeerWithAddress, DisconnectPeer"), ("sends", "networking/transport.go:Send, Broadcast, SendWithRetry, BroadcastWithRetry")])
prop("C21", "Proxy forwards every message unchanged, in order, in both directions",
 "While both sockets work, each message received on one side is sent exactly once on the other with the same frames and in the order received. The first error from either side ends the proxy with that error, and a missing socket is refused at once.",
 ["inputs", "histories", "fault_sequences"], "every message sequence in both directions, every failure point",
 "Tests forward a few messages one way and do not fail each operation in turn.",
 ["proxy.go"], [("forwarders", "proxy.go:Proxy")])
prop("C22", "Socket options take effect as documented and unknown ones are refused",
 "Reading an option returns the value last set on that socket and fails for an option never set; a socket created with an identity announces exactly that identity (at most 255 bytes) and otherwise a fresh one. On PUB the high-water mark only accepts a non-negative integer and bounds the messages queued per later subscriber, further ones being discarded without blocking; SUB accepts only subscribe and unsubscribe.",
 ["inputs", "histories"], "every option name and value, every socket type",
 "Tests set one or two options; other names, wrong value types and identity lengths are not covered.",
 ["options.go", "socket.go", "pub.go", "sub.go", "socket_types.go"], [("option store", "socket.go:GetOption, SetOption"), ("high-water mark", "pub.go:SetOption, addConn, write"), ("identity", "options.go:WithID, socket.go:newSocket, socket_types.go:String")])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for p in P: f.write(json.dumps(p) + "\n")
