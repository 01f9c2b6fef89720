CLAIMS = {
"C01": "Proof of the written bytes for every message, frame size and flag under the contracts of conn.go's senders; assumes the io.Writer/net.Buffers models and the Encrypt interface contract (proved for NULL and PLAIN).",
"C02": "Proof over readBody, Conn.read and Conn.RecvMsg for every input stream and chunking; assumes the io.ReadFull model and the Decrypt interface contract (proved for NULL and PLAIN).",
"C06": "Proof over Cmd.marshalZMTP, Cmd.unmarshalZMTP, Conn.SendCmd, RecvCmd and RecvMsg for every name, body and stream.",
"C17": "Proof over the constructors, Bytes, size and Clone of Msg for every frame list, including the freshness of the returned memory.",
"C16": "Proof over NewQueue, Init, Len, Push, Peek and Pop for every history: the representation invariant ties the chunks to the log of pushed values; assumes container/list behaves as a sequence.",
"C04": "Proof over asString, asBool, greeting.marshal/read/write and Conn.greet: bytes sent, and acceptance iff the peer's greeting is well formed, for every 64-byte greeting; assumes the io.Writer/io.ReadFull models.",
"C07": "Proof of SocketType.IsCompatible against RFC 23's table for every pair of strings, of the symmetry lemma and of init and Open for any security mechanism.",
"C05": "Proof over Property.Read/Write and Metadata.MarshalZMTP/UnmarshalZMTP for every map and block; names limited to RFC 23's ASCII characters on the encoding side; case conversion of such names is trusted to keep their length.",
"C08": "Proof over the NULL handshakes (socket default and security/null), the PLAIN client and server handshakes, PLAIN's constructor, Encrypt and Decrypt of all three and what Open announces, for every command stream and metadata; over the contracts of SendCmd, RecvCmd and the metadata codec.",
"C09": "Proof over splitReq, buildReplyMsg, repState, repReader.read/listen/addConn/rmConn and repWriter.write/sendPayload/addConn/rmConn/run (each queued reply is sent), for every request, envelope and list of connections, over the contracts of Conn.read and Conn.SendMsg; assumes channel and lock semantics (a guarded field may change whenever its lock is not held).",
"C10": "Proof over reqWriter.write/addConn/rmConn and reqReader.read (with reqState's methods in place), for every message, every number of connections, every position of the turn and every subset of failing connections, over the contracts of Conn.SendMsg and Conn.read; assumes lock semantics (a guarded field may change whenever its lock is not held).",
"C11": "Proof over routerQReader.listen/addConn/rmConn/read, routerMWriter.write/addConn/rmConn, their constructors and socket.addConn (naming of anonymous peers), for every message, identity and list of connections, over the contracts of Conn.read, Conn.SendMsg and newUUID (trusted: 36 characters; that two differ is only tested).",
"C12": "Proof over Conn.subscribe/subscribed, pubQReader.topic/listen/addConn/rmConn/read, pubMWriter.addConn with its per-subscriber goroutine/rmConn/write and socket.topics (sorted, without duplicates, exactly the topics of the connections the socket has), for every topic set, message and list of subscribers; assumes channel, map-iteration and lock semantics.",
"C13": "Proof over subSocket.subscribe/Topics/SetOption and socket.addConn (replay to later connections), for every topic string and topic set, over the contracts of socket.Send and sort.Strings (trusted: same elements, ascending).",
"C14": "Proof over mwriter, qreader, routerMWriter/routerQReader and socket membership (addConn, rmConn, scheduleRmConn, the accept loop, the connection reaper, how a lost connection reaches its owner, Send, SendMulti, Recv), Conn.SendMsg/SendCmd under the write lock, for every message and list of connections; goroutines of an errgroup are run in place (each touches its own connection); schedules are covered by lock ownership and interference at every acquisition.",
"C15": "Proof over socket.Close, Listen, Dial, Send, SendMulti and Recv, the same six of every one of the twelve socket types, and Conn's reads and writes when marked closed, for every socket state, with what other goroutines do to a socket bounded by proved two-state lock clauses (closed stays closed, one listener, none after Close); that blocked receives return and nothing blocks is decided by the replay harness.",
"C18": "Proof over inproc conn.read/write/Read/Write/Close, isClosedChan, pipeDeadline.wait/set (memory safety), newPipe, pipe.Close, Listen, Accept, Dial, Listener.Close and the transport, for every chunk sequence and buffer size; assumes channel and lock semantics and that the reader's buffer is not the private copy a write made; that blocked calls return, and when deadlines expire, is decided by the replay harness.",
"C19": "Proof over splitAddr, the transport registry (get, add, names, RegisterTransport, Transports), netTransport.Addr/Dial/Listen, inproc's transport and what socket.Listen and Dial hand on, for every endpoint and registry; trusted: strings.Split and net.SplitHostPort/JoinHostPort as fixed functions (Split characterised by the first occurrence of its separator), sort.Strings; a transport's Addr is taken to be a function of its argument.",
"C22": "Proof over GetOption and SetOption of the socket core and all twelve socket types, the WithX option closures, newSocket (any list of options, each an arbitrary function of the socket's option fields) and the twelve constructors with the pools they build, SocketIdentity.String and the metadata announced; each for every input. That a high-water mark bounds what is queued follows from the queue's capacity (proved) and Go's channel semantics (assumed); retries, timeouts and reconnecting are decided by the replay harness.",
"C21": "Proof over Proxy and its two forwarding goroutines, for any sockets and any number of messages: each iteration receives one message and hands the same message on, a failing Recv or Send ends the direction and its error is the one delivered, a nil socket is refused before anything is started. The sockets are taken by contract (what Recv delivered, what Send accepted); the directions are verified separately, not interleaved.",
"C20": "Proof over every function of the networking layer (New, Start, Stop, ConnectPeer, Send, Broadcast, the retrying variants, the receive loops, handler dispatch, peer list, metrics), for any message, peer and handler table. Sockets are taken by contract (dialled, bound, accepted, delivered), JSON as a fixed function of the exported fields with Unmarshal its inverse, a handler started with go counts as called at the go statement; retry delays and the goroutines' ends are decided by the replay harness.",
"C03": "Proof that no run-time panic can occur in the functions that handle a peer's bytes (greeting, handshakes of NULL and PLAIN, metadata, commands, frames, subscriptions, envelopes, every socket type's listening loop) for every input, and that each make, append and conversion in readBody, Conn.read, Cmd.unmarshalZMTP, Property.Write, Metadata.UnmarshalZMTP and Conn.subscribe is bounded by a constant or a multiple of the bytes received so far. Slices are assumed to fit a 47-bit address space; append's growth factor and bytes.Buffer's growth are the run time's.",
}
NOT = {}
