TODO = "not claimed yet: the check for it is being built"

prop("C01", "Nothing a remote peer sends can crash the client",
  "Whatever bytes a remote peer sends on a connection, before or after the handshake, no goroutine that handles the peer panics or dies with a runtime error: malformed, truncated, oversized or out-of-range messages are rejected or ignored. This covers receiving, decoding every message type, serving requests, accepting the peer's bitfield and recording which pieces the peer has.",
  ["inputs"], "every byte sequence received from a peer, in any chunking, for every torrent that loads",
  "The tests decode a handful of well-formed and a few malformed messages and never run the message handlers; one index or length that is not checked against the data takes the whole process down.",
  ["src/p2p", "src/bf/bitfield.go", "src/swarm/msghandler.go", "src/swarm/piecetracker.go", "src/swarm/peerhandler.go", "src/swarm/handshake.go"],
  [("length checks in Decode and the per-type decoders", "src/p2p/message.go"), ("bounds checks in handleRequest and handleBitfield", "src/swarm/msghandler.go")],
  AI + "; class invariants proved at constructors and methods",
  SOUND + "Every function reached from a connection is interpreted for unconstrained arguments under class invariants that are themselves proved; every operation that can panic is an obligation. Nil pointers are tracked for locals, results and stored nils, not for arbitrary heap pointers.",
  observe=["swarm.FromIncoming", "swarm.FromBootstrap", "PeerHandler.Loop"])

prop("C02", "Hostile torrent files and tracker replies never crash the client",
  "Whatever bytes a torrent file or a tracker's HTTP reply contains, loading it either succeeds or returns an error: no panic, no runtime error and no unbounded recursion. This includes bencode decoding, building the torrent's metadata, laying out its files and interpreting the reply.",
  ["inputs"], "every byte sequence used as a torrent file or as a tracker reply",
  "The tests load a few valid files; sizes, nesting, missing keys and wrong types are unbounded.",
  ["src/bencode", "src/torrent", "src/torrent/info", "src/torrent/filesd", "src/tracker"],
  [("bounds checks in the decoder", "src/bencode/decode.go"), ("validation of the metadata", "src/torrent/info/info.go")],
  AI + "; recursion measures on the call graph",
  SOUND + "Loading functions are interpreted for unconstrained input; panics inside a call that recovers are contained by construction and the recovery is checked to be in place before them; each recursive component needs a bounded measure.",
  observe=["torrent.FromTorrentFile", "bencode.Decode", "tracker.Get"])

prop("C03", "Parsing and generating always finish",
  "Decoding and encoding bencode, decoding peer messages, building the metadata and the piece map of a torrent, interpreting a tracker's reply, generating the block requests for a piece, counting bits, growing a file, and reading or writing a piece all finish for every input: each loop makes progress towards its end on every iteration and each recursion is bounded.",
  ["inputs"], "every input of the parsers and generators",
  "A loop that fails to advance on one unusual input hangs the goroutine for ever; tests only see the inputs they sample.",
  ["src/bencode", "src/p2p/message.go", "src/torrent", "src/tracker", "src/swarm/peerhandler.go", "src/utils", "src/bf"],
  [("cursor advance in the decoder", "src/bencode/decode.go"), ("loop conditions of the generators", "src/swarm/peerhandler.go, src/torrent/filesd/entry.go")],
  AI + "; synthesis of ranking measures for loops and recursion",
  SOUND + "Complete over all inputs for every loop reached from the listed functions. Creating a torrent from local files (whose loop ends with the file) and random peer ids are outside.",
  observe=["bencode.Decode", "p2p.DecodeAll", "torrent.FromTorrentFile"])

prop("C04", "Every outgoing message has the exact BEP 3 byte layout",
  "For every message type and every field value, the encoded message is exactly the byte sequence BEP 3 prescribes: a 4-byte big-endian length that counts the id and the payload, the id, then the fields in order as 4-byte big-endian integers followed by the block or the bits; a keep-alive is four zero bytes. Type, length and field accessors of a message agree with that encoding, and encoding neither changes the message nor the bitfield it was made from.",
  ["inputs"], "every message type and every combination of field values",
  "Tests encode one or two values per type; a byte that is wrong only for large indices, offsets or lengths, or a layout no test pins, goes unnoticed until a foreign client rejects it.",
  ["src/p2p"], [("Encode of each message type", "src/p2p/*.go"), ("message constructors", "src/p2p/*.go")],
  AI, SOUND + "Complete over all field values: the abstract byte sequence produced by constructor and Encode must equal the specified sequence on every path. Blocks and bitfields shorter than 2^32-16 bytes.",
  observe=["p2p.NewMsg*", "Message.Encode"])

prop("C05", "Decoding inverts the wire format exactly",
  "A complete well-formed message at the start of a buffer is always accepted, decodes to the message type its id stands for, re-encodes to exactly the bytes it came from and consumes exactly those bytes; nothing that is not a complete well-formed message is accepted as one. Decoding a buffer yields the messages in order, starting each where the previous one ended, drops none that decodes and reports exactly the bytes the accepted messages took.",
  ["inputs"], "every byte buffer, with messages of every type, field value and length",
  "Tests decode a few fixed buffers; truncation points, length fields and byte values are unbounded.",
  ["src/p2p"], [("Decode, DecodeAll and the per-type decoders", "src/p2p/message.go")],
  AI, SOUND + "Complete over all buffers shorter than 64 GiB: acceptance, type, consumed length and re-encoding are decided for unconstrained bytes; DecodeAll by a relational loop invariant.",
  observe=["p2p.Decode", "p2p.DecodeAll"])

prop("C06", "Decoded messages own their data",
  "A decoded message holds no reference to the receive buffer: overwriting the buffer after decoding, as the receive loop does, never changes a message that was decoded from it, and decoding never writes to the buffer. Two decoded messages that carry data are never the same object.",
  ["inputs", "histories"], "every received buffer and every later reuse of it",
  "Tests never reuse the buffer after decoding; aliasing shows only when the next read overlaps the handling of the previous one.",
  ["src/p2p", "src/io/readloop.go"], [("copies made by the decoders", "src/p2p/piece.go, src/p2p/bitfield.go")],
  "points-to analysis over the abstract heap of an abstract interpretation", SOUND + "Complete for every path of Decode: no slice reachable from a returned message has the input as backing array.",
  observe=["p2p.Decode"])

prop("C07", "No peer is handled before a valid handshake",
  "For incoming and outgoing connections alike: a peer handler is created and run only after exactly 68 bytes were read from that connection, under a deadline, and found to be a handshake for the torrent being served (length byte 19, the protocol name, the torrent's infohash; any reserved bytes and peer id). A valid handshake is accepted. An incoming peer is sent nothing before that; it then gets our own handshake (19, protocol name, 8 zero bytes, infohash, peer id) followed by the bitfield message, and an outgoing peer gets our handshake. Every failure to read, write or validate is an error and yields no handler.",
  ["inputs", "histories"], "every 68 bytes a peer may send, every failure of the connection, every torrent",
  "The tests never open a connection; they compare one handshake against itself.",
  ["src/swarm/handshake.go", "src/swarm/peerhandler.go", "src/swarm/swarm.go"],
  [("ValidHandshake and MakeHandshake", "src/swarm/handshake.go"), ("FromIncoming, FromBootstrap", "src/swarm/peerhandler.go"), ("where handlers are run", "src/swarm/swarm.go")],
  AI + "; typestate of the connection (read, validated, written) per path",
  SOUND + "Complete over the bytes received and the failing calls. That the caller runs only handlers returned without error is decided at every place that starts one.",
  observe=["swarm.FromIncoming", "swarm.FromBootstrap", "swarm.ValidHandshake", "swarm.MakeHandshake"])

prop("C08", "A served block is exactly the requested bytes",
  "For every request a peer sends, what is sent back on its connection is either nothing or exactly one piece message carrying the requested index and offset and exactly the requested bytes of that piece as stored, and this only when the piece exists, is set in our bitfield and the range lies inside the piece. A request for 1 to 16384 bytes inside such a piece is answered unless reading or sending fails. Several requests received together are answered in order, each with its own block; after a failed read nothing is sent from the buffer. The rate limiter passes the bytes on unchanged, once, to the connection it was given and reports a failed write.",
  ["inputs"], "every index, offset and length of one or two requests received together, every bitfield, every torrent",
  "No test sends a request through a handler; a wrong offset or a stale buffer shows only as corrupt data at a foreign client.",
  ["src/swarm/msghandler.go", "src/swarm/peerhandler.go", "src/p2p/piece.go", "src/io/ratelimit.go"],
  [("handleRequest", "src/swarm/msghandler.go"), ("piece message encoding", "src/p2p/piece.go"), ("RateLimitIO.Write", "src/io/ratelimit.go")],
  AI, SOUND + "Complete over all values of one and of two requests in a buffer; longer series repeat the same handler in a state that is arbitrary again. What ReadPiece reads is taken as the stored piece (C12 and C18 deal with files).",
  observe=["PeerHandler.Loop (bytes written to the connection)"])

prop("C17", "The rate limits hold",
  "The upload and download limits of the rate limiter are bytes per second. While a limit is set, a Write or Read through the limiter starts only after seeing, with other limited transfers kept out, that fewer bytes than the limit were counted in the current second, and its own bytes are counted before the next one may look; a transfer waits only while a limit is set and used up, so without a limit nothing waits. Each transfer is counted exactly once, with its size, and holds no lock when it ends. A transfer that gives no error transferred all of the caller's data, each byte once; a failure is given as an error. What was counted is forgotten when the clock starts and at each tick, once a second, and never otherwise. Setting a limit takes effect also for transfers that are already waiting; negative means no limit. The swarm's limits are those of the options, its clock runs, and every block sent in answer to a request passes the limiter, as does what is read from peers.",
  ["inputs", "schedules"], "every interleaving of transfers, limit changes and ticks (each load of a shared counter may give any value), every size and limit",
  "Tests time a few transfers of one goroutine; a limit that two concurrent transfers can overrun, or a lock that is kept, shows only under particular schedules.",
  ["src/io/ratelimit.go", "src/swarm/swarm.go", "src/swarm/msghandler.go"],
  [("Write, Read, Run, SetReadRate, SetWriteRate", "src/io/ratelimit.go"), ("NewSwarm", "src/swarm/swarm.go")],
  AI + " with lock typestate and thread-modular havoc of shared counters",
  SOUND + "The counters are those accessed with sync/atomic; tickers and mutexes are trusted. KNOWN-FINDING: what is read from peers does not pass the limiter, so the download limit has no effect.",
  observe=["io.RateLimitIO", "swarm.NewSwarm"])

prop("C18", "A session ends completely",
  "The first failure of any goroutine that serves a peer (reading, handling what was read, requesting, keeping alive) is reported and ends the whole session: the others are told to stop, the connection is closed, they are waited for, and only then the peer is unregistered from the piece tracker, once. Every goroutine of the session that waits also waits for the signal to stop, every loop that does not end by itself looks for it in every round, and after it nothing more is sent, read or handled; nothing that is sent on a channel can block for ever, no channel is closed twice or sent on when closed, and what sessions report is always received. A loop that never ends waits for something in every round. A connection whose handshake fails is closed, in both directions; one whose handshake succeeds stays open.",
  ["schedules", "histories"], "every order of failures, messages and signals, for any number of messages",
  "The tests never run a session; a goroutine that stays blocked, a group that is never complete or a peer that stays registered shows only under particular orders of failures.",
  ["src/swarm/peerhandler.go", "src/swarm/swarm.go", "src/io/readloop.go"],
  [("Loop, recvLoop, requestLoop, pingLoop", "src/swarm/peerhandler.go"), ("Run, Ready, Finish", "src/io/readloop.go"), ("Start", "src/swarm/swarm.go")],
  AI + " per goroutine with typestate of channels and wait groups; capacity and turn-taking arguments over all goroutines",
  SOUND + "Sound for blocking on channels and groups, given that reads and writes on a closed connection return. Waiting for the rate limit and for locks is not counted as blocking (C17; locks are held for bounded work).",
  observe=["PeerHandler.Loop", "swarm.FromIncoming", "swarm.FromBootstrap"])

prop("C21", "A torrent is what its file says",
  "A loaded torrent has the announce URL and the info dictionary of the file it was read from, all of it: its infohash is the SHA-1 of the bencoded info dictionary, and its name, piece length, piece hashes and files are those in that dictionary, a single file when the dictionary has a length and otherwise the files of its list, in order, each with its own length and its path joined by slashes. The length of a torrent is the sum of the lengths of its files, none of which is negative, the number of pieces is the number of 20-byte hashes and exactly covers the length, the last piece has what the others leave, and the hash of piece i is the i-th. A file that cannot be read or decoded, or lacks what is needed, is an error; and nothing changes a torrent after it was loaded.",
  ["inputs", "histories"], "every torrent file, with any number of files and path parts",
  "The tests load a few known torrents; an infohash or a size that is wrong only for some shape of dictionary or list makes the client join no swarm, or the wrong one.",
  ["src/torrent/torrent.go", "src/torrent/info/info.go", "src/torrent/filesd/entrybase.go"],
  [("FromTorrentFile", "src/torrent/torrent.go"), ("FromDict, NewTorInfo, PieceHash", "src/torrent/info/info.go"), ("FromBenList, CalcNumPieces", "src/torrent/filesd/entrybase.go")],
  AI + " with relational loop invariants; effect analysis of what runs after loading",
  SOUND + "Complete over all dictionaries, lists and paths; SHA-1 is uninterpreted, decoding and encoding are C25 and C24, and sums of lengths are taken not to overflow. Which dictionaries are refused as metadata is not decided here (C11 and C02 deal with the reasons).",
  observe=["torrent.FromTorrentFile", "Torrent and TorInfo getters"])

prop("C22", "The announce request tells the tracker the truth",
  "The request that announces the client is a GET to the torrent's announce URL that keeps the URL's own parameters and adds exactly once each: the torrent's infohash, the client's peer id, its port, the bytes uploaded and downloaded, the bytes left and compact=1, each correctly encoded. At start the torrent announced is the one loaded, the id is the one used in handshakes, the port is the one of the options and the one listened on, nothing counts as transferred, and left is the exact sum of the sizes of the pieces that the check of the files did not find.",
  ["inputs", "histories"], "every torrent, announce URL, port and peer id; every set of pieces that are had",
  "Tests cannot talk to a tracker; a wrong parameter is silently accepted by trackers and starves or bans the client.",
  ["src/tracker", "src/swarm/swarm.go"], [("newRequest", "src/tracker/tracker.go"), ("NewSwarm", "src/swarm/swarm.go")],
  AI,
  SOUND + "url.Values.Encode is trusted to percent-encode; the size of the last piece is taken from the metadata and taken to be at least 0.",
  observe=["tracker.Get", "swarm.NewSwarm"])

prop("C23", "The tracker's reply is read exactly",
  "A reply that gives a failure reason, cannot be fetched or decoded, lacks a required number, or has a malformed list of peers gives an error. Otherwise every number reported is the one in the reply, and the peers are exactly those of the reply, in its order: one for each six bytes of a compact list (four bytes of address, two of port, most significant first), or one for each entry of a list, with that entry's address, port and id, and reached at that address and port.",
  ["inputs"], "every reply of a tracker, with any number of peers",
  "Tests read one or two small replies.",
  ["src/tracker", "src/peer"], [("newResponse, GetPeers", "src/tracker/tracker.go"), ("MakePeer", "src/peer/info.go")],
  AI,
  SOUND + "The functions of package net are uninterpreted; the keys of a decoded dictionary are those that the decoder found.",
  observe=["tracker.Get"])

prop("C26", "A bitfield is an exact bit vector",
  "A bitfield behaves as a vector of bits in BEP 3 order (bit i is bit 7-i%8 of byte i/8): Get(i) is bit i, Set(i, v) changes bit i to v and no other, the number of set bits is always exactly the number of ones among the first Nbits bits, Complete is true exactly when all of them are set, a new bitfield is all zero, and Data is those bytes. A bitfield made from received bytes holds those bits and counts only bits inside its size, and resizing it keeps the bits; filling it sets all of them and no other; sizes that do not match the bytes are rejected.",
  ["inputs", "histories"], "every bitfield, position and value, and every sequence of operations (by induction over the invariant)",
  "Tests set a few positions of a few sizes; a count that drifts after an idempotent Set, or padding bits that are counted, makes a download finish early or never.",
  ["src/bf/bitfield.go"], [("Get, Set, Complete, SetNbits, FromBytes, NewBitfield", "src/bf/bitfield.go")],
  AI + "; bit-level case split, induction over the class invariant",
  SOUND + "Get, Set, Complete and new bitfields: complete over all sizes. Counting and resizing whole bitfields: every content up to 19 bits (quick) or 67 bits (thorough); filling: from empty up to the same sizes, from every content up to 5 bits.",
  observe=["bf.Bitfield"])

prop("C28", "Requests for a piece cover it exactly",
  "The block requests made for a piece are in order, start at offset 0, are each between 1 and 16384 bytes long, start where the previous one ends and end exactly at the end of the piece; the last piece uses its own length. All of them carry the piece's index, and when a piece is assigned to a peer exactly these requests are sent to that peer, each once.",
  ["inputs"], "every piece of every torrent that loads, including a shorter last piece",
  "No test generates requests; a rounding error only matters for piece lengths that are not multiples of 16 KiB.",
  ["src/swarm/peerhandler.go", "src/p2p/request.go", "src/torrent/info/info.go"],
  [("createReqMessages and requestLoop", "src/swarm/peerhandler.go")],
  AI + "; relational loop invariant on where the next request begins",
  SOUND + "The generator is decided for every piece of every torrent; what is sent is followed for four piece sizes.",
  observe=["PeerHandler request loop"])

prop("C30", "A running handler writes nothing but whole messages",
  "Everything a running peer handler and the goroutines it starts write to the peer's connection is one or more whole well-formed BEP 3 messages: the length field counts exactly the bytes that follow it, the id is a known one and the length fits it, and a keep-alive is four zero bytes. A running handler unchokes its peer. Choking a peer sends exactly a choke message, and its failure is reported.",
  ["inputs", "schedules"], "every message received, every failing call, every goroutine of a handler",
  "No test looks at what a handler writes; one truncated or padded message desynchronises the stream for the rest of the connection.",
  ["src/swarm/peerhandler.go", "src/swarm/msghandler.go", "src/p2p", "src/io/ratelimit.go"],
  [("Loop and the goroutines it starts", "src/swarm/peerhandler.go"), ("replies to messages", "src/swarm/msghandler.go")],
  AI + "; effects collected over the call graph",
  SOUND + "Every write that is reached from a handler's methods and goroutines is an obligation on the abstract byte sequence. Writes by two goroutines of one handler are each one call of Write, which the net package serialises.",
  observe=["PeerHandler.Loop (bytes written to the connection)"])

prop("C13", "Goroutines do not race",
  "No place in memory that one of the client's goroutines writes is read or written by another at the same time: the tracker of pieces, with its lists and sets, is only touched under its mutex, also by the methods that sessions call; the counts and rates of the rate limiter only atomically; a file is not written, closed or seeked while another goroutine uses it; the state of a session, and what sessions share (our own bitfield, the torrent, the buffers), is either its goroutine's own or not changed after the goroutines start. The receive buffer of a session is not read into while it is being handled, and not used after it was handed back. Every lock that is taken is released before the goroutine ends or waits for another, is never taken twice by one goroutine, and locks are taken in one order.",
  ["schedules"], "every interleaving of any number of sessions, of the client's own goroutines and of calls of the exported methods of the shared types",
  "The tests are sequential; a race needs two peers to act within nanoseconds of each other, and the race detector sees only the schedules that it is shown.",
  ["src/swarm", "src/io", "src/torrent/fileio/fileio.go"],
  [("Register, RegisterBF, Unregister, NextPiece", "src/swarm/piecetracker.go"), ("Loop, recvLoop, requestLoop, pingLoop", "src/swarm/peerhandler.go"), ("Read, Write, Run", "src/io/ratelimit.go"), ("Run", "src/io/readloop.go"), ("ReadPiece, WritePiece, Close", "src/torrent/fileio/fileio.go")],
  "lockset analysis (Eraser-style, static) over the thread tree by " + AI + "; lock-order graph; hand-over typestate of the receive buffer",
  SOUND + "Places are told apart by field, so the verdict covers every instance; elements of slices by the field that holds the slice. FileIO.OCAT, constructors and the options are only for before the goroutines run. Moving a file while it is open is not counted as a use of it.",
  observe=["RateLimitIO", "PeerPieceTracker", "FileIO", "ReadLoop"])

prop("C15", "A piece is assigned to one peer at a time, and only if it is needed and offered",
  "When the piece tracker assigns a piece to a peer, the piece is not yet ours, the peer has announced it, and it is not being fetched from any peer; it is marked as being fetched and recorded for that peer in the same critical section, and its own index is returned. Pieces are searched from the rarest list upwards, none that qualifies is passed over, and nothing is assigned only when no announced piece qualifies. A piece stays marked until the peer it is recorded for leaves; nothing else changes the mark or the index of a piece. A new tracker holds every piece once, under its index, unassigned.",
  ["histories", "schedules"], "every state of the tracker, every peer, every interleaving of its operations",
  "The tests assign a few pieces to one or two peers in one goroutine; two peers fetching the same piece, or a piece nobody ever fetches again, needs a particular history.",
  ["src/swarm/piecetracker.go"], [("NextPiece", "src/swarm/piecetracker.go"), ("Unregister, NewPeerPieceTracker", "src/swarm/piecetracker.go")],
  AI + "; ghost state for the traversal, membership and bits as uninterpreted predicates, whole-program scan of field writes",
  SOUND + "Complete for every state of the tracker: each operation is interpreted once on an arbitrary one. That the lists contain each piece exactly once follows from C16 and the container code.",
  observe=["PeerPieceTracker.NextPiece"])

prop("C16", "A leaving peer releases everything, availability is exact",
  "At every time a piece counts as available from exactly the peers that announced it and have not left since: announcing pieces (one, two, or a bitfield) adds exactly the announced ones and announcing again changes nothing, leaving removes the peer from every piece. Each piece is in exactly one list, that of the number of peers that have it (the last list for 63 and more). When a peer leaves, every piece that was being fetched from it, and no other, becomes assignable again and its requests are forgotten. All of this happens under the tracker's lock, which is always released.",
  ["histories", "schedules"], "every tracker state, peer, piece and bitfield (one arbitrary piece is followed)",
  "The tests register few peers and never more than the number of lists; a piece in a stale list or a request that is never released shows only after particular histories.",
  ["src/swarm/piecetracker.go", "src/utils/ds"], [("RegisterBF, Register, Unregister", "src/swarm/piecetracker.go")],
  AI + "; one arbitrary piece is followed by case split, relational loop invariant for the released requests",
  SOUND + "Complete for every state and every piece; Register is followed for one and two indices. Fewer than 2^31 peers, tracker sizes as wide as the constructor's argument.",
  observe=["PeerPieceTracker.Register", "PeerPieceTracker.RegisterBF", "PeerPieceTracker.Unregister"])

prop("C09", "A piece is written only when its hash is right, and exactly where it belongs",
  "Writing a piece changes a file only if the data given hashes to the hash the torrent has for that piece; otherwise nothing is written and an error is returned. The data then goes, part after part without gap or overlap, to the files, offsets and lengths that the torrent's layout lists for that piece, and reading a piece collects the same parts in the same order. A transfer that fails for any part is reported as an error; without an error all parts were transferred. The content of a torrent's files is changed nowhere else, except when a file is brought to its size at start.",
  ["inputs", "histories"], "every piece index, every data, every number of files a piece spans, every failing transfer",
  "Tests write and read pieces of a few small torrents with correct data and files that work.",
  ["src/torrent/fileio", "src/torrent/info", "src/utils"], [("WritePiece, ReadPiece", "src/torrent/fileio/fileio.go"), ("PieceLookup, PieceHash", "src/torrent/info/info.go")],
  AI + "; effects over the call graph",
  SOUND + "SHA-1 is an uninterpreted function; the locations listed for a piece are taken as given; offsets do not overflow 64 bits.",
  observe=["FileIO.WritePiece", "FileIO.ReadPiece"])

prop("C10", "The client only claims pieces whose bytes on disk have the right hash",
  "At start every piece is read from the files and marked as had exactly when the bytes read hash to the hash the torrent has for it; files that cannot be read make starting fail. This happens after the files were brought to their sizes and before anything is announced, and the bitfield filled in is the one the client then uses to answer peers and to choose pieces. Nothing else marks a piece as had.",
  ["inputs", "histories"], "every torrent, every content of its files, every failing read",
  "Tests validate a few small torrents; one wrongly marked piece means serving garbage, or never fetching it.",
  ["src/swarm/swarm.go", "src/torrent"], [("Validate, NewSwarm", "src/swarm/swarm.go")],
  AI + "; effects over the call graph",
  SOUND + "SHA-1 is an uninterpreted function. Other processes changing the files are outside.",
  observe=["Swarm.Validate", "swarm.NewSwarm"])

prop("C11", "A torrent cannot make the client touch files outside its working directory",
  "Whatever names and paths a torrent file contains, every file of a torrent that loads lies below the working directory that was given: names that are empty, '.', '..' or contain a path separator are refused. The torrent keeps exactly the files of its file list, in order, each with its path and length; the client opens, makes, moves or removes no other files than these, at these paths, and reads no other file than the torrent file that was asked for.",
  ["inputs"], "every torrent file, any number of files, paths of any depth",
  "Tests load well-behaved torrents; one unchecked path component lets a torrent overwrite the user's files.",
  ["src/torrent/filesd", "src/torrent/info", "src/torrent/torrent.go", "src/torrent/fileio", "src/utils/futils.go"],
  [("ValidPathPart, FromBenList", "src/torrent/filesd/entrybase.go"), ("FromDict", "src/torrent/info/info.go"), ("OCATAll", "src/torrent/fileio/fileio.go")],
  AI + "; string predicates (names and paths) over loops and lists; effects over the call graph",
  SOUND + "Linux path rules: '/' is the separator. filepath.Join is trusted to keep safe names below its first argument; symbolic links inside the working directory are outside.",
  observe=["info.FromDict", "FileIO.OCATAll"])

prop("C12", "Opening a torrent's files gives them their size and destroys nothing",
  "Bringing a file to its size gives it exactly that size and keeps what it holds up to there: it is created or emptied only after opening it reported that it does not exist, cut only to the wanted size, and extended only by zeros after its end. Every step that fails is reported and closes the file. For a torrent this is done for every file, with that file's own path and length, and the file opened is the one kept under that path.",
  ["inputs", "histories"], "every path, wanted size and present size; every failing system call",
  "Tests use a few sizes and file systems that never fail; mistaking a permission error for a missing file destroys a user's data.",
  ["src/utils/futils.go", "src/torrent/fileio/fileio.go"], [("OCAT, CreateZeroFilledFile, AppendZeros", "src/utils/futils.go"), ("OCATAll", "src/torrent/fileio/fileio.go")],
  AI + "; typestate of the file (size, position, open)",
  SOUND + "Wanted sizes are not negative, which loading a torrent ensures. Other processes changing the file meanwhile are outside.",
  observe=["utils.OCAT", "FileIO.OCATAll"])

prop("C24", "Encoding is exact and canonical",
  "Encoding a value gives its one bencoding: an integer of any width is 'i', its decimal digits and 'e'; a string is its length in decimal, ':' and its bytes; a list is 'l', the encodings of all its elements in order, and 'e'; a dictionary is 'd', every key exactly once in ascending byte order, each followed by the encoding of its own value, and 'e'. Every integer, string that is not empty, and list or dictionary of such is encoded; anything else, at any depth, gives an error.",
  ["inputs"], "every value of every type, of any size and nesting (nested values by induction)",
  "Tests encode a few small values; the infohash is the hash of an encoding, so a key out of order or a length that counts characters identifies another torrent.",
  ["src/bencode/encode.go"], [("Encode, encode, encodeDict, encodeList", "src/bencode/encode.go")],
  AI + "; output monitor, structural induction over values",
  SOUND + "A range over a map gives every key once; sort.Strings and its relatives sort.",
  observe=["bencode.Encode"])

prop("C25", "Decoding is exact",
  "Decoding reads one value from the start of the data. What is accepted is the grammar: 'i', digits without leading zeros, after at most one '-' and not zero after it, 'e'; digits, ':' and as many bytes as they say; 'l' or 'd', values (for 'd' after a string as key), 'e'; the first byte tells which. The result is the value that the bytes stand for, with all elements in order and every value under its own key, and each value starts where the one before it ended. Integers that fit 64 bits, strings, and lists and dictionaries nested less than a hundred times are not refused with an error; an error inside is an error. Looking up a key gives its value exactly when it is there and has the type asked for.",
  ["inputs"], "all data, of any length and nesting (nested values by induction)",
  "Tests decode a few dozen inputs.",
  ["src/bencode/decode.go", "src/bencode/dict.go"], [("Decode, decodeInt, decodeString, decodeList, decodeDict", "src/bencode/decode.go"), ("GetString, GetInt, GetUint, GetList, GetDict", "src/bencode/dict.go")],
  AI + "; string and number predicates (copies of the data, runs of digits), structural induction over values",
  SOUND + "strconv parses decimal numbers. A key that is given twice has its last value. That no complete value runs into the end of the data is not decided: reading past the end ends decoding with an error.",
  observe=["bencode.Decode", "bencode.Dict"])

prop("C29", "Lists and sets are exact",
  "Adding a node or data to the front of a list makes it the head, linked both ways with the one that was the head; removing a node, whatever its place, links its neighbours to each other and leaves all other links as they were; the size and the head are right after every operation, looking at a list does not change it, and a cleared list is empty. A set has at most one member for each key: Add adds a member exactly when there is none with its key, Remove removes exactly the one with the key, both tell whether they changed the set, Has tells whether there is one, Size is the number of members, Items gives each member once and nothing else, members with other keys stay as they were, and a new set is empty and can be added to.",
  ["inputs", "histories"], "lists and sets of every size, every place of a node, and every sequence of operations (each operation from any such list or set)",
  "Tests remove from lists of at most three nodes; the piece tracker keeps its rarest-first buckets in these lists, and a link that is not mended loses pieces, or never ends a walk.",
  ["src/utils/ds"], [("AddDataFront, AddNodeFront, Remove, Clear", "src/utils/ds/linklist.go"), ("Add, Has, Remove, Size, Items", "src/utils/ds/set.go")],
  AI + "; case split over the place of a node with symbolic neighbours (shape analysis of the nodes around it)",
  SOUND + "Nodes are removed from the list that they are in and added when they are in none (C15, C16 look at the callers); the key of a member does not change.",
  observe=["ds.LinkedList", "ds.Set"])

prop("C14", "The files of a torrent tile its pieces exactly",
  "In the layout of a torrent the files lie one after the other in the order of the metadata, each exactly as long as the metadata says, with no gap and no overlap, also where files are empty or end where a piece ends; where a file starts and ends is given as a piece and an offset in it. The part of a piece that lies in a file starts where the piece or the file starts, whichever is later, and ends where either ends, whichever is earlier; for a piece that does not touch the file there is none. The parts recorded for the pieces are, piece by piece and in order, all of the bytes of all of the files exactly once; looking up a piece gives the parts recorded for it, and anything that is not a piece of the torrent has none. A torrent with enough pieces for its files, none of negative length, always has a layout; a file of negative length is refused.",
  ["inputs"], "every list of files of any lengths, every piece length up to 512 MB, every piece",
  "Which piece lies where depends on the remainders of sums of lengths; tests have a handful of layouts. One byte off and every piece after it is read from, hashed and written to wrong places.",
  ["src/torrent/filesd/flist.go", "src/torrent/filesd/entry.go", "src/torrent/info/piecemap.go"],
  [("MakeFileList", "src/torrent/filesd/flist.go"), ("(*Entry).PieceInfo", "src/torrent/filesd/entry.go"), ("MakePieceMap", "src/torrent/info/piecemap.go"), ("NewTorInfo, PieceLookup", "src/torrent/info/info.go")],
  AI + "; the position in the torrent as a ghost quantity, loop invariants with products of a piece length",
  SOUND + "The sum of the lengths fits 64 bits (NewTorInfo refuses others, C21) and products of a piece number and the piece length do not overflow.",
  observe=["(*info.TorInfo).PieceLookup", "(*info.TorInfo).Files"])

prop("C19", "Whatever is opened is closed",
  "Each file, connection, listener, response body and running ticker that the program obtains is closed (a ticker: stopped) on every way out of the function that obtained it, also when something fails on the way, unless it is handed on: returned to the caller (which then has the same duty), given to a goroutine that closes it on every way out, or kept in an object that outlives the call. An object that keeps open files has a method that closes every one of them, also when closing one fails, and a function that fails (NewSwarm) does not drop such an object without calling it. Nothing is closed and then used or returned as if it were open, and a connection that is accepted or a file that is opened in a loop is closed or handed on before the next takes its place.",
  ["failures", "inputs"], "every place that obtains something, every combination of failing and succeeding calls after it",
  "The paths that leak are the ones where something else fails: a disk that is full, a peer that hangs up during the handshake, a tracker that answers nonsense. Tests take none of them, and a leaked descriptor shows only when the process runs out of them.",
  ["src/utils/futils.go", "src/torrent/fileio/fileio.go", "src/torrent/info/info.go", "src/tracker/tracker.go", "src/swarm/peerhandler.go", "src/swarm/swarm.go", "src/io/ratelimit.go"],
  [("OCAT, CreateZeroFilledFile", "src/utils/futils.go"), ("(*FileIO).OCAT, CloseAll", "src/torrent/fileio/fileio.go"), ("CreateTorInfo", "src/torrent/info/info.go"), ("do", "src/tracker/tracker.go"), ("FromBootstrap, FromIncoming, Loop, pingLoop", "src/swarm/peerhandler.go"), ("NewSwarm, runListener, Start", "src/swarm/swarm.go")],
  AI + "; typestate of what is opened (open, closed, handed on) as a ghost of each path, reachability from results and goroutines, callers analysed when something is handed to them",
  SOUND + "Close and Stop release what they are called on whatever they return. What main holds is released by the end of the process; paths that panic are left to C01 and C02. A ticker that is stored in an object counts as handed on.")

prop("C20", "A created torrent describes its files",
  "Creating a torrent from a list of paths reads each file once, from start to end, in the order of the list: in the directory given, or with several files in the directory there that has the torrent's name. The torrent has one entry for each path, in the same order, with that path, the length of the file and the path it was read from as its local path; its name and piece length are those given; and its hashes are the SHA-1 of the consecutive pieces of the files' bytes, every byte in exactly one piece, every piece as long as asked for but the last one of all, which has the rest, in the order of the data and independent of where files end, how much a read returns and how large the buffer is. No torrent is made when a file could not be opened or read. Cutting data into segments gives consecutive segments that cover all of it.",
  ["inputs", "failures"], "every list of files of any length, every piece length up to 512 MiB, every way reads split the data, every failing call",
  "Whether pieces line up depends on where each file ends in the buffer, how reads split, and whether the piece length divides the buffer: tests create torrents of a few small files whose data never fills the 5 MiB buffer (and those tests need files that are not there).",
  ["src/torrent/info/info.go", "src/utils/utils.go", "src/torrent/filesd/entry.go"], [("CreateTorInfo", "src/torrent/info/info.go"), ("SegmentData, SHA1", "src/utils/utils.go"), ("MakeFileEntry, SetLocalPath", "src/torrent/filesd")],
  AI + "; the bytes read, the bytes hashed and the pieces of a batch as ghost quantities with inferred loop invariants; the cutting of data checked against the contract that its callers assume",
  SOUND + "A read without an error gives at least one byte and the end of a file comes without bytes, as os.File does it. Files that change while they are read are outside, and so are piece lengths above the limit of 512 MiB, which are refused.")

prop("C31", "The options are what was given",
  "A size option is decimal digits with at most one '-' before them and at most one of B, K, M, G, in either case, after them, and stands for exactly that number of bytes (K is 1024, M is 1024 K, G is 1024 M); every such size that fits 64 bits is accepted, anything else is refused, and nothing overflows. The torrent file, working directory, command, port and the two limits are those given with -i, -w, -cmd, -p, -u and -d, read once; a port that does not fit 16 bits, a command that does not exist and a missing torrent file are refused, and a limit that is not given is no limit. The command swarm starts a swarm with these options, the command info shows the torrent that was given, and neither does the other.",
  ["inputs"], "every text of a size, every value of every option",
  "No test parses an option; a unit that is off or a product that overflows turns a limit into another one, or into none.",
  ["src/utils/opts.go", "src/main.go"], [("parseSizeUnits, scaleSize, Validate, GetOpts", "src/utils/opts.go"), ("main, CmdSwarm, CmdTorInfo", "src/main.go")],
  AI + "; string predicates (runs of digits), exact integer arithmetic with overflow",
  SOUND + "Package flag gives what is on the command line; strconv parses decimal numbers; strings.ToUpper changes nothing but letters.",
  observe=["utils.GetOpts", "utils.Opts"])
