#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the single place the property texts are edited)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mechanism, observe, state=(), hook=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=["src/" + f for f in files],
                     state=[dict(name=n, where=w) for n, w in state],
                     mechanism=[dict(name=n, where=w) for n, w in mechanism],
                     observe_at=observe, hook_needed=hook)))

p("C01", "Bencode encoding is canonical and decoding inverts it",
  "Encoding any value built from 64-bit integers, non-empty strings, lists and dictionaries with non-empty keys yields the one canonical bencoding (keys in raw byte order, minimal integers, exact lengths), and decoding that text returns the same value. Values containing anything else, such as booleans, nil, unsigned integers, empty strings or empty keys at any depth, are refused with an error.",
  ["inputs"], "every finite nesting of values, every int64 including both extremes, every byte string",
  "tests encode about twenty fixed values and re-encode three torrent files; key-ordering, nesting and extreme integers are unbounded input spaces",
  ["bencode/encode.go", "bencode/decode.go"],
  [("recursive encoder with sorted keys", "bencode/encode.go:encode"), ("recursive descent decoder", "bencode/decode.go:Decode")],
  ["bencode.Encode", "bencode.Decode"])

p("C02", "Bencode decoding is total and exact",
  "For every byte string, decoding terminates without crashing the process and either returns a value or an error. Every well-formed bencoding (nested up to a thousand levels) is accepted and yields exactly the value it denotes; input that is truncated, has a malformed integer or length, an out-of-range integer, a non-string key or an unterminated container is rejected with an error. Typed lookups in a decoded dictionary return the stored value only for a present key of the requested type and an error otherwise.",
  ["inputs"], "every byte string, including truncations of valid input, huge length prefixes and nesting of any depth",
  "tests try about a dozen malformed strings; no test nests deeply, truncates containers or mixes both",
  ["bencode/decode.go", "bencode/dict.go"],
  [("bounds panics converted to errors", "bencode/decode.go:Decode"), ("digit loops", "bencode/decode.go:decodeInt/decodeString")],
  ["bencode.Decode", "bencode.Dict getters"])

p("C03", "The infohash is the SHA-1 of the info bytes in the file",
  "When a torrent file is loaded, its infohash is the SHA-1 of the exact bytes of the top-level info value as they stand in that file, whatever unknown keys, nesting, empty strings or key order it has. If the file cannot be interpreted, loading fails instead of producing another hash.",
  ["inputs"], "every torrent file, canonical or not",
  "tests load three torrents written by one tool, all canonical",
  ["torrent/torrent.go", "bencode/decode.go"],
  [("infohash computation", "torrent/torrent.go:FromTorrentFile")],
  ["torrent.FromTorrentFile", "Torrent.Infohash"])

p("C04", "Malformed metainfo is refused; well-formed metainfo is read exactly",
  "Loading a torrent file never crashes: a file lacking a required key, with a wrongly typed one, a piece length below one, a negative file length, a hash string whose length is not 20 bytes per piece of the payload, or an empty file path is refused with an error. A well-formed single-file or multi-file torrent is accepted, and its announce URL, name, piece length, piece hashes, total length, file paths and file lengths (in order) are reported exactly as written.",
  ["inputs"], "every metainfo dictionary, field by field present, absent, mistyped or out of range, including lengths beyond 32 bits",
  "tests load three good torrents and no bad one",
  ["torrent/torrent.go", "torrent/info/info.go", "torrent/filesd/entrybase.go", "torrent/info/piecemap.go"],
  [("field extraction", "torrent/info/info.go:FromDict"), ("accounting check", "torrent/info/piecemap.go:MakePieceMap")],
  ["torrent.FromTorrentFile", "TorInfo getters", "FileList"])

p("C05", "A torrent's files never lie outside the working directory",
  "Whatever names and path components a torrent file contains, every local file path it is given on loading lies strictly inside the chosen working directory, or loading fails. For ordinary names the local path is exactly working directory, then (for multi-file torrents) the torrent name, then the listed path components in order.",
  ["inputs", "configurations"], "every name and path component sequence, including '..', '.', '', separators and absolute paths; every working directory spelling",
  "no test uses a hostile name",
  ["torrent/info/info.go", "torrent/filesd/entrybase.go"],
  [("local path construction", "torrent/info/info.go:FromDict"), ("path assembly", "torrent/filesd/entrybase.go:FromBenList")],
  ["Entry.LocalPath after torrent.FromTorrentFile"])

p("C06", "Piece layout is an exact partition of the payload",
  "For every list of file lengths (zero-length files included) and every piece length, the file segments reported for piece i, concatenated over all pieces in order, are exactly the files concatenated in order: no byte is missed, repeated, reordered or attributed to another file or offset. Every piece but the last covers exactly the piece length, the last covers the remainder, piece indices outside the range are refused with an error, and the per-file start and end pieces and the files-of-a-piece query agree with that partition.",
  ["inputs"], "all file-length lists and piece lengths, including totals beyond 4 GiB",
  "tests check six hand-drawn layouts with totals up to 12 bytes and two file lists",
  ["torrent/filesd/flist.go", "torrent/filesd/entry.go", "torrent/info/piecemap.go", "torrent/info/info.go"],
  [("start/end accumulation", "torrent/filesd/flist.go:MakeFileList"), ("seek/read computation", "torrent/filesd/entry.go:PieceInfo"), ("greedy map", "torrent/info/piecemap.go:MakePieceMap")],
  ["TorInfo.PieceLookup", "TorInfo.NumPieces/LastPieceLen/Length", "Entry getters", "FileList.GetFiles"])

p("C07", "A created torrent describes its content and reloads identically",
  "Creating a torrent from files terminates for every positive piece length and yields, for each piece in order, the SHA-1 of that slice of the files' concatenation, with the files' true lengths and paths; a piece length below one is refused. Encoding the created metainfo to a torrent file and loading it back gives the same infohash, geometry, hashes and local files, and loading it over the same files finds every piece valid.",
  ["inputs", "configurations"], "all file sizes and piece lengths, including sizes around the 5 MiB read buffer and piece lengths above it",
  "tests create three torrents whose piece lengths are at most 1 MiB",
  ["torrent/info/info.go", "torrent/torrent.go", "utils/utils.go", "torrent/filesd/entrybase.go"],
  [("buffered hashing", "torrent/info/info.go:CreateTorInfo"), ("segmentation", "utils/utils.go:SegmentData"), ("info dictionary", "torrent/info/info.go:Bencode")],
  ["info.CreateTorInfo", "torrent.NewTorrent", "torrent.FromTorrentFile"])

p("C08", "Only verified pieces are stored, exactly in place; reads return the disk",
  "Writing a piece succeeds exactly when the index is in range, the data has that piece's hash and its files are open; it then changes exactly the piece's bytes on disk and nothing else, while a write refused for its index or hash changes nothing. Reading a piece returns exactly the bytes on disk at the piece's place and their count and leaves the rest of the buffer alone; out-of-range indices, closed files and files that are too short give an error. This holds after any history of writes, reads, moves and closes of files.",
  ["histories", "inputs"], "all layouts and all sequences of write (right, wrong, truncated, other piece's data), read, move, close",
  "tests write each piece once in order and read it back, on two layouts of 12 bytes",
  ["torrent/fileio/fileio.go"],
  [("hash gate", "torrent/fileio/fileio.go:WritePiece"), ("segment loop", "torrent/fileio/fileio.go:ReadPiece")],
  ["FileIO.WritePiece/ReadPiece/Move/Close/CloseAll", "file contents"],
  state=[("open files", "torrent/fileio/fileio.go:FileIO.lfps")])

p("C09", "Preparing files keeps existing data and fixes only the size",
  "Opening or creating the payload files leaves every file at exactly its metainfo length, creating missing files and parent directories; a file that already existed keeps its bytes up to the smaller of the two sizes, and whatever is new is zero. Repeating the preparation, from any state of the disk including one left by an interrupted preparation, changes nothing more.",
  ["inputs", "histories", "crash_points"], "all prior disk states (missing, shorter, equal, longer) and lengths, including 0 and around the 1 MiB write size",
  "tests create zero-filled files of four sizes and never open an existing one",
  ["utils/futils.go", "torrent/fileio/fileio.go"],
  [("open, create, append or truncate", "utils/futils.go:OCAT"), ("chunked zero append", "utils/futils.go:AppendZeros")],
  ["utils.OCAT", "FileIO.OCATAll", "file contents"])

p("C10", "After startup the held-piece set equals what verifies on disk",
  "After startup on any disk contents (arbitrary data, missing or resized files, or whatever a crash left at any point of earlier writing), a piece is marked held exactly when the bytes on disk at its place have its hash. Verification alters no payload byte, and reports complete exactly when every piece verifies.",
  ["crash_points", "histories", "inputs"], "all disk states reachable by writes, external corruption and a kill at any point, for all layouts",
  "no test runs startup verification",
  ["swarm/swarm.go", "torrent/fileio/fileio.go", "bf/bitfield.go"],
  [("verification loop", "swarm/swarm.go:Validate")],
  ["Swarm.Validate", "Swarm.Bf", "bitfield message of a running client"],
  state=[("held pieces", "swarm/swarm.go:Swarm.Bf")])

p("C11", "Concurrent piece reads and writes are atomic per file",
  "When several peers' goroutines read and write pieces through one storage object at once, each read returns, for each file the piece touches, bytes that were on disk at one moment of the call: never a mixture of before and after a concurrent write, never bytes of another position. No schedule of such calls loses a completed write, deadlocks or races on memory.",
  ["schedules", "histories"], "all interleavings of concurrent reads and writes on shared files, single- and multi-file pieces",
  "no test uses the storage from two goroutines",
  ["torrent/fileio/fileio.go"],
  [("per-file reader/writer lock", "torrent/fileio/fileio.go:lockedFp"), ("positional io", "torrent/fileio/fileio.go:read/write")],
  ["FileIO.ReadPiece/WritePiece from several goroutines"],
  state=[("open files", "torrent/fileio/fileio.go:FileIO.lfps")])

p("C12", "A bitfield is exactly a set of piece indices",
  "After any sequence of operations a bitfield answers membership exactly like the set of indices set and not since cleared, its count of set bits is that set's size, and it is complete exactly when the set is full. Its wire bytes hold index i in bit 7-(i mod 8) of byte i/8, with all spare bits zero unless they came from supplied bytes; adopting bytes or changing the number of bits accepts exactly the bit counts that need that many bytes and recounts exactly the bits in range.",
  ["histories", "inputs"], "all bit counts, byte contents and sequences of set, clear, fill, adopt-bytes and resize",
  "tests toggle eight bits and adopt eight byte strings; fill, resize and complete are untested",
  ["bf/bitfield.go"],
  [("incremental count", "bf/bitfield.go:Set"), ("recount", "bf/bitfield.go:calcNset")],
  ["bf.NewBitfield/FromBytes and methods"],
  state=[("set-bit count", "bf/bitfield.go:Bitfield.nset")])

p("C13", "Peer messages round-trip and decoded messages stay intact",
  "Every peer message (keep-alive, choke, unchoke, interested, not interested, have, bitfield, request, piece) encodes to its BEP 3 layout byte for byte and reports its length and type; decoding that encoding, with anything following it, returns an equal message and consumes exactly its bytes. A buffer holding a sequence of such messages decodes to that sequence in order, all bytes accounted for. Decoded messages do not change when the receive buffer is reused.",
  ["inputs", "histories"], "all messages with all 32-bit field values and payload sizes, all sequences, any later reuse of the buffer",
  "request and piece decoding have no test at all; the others use one or a few values",
  ["p2p/message.go", "p2p/request.go", "p2p/piece.go", "p2p/have.go", "p2p/bitfield.go", "p2p/no_payload.go", "p2p/keepalive.go"],
  [("type dispatch", "p2p/message.go:Decode"), ("sequence loop", "p2p/message.go:DecodeAll")],
  ["p2p message constructors, Encode, Decode, DecodeAll"])

p("C14", "Hostile wire bytes are decoded safely",
  "For every byte string, decoding one message or all messages terminates without crashing; a message is returned only if the bytes start with a complete, well-formed encoding of it, and an incomplete or malformed frame yields an error and no message. Decoding a whole buffer returns every well-formed message up to the first malformed frame, and the reported number of bytes read is the total size of the messages returned.",
  ["inputs"], "every byte string, including truncated frames and every 32-bit length prefix",
  "tests feed about ten malformed frames, none with an extreme length prefix",
  ["p2p/message.go", "p2p/bitfield.go", "p2p/piece.go", "p2p/request.go", "p2p/have.go"],
  [("length checks", "p2p/message.go:Decode"), ("resynchronisation", "p2p/message.go:DecodeAll")],
  ["p2p.Decode", "p2p.DecodeAll"])

p("C15", "A peer's messages mean the same however TCP splits them",
  "The effect of what a connected peer sends depends only on the bytes, not on how they are divided into segments or coalesced: every complete well-formed message is acted on exactly once and in order, including one cut at any byte boundary, a handshake delivered in parts, and messages following one of an unknown type.",
  ["schedules", "inputs"], "all divisions of all message streams into reads, with any timing within the protocol's timeouts",
  "no test opens a connection",
  ["swarm/peerhandler.go", "swarm/msghandler.go", "io/readloop.go", "p2p/message.go"],
  [("receive loop", "swarm/peerhandler.go:recvLoop"), ("message handling", "swarm/msghandler.go:handleMessage")],
  ["TCP connection to a running client"])

p("C16", "Only peers with a valid handshake for this torrent are served",
  "An incoming connection is answered with the client's handshake, then its bitfield, only after a complete handshake with the right protocol string and this torrent's infohash; anything else gets no byte of protocol and the connection is closed. On connections the client opens, it sends its own handshake first, carrying its infohash and 20-byte peer id, and proceeds only if the other side answers with a valid handshake for the same torrent.",
  ["inputs", "fault_sequences"], "every 68-byte handshake and every prefix of one, from either side; any reserved bytes and peer id",
  "no test performs a handshake",
  ["swarm/handshake.go", "swarm/peerhandler.go"],
  [("validation", "swarm/handshake.go:ValidHandshake"), ("incoming", "swarm/peerhandler.go:FromIncoming"), ("outgoing", "swarm/peerhandler.go:FromBootstrap")],
  ["TCP connection to a running client", "swarm.MakeHandshake/ValidHandshake"])

p("C17", "Peers receive exactly the verified bytes they ask for",
  "A request for a block inside a piece the client holds is answered with exactly one piece message carrying the same index and offset and exactly those bytes of the torrent's payload; requests are answered in order. A request for a piece not held, for an index out of range, or for bytes beyond the end of the piece (the shorter last piece included) is never answered with data and never disturbs the process.",
  ["inputs", "histories"], "all request triples of 32-bit values, all held sets and layouts, any sequence of requests on any number of connections",
  "no test handles a request",
  ["swarm/msghandler.go", "torrent/fileio/fileio.go", "p2p/piece.go"],
  [("request handler", "swarm/msghandler.go:handleRequest")],
  ["TCP connection to a running client"],
  state=[("held pieces", "swarm/swarm.go:Swarm.Bf"), ("piece buffer", "swarm/peerhandler.go:PeerHandler.buf")])

p("C18", "No peer can disturb the client or its other peers",
  "Whatever bytes a peer sends, whenever it disconnects, and however many peers do so at once, the client keeps running, keeps accepting connections, and keeps serving every other connected peer correctly.",
  ["schedules", "inputs", "fault_sequences"], "all byte streams and disconnection points of misbehaving peers, interleaved with well-behaved ones",
  "no test opens a connection",
  ["swarm/swarm.go", "swarm/peerhandler.go", "swarm/msghandler.go", "p2p/message.go"],
  [("goroutine per peer", "swarm/swarm.go:runListener"), ("error handling", "swarm/peerhandler.go:Loop")],
  ["a running client with several peers"])

p("C19", "A finished connection gives back everything it held",
  "When a peer disconnects, errs, or is dropped, its session ends: the connection is closed, all of the session's goroutines stop, the peer no longer counts towards piece availability, and the pieces assigned to it become available to other peers again.",
  ["schedules", "fault_sequences", "histories"], "all points of a session at which the connection can end, from either side, for complete and incomplete clients",
  "no test ends a session",
  ["swarm/peerhandler.go", "swarm/piecetracker.go", "io/readloop.go"],
  [("session loop", "swarm/peerhandler.go:Loop"), ("unregistration", "swarm/piecetracker.go:Unregister")],
  ["PeerHandler.Loop returning", "TCP end of stream", "PeerPieceTracker.NextPiece", "goroutine count"],
  state=[("session goroutines", "swarm/peerhandler.go:PeerHandler.procs"), ("registrations", "swarm/piecetracker.go:PeerPieceTracker.nodes")])

p("C20", "A needed piece is assigned to at most one peer at a time",
  "The next piece chosen for a peer is always one the client lacks, that this peer has announced, and that is not currently assigned to any peer; it then stays assigned until the peer leaves, whereupon it can be assigned again, and a peer leaving never frees pieces assigned to others. No choice is made only if no such piece exists. This holds under any interleaving of concurrent calls.",
  ["histories", "schedules"], "all sequences and interleavings of announcing pieces, leaving, completing pieces and choosing, for any number of peers and pieces",
  "the test asks each peer for one piece and all its expectations hold without any assignment being remembered",
  ["swarm/piecetracker.go"],
  [("active flag", "swarm/piecetracker.go:NextPiece"), ("release", "swarm/piecetracker.go:Unregister"), ("mutex", "swarm/piecetracker.go:PeerPieceTracker.mutex")],
  ["PeerPieceTracker.NextPiece/Register/RegisterBF/Unregister"],
  state=[("active pieces", "swarm/piecetracker.go:piece.active"), ("requests by peer", "swarm/piecetracker.go:PeerPieceTracker.requests")])

p("C21", "Rarest pieces first, with exact availability",
  "The next piece chosen for a peer has, among the pieces that could be chosen, the fewest currently connected peers announcing it (availabilities of 63 or more count as equal). A peer's repeated announcements count once and cease to count when it leaves, for any number of peers, without error.",
  ["histories"], "all sequences of bitfield and have announcements, departures and choices, for any number of peers, beyond 64 included",
  "the test uses at most four peers and three pieces",
  ["swarm/piecetracker.go", "utils/ds/linklist.go", "utils/ds/set.go"],
  [("bucket per count", "swarm/piecetracker.go:register/Unregister"), ("bucket scan", "swarm/piecetracker.go:NextPiece")],
  ["PeerPieceTracker.NextPiece"],
  state=[("buckets", "swarm/piecetracker.go:PeerPieceTracker.buckets")])

p("C22", "Block requests tile exactly the pieces wanted",
  "The requests an incomplete client sends to a peer ask only for pieces that peer announced and the client lacks; for each piece requested, the blocks cover the piece from its first to its last byte without gap or overlap, each between 1 and 16384 bytes, the shorter last piece included, and are sent once. Two connected peers are never asked for the same piece.",
  ["inputs", "histories", "configurations"], "all piece lengths and total lengths, held sets and announced sets",
  "no test generates a request",
  ["swarm/peerhandler.go", "swarm/piecetracker.go", "p2p/request.go"],
  [("block splitting", "swarm/peerhandler.go:createReqMessages"), ("request loop", "swarm/peerhandler.go:requestLoop")],
  ["request messages on a TCP connection from a running client"])

p("C23", "The rate limit is respected",
  "With a limit of L bytes per second, no transfer is admitted once L bytes have been admitted since the last one-second refill, so within any k seconds at most (k+1) times (L plus one message) bytes pass, for any number of concurrent transfers and in each direction independently. Without a limit nothing is delayed, and a limit below -1 means no limit.",
  ["schedules", "configurations", "inputs"], "all limits, message sizes, numbers of concurrent callers, and limit changes",
  "the rate limiter has no test",
  ["io/ratelimit.go"],
  [("admission check", "io/ratelimit.go:Write/Read"), ("refill", "io/ratelimit.go:Run")],
  ["RateLimitIO.Write/Read with recording readers and writers"],
  state=[("bytes used", "io/ratelimit.go:RateLimitIO.wUsed/rUsed")])

p("C24", "Rate-limited transfers complete, whole and unmixed",
  "Every transfer under a positive limit eventually completes while the limiter runs, and one waiting under a limit, zero included, proceeds once the limit is raised or removed; stopping the limiter returns. A write passes exactly its bytes, in one piece and once, to the destination, and a read fills its whole buffer with the next bytes of the source; errors of the underlying stream are reported.",
  ["schedules", "histories", "inputs"], "all interleavings of concurrent transfers, refills and limit changes; sources that deliver in fragments; failing streams",
  "the rate limiter has no test",
  ["io/ratelimit.go"],
  [("waiting loop", "io/ratelimit.go:Write/Read"), ("limit change", "io/ratelimit.go:SetWriteRate/SetReadRate")],
  ["RateLimitIO.Write/Read/SetReadRate/SetWriteRate/Run/Stop"],
  state=[("limits", "io/ratelimit.go:RateLimitIO.rRate/wRate")])

p("C25", "The read loop hands over every byte once and always stops",
  "Data arriving on a connection is handed to the consumer in order, each byte once, and a handed-over buffer is not overwritten until the consumer says it is ready; a read error or end of stream is reported after all earlier data. Finishing the loop returns promptly and makes the loop end, whether it is waiting for data, for the consumer, or to report an error.",
  ["schedules", "fault_sequences"], "all interleavings of arriving data, consumer steps, errors, timeouts and finishing",
  "the read loop has no test",
  ["io/readloop.go"],
  [("run loop", "io/readloop.go:Run"), ("cancellation", "io/readloop.go:Finish")],
  ["ReadLoop.Run/ReadData/Ready/ReadError/Finish"],
  state=[("shared buffer", "io/readloop.go:ReadLoop.buf")])

p("C26", "Announce requests say exactly what is true",
  "Every tracker request carries the torrent's 20 infohash bytes, the peer id, the listening port, the uploaded, downloaded and remaining byte counts as accumulated, and compact=1, each exactly once and correctly percent-encoded for all byte values, to the announce URL with its own path and query parameters kept. An announce URL that cannot be used gives an error, not a crash. Remaining bytes never drop below zero.",
  ["inputs", "histories"], "all infohashes, peer ids, ports, histories of byte counts and announce URLs",
  "no test builds a request",
  ["tracker/tracker.go", "tracker/stats.go", "utils/utils.go"],
  [("query construction", "tracker/tracker.go:newRequest"), ("counters", "tracker/stats.go")],
  ["HTTP request received by a tracker", "tracker.Stats"])

p("C27", "Tracker responses are read exactly or refused",
  "A well-formed tracker response yields exactly its interval, seeder and leecher counts, optional warning and minimum interval, and its peers in order with their addresses and ports, from both the compact and the dictionary peer list. A failure reason, a missing or mistyped required field, a compact list of invalid size, or a body that is not a bencoded dictionary gives an error and no peers, never a crash; a peer entry with an impossible address, port or negative count is never turned into a different one.",
  ["inputs"], "every response body",
  "one test parses one compact response with four peers",
  ["tracker/tracker.go", "peer/info.go", "bencode/decode.go"],
  [("field extraction", "tracker/tracker.go:newResponse"), ("peer lists", "tracker/tracker.go:GetPeers")],
  ["tracker.Get against a local HTTP server"])

p("C28", "What the client advertises is true",
  "On startup, for any disk contents, the client announces to the tracker as remaining exactly the number of payload bytes in pieces it does not hold, listens on the chosen port and announces that port. To every peer that connects it sends one bitfield message with exactly the verified pieces set and all spare bits zero, then unchokes it.",
  ["histories", "configurations"], "all disk contents at startup, all piece counts modulo 8, all ports, all connections during a run",
  "no test starts a client",
  ["swarm/swarm.go", "swarm/peerhandler.go", "p2p/bitfield.go", "bf/bitfield.go", "tracker/stats.go"],
  [("startup", "swarm/swarm.go:NewSwarm"), ("bitfield message", "p2p/bitfield.go:Encode")],
  ["a running client, seen by its tracker and its peers"])

p("C29", "Command-line options are read exactly or refused",
  "A transfer limit is an optional minus sign, decimal digits and at most one unit letter B, K, M or G in either case, and means exactly that many bytes with binary multiples; every other spelling, and every value that does not fit in 64 bits, is refused. A missing input file, an unknown command or a port above 65535 is refused, and accepted options are reported unchanged.",
  ["inputs", "configurations"], "every option string",
  "option parsing has no test",
  ["utils/opts.go"],
  [("size parsing", "utils/opts.go:parseSizeUnits"), ("validation", "utils/opts.go:Validate")],
  ["utils.GetOpts and its accessors"])

p("C30", "The containers behave as sequence and set",
  "After any sequence of operations the linked list, walked forwards or backwards, is exactly the sequence obtained by pushing in front and removing the given nodes, nodes being movable between lists. The keyed set has exactly the members added and not since removed, each once, in its size, its membership test and its listing; add and remove report whether they changed it. Cutting data into segments keeps every byte in order with only the last segment shorter, and swap-removal drops exactly the chosen element.",
  ["histories", "inputs"], "all operation sequences on any number of lists and sets",
  "tests remove one node in three positions and never list a set",
  ["utils/ds/linklist.go", "utils/ds/set.go", "utils/utils.go"],
  [("doubly linked nodes", "utils/ds/linklist.go"), ("map by key", "utils/ds/set.go")],
  ["ds.LinkedList, ds.Node, ds.Set, utils.SegmentData, utils.RemoveSwap"])

p("C31", "Quiet connections are kept alive and dead ones are dropped",
  "On every open session the client says something new before two minutes have passed since it last did, for as long as the session lives. A peer that keeps saying anything at least every two minutes is never dropped for silence, however long the session and however its messages are cut. A peer silent for two minutes, one that does not finish its handshake, and one that no longer takes what it is sent nor says anything are dropped before long, all that was held for them is given back, and the pieces asked of them are asked of others.",
  ["histories", "schedules"], "all schedules of what a peer says over hours, all peers that stop reading at any point",
  "no test lets a session live for longer than moments",
  ["swarm/peerhandler.go", "io/readloop.go"],
  [("keep-alive", "swarm/peerhandler.go:pingLoop"), ("read timeout renewed at each read", "io/readloop.go:Run"), ("send timeout", "swarm/peerhandler.go:sendConn"), ("end of a session", "swarm/peerhandler.go:Loop")],
  ["swarm.FromIncoming and PeerHandler.Loop over a connection, in virtual time"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
for x in P:
    assert len(x["title"]) <= 80, x["id"]
with open(out, "w") as f:
    for x in P: f.write(json.dumps(x) + "\n")
print(len(P))
