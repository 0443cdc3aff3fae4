#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept in step with the checks by hand)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, state=None, observe=None):
    assert len(title) <= 80, (id, len(title))
    d = {"id": id, "title": title, "statement": statement,
         "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
         "anchors": {"files": files, "mechanism": [{"name": a, "where": b} for a, b in mech]}}
    if state: d["anchors"]["state"] = [{"name": a, "meaning": b, "where": c} for a, b, c in state]
    if observe: d["anchors"]["observe_at"] = observe
    d["anchors"]["hook_needed"] = None
    P.append(d)

DEC, ENC = "bencode/decode.go", "bencode/encode.go"

p("B01", "Bencode round trip: decode(encode(v)) equals v",
  "For every value of a supported type (signed and unsigned integers of every width, strings, byte strings, lists, arrays, string-keyed dictionaries, structs, and pointers to these, with no nil value inside), encoding it succeeds and decoding the result into a fresh variable of the same type succeeds and yields an equal value.",
  ["inputs"], "all values of the supported types: every integer, every string content and key, every small nesting",
  "The tests encode and decode a dozen fixed values, never one through the other; integer extremes, arbitrary bytes in strings and keys, empty keys and pointers inside lists are not sampled.",
  [ENC, DEC], [("Encoder.encode / Decoder.decode and the per-kind functions", "bencode/encode.go, bencode/decode.go")],
  observe=["bencode.Marshal", "bencode.Unmarshal"])
p("B02", "Decoder accepts exactly canonical bencoding and is never crashed by input",
  "For every byte sequence, decoding it into a generic or typed destination terminates without panicking. Decoding into a generic destination succeeds exactly when the input starts with one well-formed canonical bencoded value (integers without sign plus, leading zeros or negative zero and within 64 bits; minimal decimal string lengths; dictionary keys strictly ascending), and the decoded value is the one those bytes denote; everything else is reported as an error.",
  ["inputs"], "every byte string up to the bound, and every completion of longer templates",
  "Tests feed about forty hand-written inputs; acceptance, rejection and absence of panics must hold for all of the attacker-controlled bytes a tracker or torrent file may contain.",
  [DEC], [("digit, length, sortedness and terminator checks", "Decoder.consume*/decode* in bencode/decode.go")],
  observe=["bencode.Unmarshal"])
p("B03", "Encoder output is one canonical value, whatever the map iteration order",
  "Whenever encoding a value that is not itself nil succeeds, the output is exactly one well-formed bencoded value in canonical form: integers and lengths in minimal decimal, every dictionary key followed by exactly one value and keys in strictly ascending byte order, independent of map iteration order and of struct declaration order. Nil entries of dictionaries and structs are left out together with their key, except that a nil list or dictionary entry whose type has a marshaler of its own is written by it. (Types with a custom marshaler are assumed to write one canonical value.)",
  ["inputs", "schedules"], "all values of supported types and all map iteration orders",
  "Map iteration order is randomised per run and the tests use three fixed keys; nil entries inside dictionaries are not tried.",
  [ENC], [("key sorting in encodeMap and getFieldsForStruct", "bencode/encode.go")], observe=["bencode.Marshal"])
p("B04", "Out-of-range integers are rejected, never silently truncated",
  "Decoding an encoded integer into an integer destination of any width and signedness succeeds exactly when the number is representable in that type, and then stores exactly that number; otherwise decoding returns an error.",
  ["inputs"], "every integer text and every destination width and signedness",
  "Tests decode two or three small integers; wrap-around only shows for values beyond the width of the destination.",
  [DEC], [("decodeInt / decodeUint range handling", "bencode/decode.go")], observe=["bencode.Unmarshal"])
p("B05", "Custom unmarshalers and raw messages see exactly their value's bytes",
  "A raw-message or custom-unmarshaler destination, anywhere in the decoded structure, receives exactly the bytes its value occupies in the input, and the rest of the input is decoded as if the value had been skipped. Encoding a raw message reproduces its bytes verbatim.",
  ["inputs"], "every well-formed value at the position of the raw field, and every neighbour around it",
  "The info hash of a torrent depends on byte exactness for every possible content; tests capture five fixed values.",
  [DEC, "bencode/raw_message.go"], [("Decoder.consume re-emitting the consumed bytes", "bencode/decode.go")], observe=["bencode.RawMessage", "bencode.Unmarshaler"])
p("B06", "Struct fields map to dictionary keys the same way in both directions",
  "A struct is encoded as a dictionary whose keys are the tag name or the lower-cased field name of its exported fields, fields of untagged embedded structs being promoted with the usual shallowest-wins rule; fields tagged '-' and unexported fields never appear. omitempty leaves out exactly the empty values. Decoding assigns each known key to the field it is encoded from, skips unknown keys of any shape, and leaves every other field untouched.",
  ["inputs", "programs"], "all field values, all dictionaries with known and unknown keys, over a family of struct shapes",
  "Tests pair a few struct shapes with a single value each; omitempty boundaries, unknown-key contents and cross-talk between fields depend on the values.",
  [ENC, DEC], [("getFieldsForStruct, encodeStruct, decodeStruct", "bencode/encode.go, bencode/decode.go")], observe=["bencode.Marshal", "bencode.Unmarshal"])
p("B07", "Stream decoding is independent of how input is chunked",
  "Decoding from a stream consumes exactly the bytes of one value per call, so successive calls return the successive values of a concatenation and leave following bytes unread; the results do not depend on how the underlying reader splits the data into short reads. Truncated input is an error.",
  ["inputs", "fault_sequences"], "all short value sequences, all splits of the stream into reads, all truncation points",
  "Tests only decode from complete in-memory strings.",
  [DEC], [("Decoder over bufio.Reader, io.ReadFull", "bencode/decode.go")], observe=["bencode.NewDecoder", "Decoder.Decode"])
p("B08", "Encoding terminates: cyclic values give an error, and the encoder stays usable",
  "Encoding a value that refers to itself through structs, lists, dictionaries, pointers or interfaces returns an error instead of recursing without bound, and an encoder that returned an error encodes later acyclic values normally. Nesting well below the documented limit is encoded.",
  ["inputs"], "all cycle shapes of small period through each container kind, all nesting depths up to past the limit",
  "One struct cycle is tested; cycles through other kinds and the encoder's state after the error are not.",
  [ENC], [("Encoder.ptrDepth", "bencode/encode.go")], observe=["bencode.Marshal", "Encoder.Encode"])
p("B09", "Encoding and decoding may run at the same time",
  "Encodings and decodings of any types that run at the same time, the first use of a type included, have no data race and each give exactly the result they give alone.",
  ["schedules", "inputs"], "all interleavings of two or three concurrent calls up to the preemption bound, with symbolic values",
  "No test uses the package from two goroutines; the tables shared by all calls race only on the first use of a type.",
  [ENC, DEC], [("fieldCache", ENC)], observe=["bencode.Marshal", "bencode.Unmarshal", "Encoder.Encode", "Decoder.Decode"])

p("B10", "A destination that fails makes encoding fail",
  "When the destination of an encoder, or of a peer message or handshake, stops accepting bytes after any number of them, encoding returns an error, and what was written is exactly the beginning of the full encoding; with a destination that accepts everything no error is returned and the whole encoding is written. A later encoding with the same encoder, once the destination works again, is complete.",
  ["inputs", "fault_sequences"], "all values of a family of types with symbolic content, and all points of failure, with and without a part of the failing write",
  "No test has a destination that fails; a lost error makes a cut value look complete.",
  [ENC, "api/peer/peer.go"], [("Encoder.encode*", ENC), ("Message.Encode, Handshake.Encode", "api/peer/peer.go")], observe=["Encoder.Encode", "Message.Encode", "the bytes that reached the destination"])
p("F01", "Bitfields behave as sets of piece indices",
  "A bitfield created for n items reports membership exactly for the indices that were added: membership of an index outside its storage is false, adding an index outside its storage changes nothing, and neither panics. Listing returns the members in ascending order without duplicates, and the difference of two bitfields of any lengths contains exactly the members of the first that are not in the second, leaving both operands unchanged.",
  ["inputs"], "all sizes up to the bound, all contents, all indices",
  "Tests use one 16-bit pattern; indices come from remote peers and sizes from torrents.",
  ["bitfield/bitfield.go"], [("index arithmetic in Has/Add/Items/Difference/New", "bitfield/bitfield.go")], observe=["bitfield.Bitfield"])
p("F02", "A future delivers its one value to every waiter",
  "Under every interleaving of one delivery with any number of waits, no wait returns before the delivery, every wait returns after it, and each returns exactly the delivered value without a data race.",
  ["schedules", "inputs"], "all interleavings of one deliverer with several waiters",
  "No test exists for futures; correctness is a statement about interleavings.",
  ["future/future.go"], [("value write before channel close", "future/future.go")], observe=["future.Future"])

PEER = "api/peer/peer.go"
p("W01", "Peer messages: encode then decode is the identity, on the BEP 3 wire format",
  "For every message of every type (indices, offsets and lengths in 32 bits, any payload), the encoded bytes are the BEP 3 frame (4-byte big-endian length, type byte, big-endian fields, payload), and decoding them yields a message equal in type and all fields.",
  ["inputs"], "all field values, all payloads up to the bound, all message types",
  "Tests pair each type with one fixed message.",
  [PEER], [("Message.Encode / Message.Decode", PEER)], observe=["peer.Message", "peer.Write", "peer.ReadMessage"])
p("W02", "Malformed peer frames are rejected without panic or over-read",
  "For every byte stream, reading a message terminates without panicking and consumes exactly the announced frame; a frame whose payload length does not fit its type is an error, a truncated frame is an error, and a zero-length frame is a keepalive. A successfully read message can be re-encoded to the very bytes that were consumed, and results do not depend on how the stream is split into reads.",
  ["inputs", "fault_sequences"], "all frames with small announced lengths, all types, all splits and truncations",
  "A remote peer controls every byte; tests decode well-formed frames only.",
  [PEER], [("length and type checks in Message.Decode", PEER)], observe=["peer.ReadMessage", "Message.UnmarshalBinary"])
p("W03", "Handshakes round-trip and foreign protocols are refused",
  "Encoding a handshake gives the 68-byte BEP 3 layout and decoding it returns the same info hash and peer id, for all hashes and ids and regardless of reserved bits or of how the stream is split. Any input with a different protocol string or fewer bytes is an error, and exactly 68 bytes are consumed on success.",
  ["inputs", "fault_sequences"], "all hashes, ids, reserved bytes; all corruptions of the protocol string; all splits and truncations",
  "One handshake is tested in each direction.",
  [PEER], [("Handshake.Encode / Handshake.Decode", PEER)], observe=["peer.ReadHandshake", "peer.Handshake"])

MI = "api/metainfo/metainfo.go"
p("M01", "The info hash is the SHA-1 of the exact info bytes",
  "Decoding a torrent sets the info hash to the SHA-1 of exactly the bytes of the info dictionary as they appear in the input, including keys the client does not know, wherever the dictionary stands in the torrent.",
  ["inputs"], "all contents of the info dictionary, known and unknown keys, all surroundings",
  "Peers and trackers only agree when the hash is over the exact bytes; tests hash one fixed dictionary.",
  [MI, DEC], [("Info.UnmarshalBencoding", MI)], observe=["metainfo.Info.SHA1"])
p("M02", "Pieces tile the torrent exactly",
  "For every consistent torrent description, single- or multi-file, the piece lengths are positive, all but the last equal the nominal piece length, the last is at most that, and they sum to the total length, which is the sum of the file lengths or the single length.",
  ["inputs"], "all total lengths, piece lengths and file splits within the bounds",
  "Tests compute this for a handful of sizes; off-by-one and overflow need boundary values (totals beyond 32 bits, exact multiples).",
  [MI], [("GetLength / GetPieceLength", MI)], observe=["metainfo.Info.GetLength", "metainfo.Info.GetPieceLength"])
p("M03", "Torrent descriptions round-trip and arbitrary torrent bytes never crash",
  "Every torrent description (announce URLs and tiers, dates, comments, single- and multi-file infos, piece hashes) survives encoding followed by decoding unchanged. Decoding arbitrary bytes as a torrent, info, piece list or date never panics, and a piece string whose length is not a multiple of 20 is an error.",
  ["inputs"], "all field values and small lists; all byte strings up to the bound",
  "Tests check three fixed values and never a multi-file torrent through the decoder.",
  [MI, DEC, ENC], [("bencode tags and custom (un)marshalers of Metainfo, Info, Pieces, Time", MI)], observe=["bencode.Marshal", "bencode.Unmarshal on metainfo types"])

TR = "api/tracker/tracker.go"
p("T01", "Tracker announce requests survive encode and decode",
  "For every announce request, decoding its query-string encoding gives back every field exactly, including binary hashes and ids, negative counters and empty optional fields. Decoding any query string never panics.",
  ["inputs"], "all field values, all binary ids, all query strings up to the bound",
  "One request is tested in each direction, sharing no path between the two.",
  [TR], [("Request.Encode / Request.Decode", TR)], observe=["tracker.Request"])
p("T02", "Tracker peer lists decode to exactly the peers sent, or to an error",
  "A compact peer string of 6k bytes decodes to the k IPv4 addresses and ports it spells in order, and re-encodes to the same bytes; a list of dictionaries decodes to the listed peers, id being optional; any other shape, type or length is an error and never a panic. Encoding compactly refuses addresses that are not IPv4 and ports outside 16 bits; encoding an empty list, in either form, still yields a value the decoder accepts.",
  ["inputs"], "all compact strings up to the bound; all list shapes and value types; all peers",
  "A tracker controls these bytes; tests use two peers in the two formats.",
  [TR], [("Peers.MarshalBencoding / UnmarshalBencoding", TR)], observe=["tracker.Peers", "tracker.Response"])

p("G01", "Magnet links parse to exactly their parameters",
  "For every magnet link, parsing never panics and returns the decoded exact topic, name, length, trackers in order, web seed and peers given in the query; a length that is not a decimal integer is an error, and absent parameters give zero values.",
  ["inputs"], "all parameter values and encodings up to the bound",
  "One link is tested.",
  ["api/magnet/magnet.go"], [("ParseMagnetURL", "api/magnet/magnet.go")], observe=["magnet.ParseMagnetURL"])

ST, TO = "storage/storage.go", "storage/torrent.go"
p("S01", "Downloaded data reads back exactly, from pieces and from finished files",
  "Whatever the order in which the blocks of a torrent arrive, once a piece is complete every range inside it reads back as exactly the bytes stored, and once all pieces are complete the target file, or every file of a multi-file torrent at its relative path, holds exactly the corresponding bytes and all ranges inside each piece still read back the same. Once the torrent is finished, no piece or temporary file is left in the work directory, also after corrupt pieces were refused and attempts abandoned.",
  ["inputs", "histories"], "all block arrival orders, block contents, read ranges and file splits within the bounds",
  "Tests store blocks in order and read aligned ranges for one geometry.",
  [ST, TO, "storage/lazy_file_reader.go"], [("PutBlock, coalesceBlocks, coalescePieces, GetBlock", ST)], observe=["storage.Storage.PutBlock", "GetBlock", "target directory"])
p("S02", "Only hash-verified data is ever stored as complete or served",
  "A piece is reported complete, listed in the torrent's bitfield, written to disk under its final name, or served to readers only when the SHA-1 of its assembled bytes equals the expected hash. A mismatch is reported as a checksum error to the writer of the last block and to waiters, and after a reset, which those waiting are told of, the piece can be downloaded again and completed, whatever was stored before the reset.",
  ["inputs", "histories"], "all block contents, all arrival orders, all sequences of bad and good attempts",
  "No test stores corrupt data.",
  [ST, TO], [("hash comparison in coalesceBlocks; Piece.reset", "storage/storage.go, storage/torrent.go")], observe=["storage.Storage.PutBlock", "ResetPiece", "Piece.Wait", "Torrent.Bitfield"])
p("S03", "Blocks outside the torrent's geometry are rejected without effect",
  "For every index, offset and length, storing a block succeeds only if it is one of the torrent's blocks (valid piece index, aligned offset inside the piece, exact block length) that is not yet present; anything else returns an error, never panics, and leaves storage unchanged so that the right blocks still complete the torrent.",
  ["inputs", "histories"], "all indices, offsets and lengths an int can hold, against all small geometries",
  "Peers choose these numbers; tests try three wrong combinations.",
  [ST, TO], [("checkBlockSize, Piece.putBlock", "storage/storage.go, storage/torrent.go")], observe=["storage.Storage.PutBlock"])
p("S04", "Read requests outside available data fail cleanly",
  "For every index, offset and length, reading a block returns exactly the requested number of bytes of the torrent's content at that position, or an error when the piece is not complete or the range is not inside the piece; it never panics, whether the data is in a piece file, a single file or several files.",
  ["inputs"], "all indices, offsets and lengths, in each storage state",
  "Peers choose these numbers; tests read valid ranges only.",
  [ST], [("GetBlock and the getBlockFrom* functions", ST)], observe=["storage.Storage.GetBlock"])
p("S05", "A crash at any point loses no completed piece and never exposes partial files",
  "If the process dies at any file-system operation and storage is then reopened, every piece that had been reported complete is still complete and reads back correctly, nothing that was not verified is reported complete, the target path is either absent or the complete torrent, and downloading can be resumed to the finished torrent. (Death of the process, not of the machine: what was written is not lost; the target and work directories are distinct and used by this client only.)",
  ["crash_points", "histories"], "every file-system step of storing, completing and finishing as the crash point, including partial writes",
  "Tests reopen storage only after clean operation.",
  [ST], [("temp file, hash check, rename, RemoveAll order in coalesceBlocks/coalescePieces; Load", ST)], observe=["storage.New", "storage.Storage.Load"])
p("S06", "Concurrent storage use neither deadlocks, races nor loses blocks",
  "Under every interleaving of concurrent block stores, reads and waits on the same or different pieces, all calls return, each block is accepted exactly once, waiters on a piece or torrent return once it is finished, data read is correct, and there is no data race.",
  ["schedules"], "all interleavings of two or three concurrent operations up to the preemption bound",
  "The one concurrent test runs a few of the possible schedules and never mixes readers with the completing writer.",
  [ST, TO], [("Torrent.mu / Piece.mu lock order", "storage/storage.go, storage/torrent.go")], observe=["storage.Storage.PutBlock", "GetBlock", "Piece.Wait", "Torrent.Wait"])
p("S07", "The downloaded counter equals the verified bytes on disk",
  "At every moment between operations, and after reopening, the number of bytes storage reports as downloaded equals the total length of the pieces it holds complete, for single- and multi-file torrents, partial and finished; failed checksums and rejected blocks do not count.",
  ["histories", "inputs"], "all sequences of good, bad and duplicate blocks and reopen points within the bounds",
  "No test reads the counter.",
  [ST], [("Storage.downloaded updates in PutBlock and Load", ST)], observe=["storage.Storage.Downloaded"])
p("S08", "All files stay inside the target and work directories",
  "Whatever names and path components a torrent carries, storage never creates, renames, removes or reads anything outside its target and work directories: a torrent with names that would escape is refused with an error.",
  ["inputs"], "all names and path components up to the bound, including separators, dots and empty components",
  "Torrents are untrusted; tests use plain names.",
  [ST, MI], [("filepath.Join of Info.Name and File.Path in storage", ST)], observe=["file system outside TargetDir and WorkDir"])
p("S09", "Reopening tolerates any work directory content and counts only real pieces",
  "Whatever entries the torrent's work directory contains, opening storage never panics; exactly the piece files this client writes (canonical name of an existing index, with the length of that piece) are taken as complete pieces, each once, and other entries are ignored.",
  ["inputs"], "all directory entry names and sizes up to the bound",
  "Tests reopen directories written by the storage itself.",
  [ST], [("directory scan in Load", ST)], observe=["storage.Storage.Load", "Torrent.Bitfield"])

PX = "pex/http.go"
p("S10", "A failing file operation loses no completed piece and can be recovered from",
  "When any operations on files fail with an error (also after writing a part), the storage call concerned returns an error or succeeds, and never panics; storing a block succeeds only if the piece, or the torrent, that it completes is in place; nothing unverified is reported complete, served or exposed at the target path; waiters for a piece that could not be stored are told; every completed piece can still be read once operations succeed again; a failed piece can be reset and stored again, opening can be tried again with the same storage, and after storing the missing pieces, or opening again, the torrent is finished.",
  ["fault_sequences", "histories"], "every file operation of opening, storing, reading and finishing as the one that fails, alone and in pairs",
  "No test makes a file operation fail; full disks and input/output errors hit any step.",
  [ST, TO], [("error paths of coalesceBlocks, coalescePieces, Load, GetBlock", ST)], observe=["storage.Storage.Load", "PutBlock", "GetBlock", "ResetPiece"])
p("S11", "Exactly the descriptions whose pieces make up their files are opened",
  "Opening the storage of a torrent succeeds only if its piece length is positive and less than 2^32, no file has a negative length, the lengths add up to at most 2^63-1 bytes, and there are exactly as many piece hashes as pieces of that length hold the total; a torrent that fails this is refused with an error, without a crash, and none of its pieces or bytes is reported as present. A description that meets it (and has safe names) is not refused, and its blocks are judged by their content.",
  ["inputs"], "all values of the piece length and of the lengths of the files, with every number of piece hashes up to the bound",
  "Torrent files come from strangers, and tests only use consistent ones; an inconsistent one hangs the download (a piece without blocks) or exhausts the memory (a piece of 2^60 bytes).",
  [ST, TO, "api/metainfo/metainfo.go"], [("checkLengths, Load", ST), ("GetLength, GetPieceLength", "api/metainfo/metainfo.go")], observe=["storage.Storage.Load"])
p("X01", "Tracker answers list exactly the live other peers of the torrent",
  "After any sequence of announces over time, the answer to an announce lists exactly those peers of the same torrent that announced within the last minute, whose last event was not 'stopped', and that are not the requester, each once, with the address and port of their latest announce, addresses in canonical form; other torrents never leak in. (Compact answers can carry and list only IPv4 peers; a peer whose last announce is exactly one minute old may be listed or not.)",
  ["histories", "inputs"], "all announce histories up to the bound over several torrents, peers, events and elapsed times",
  "The tracker endpoint has no tests at all.",
  [PX], [("ServeHTTP peer table", PX)], observe=["HTTP.ServeHTTP response"])
p("X02", "Every announce gets a well-formed answer",
  "For every query string and remote address, the tracker endpoint answers without panicking, and every body it writes decodes as a tracker response: a failure reason for unknown torrents, missing or invalid ports or addresses, otherwise an interval and a peer list in the requested form, even when empty and whatever other peers have registered.",
  ["inputs", "histories"], "all announce parameters up to the bound, all small tables of registered peers",
  "The tracker endpoint has no tests at all.",
  [PX, TR], [("ServeHTTP, Response encoding", PX)], observe=["HTTP.ServeHTTP response"])

SV, PR, MT = "p2p/server.go", "p2p/peer.go", "p2p/multitracker.go"
p("X03", "Clients of one tracker find each other and complete the torrent",
  "When clients that hold all pieces between them announce to the tracker of this repository, at the same time or one after the other, they connect to each other and trade until each of them holds the complete, identical torrent at its target path; each downloads exactly the bytes it lacked, what was uploaded in total is what was downloaded, and stopping the clients ends all connections.",
  ["histories", "schedules"], "all distributions of pieces over two or three clients, orders and delays of joining, and interleavings within the bounds",
  "Nothing tests tracker, client and storage together.",
  [SV, PR, MT, ST, "pex/http.go"], [("Server.Start, Serve, DialPeers, RequestPieces", SV), ("HTTP.ServeHTTP", "pex/http.go")], observe=["target directories", "Server.Uploaded/Downloaded", "net.Conn"])
p("N01", "At most one live connection per peer, at most fifty, and slots are returned",
  "Under every history and interleaving of connects, failed handshakes and disconnects, at most one active connection exists per peer identity and address, never more than fifty in total; a refused, failed or closed connection is closed and leaves no trace that makes a later connection with that peer be refused (an address under which a connected peer is known may be refused while that peer is connected), and no operation blocks for ever on the server's own lock.",
  ["histories", "schedules", "fault_sequences"], "all small histories and interleavings of connection attempts with arbitrary identities and failures at each step",
  "The p2p package has no tests.",
  [SV, PR], [("Server.Connect / Disconnect, activePeers", SV)], observe=["Server.Connect", "Server.Disconnect", "net.Conn"])
p("N02", "Only matching handshakes are accepted",
  "A connection becomes active only if the remote handshake carries the same info hash, a peer id different from our own, and, when we dialled a known peer, the expected peer id; otherwise it is refused. Our own handshake and then our bitfield are the first bytes sent.",
  ["inputs"], "all remote handshakes",
  "The p2p package has no tests.",
  [PR, SV], [("Peer.Handshake", PR)], observe=["Peer.Handshake", "Server.Connect"])
p("N03", "Choking is honoured in both directions",
  "Data is sent to a remote peer only while we are not choking it, and block requests are sent only while it is not choking us; on being choked every outstanding request fails promptly. Choke, unchoke and interest messages are sent exactly on state changes. (A request received while we choke the peer is not answered; its connection may be closed.)",
  ["histories", "schedules"], "all message sequences up to the bound and their interleavings with requests",
  "The p2p package has no tests.",
  [PR], [("Peer.Send, HandleRequest, Receive", PR)], observe=["bytes on net.Conn"])
p("N04", "No remote message can crash the client",
  "For every message a remote peer can send in any state, handling it returns without panicking; out-of-range piece indices, offsets, lengths and bitfields are refused or ignored and do not disturb the recorded state of other peers or pieces.",
  ["inputs", "histories"], "all messages of all types with all field values, in each protocol state",
  "The p2p package has no tests; a single crafted frame ends the process if this fails.",
  [PR, SV, ST], [("Peer.HandleMessage and handlers", PR)], observe=["Peer.HandleMessage"])
p("N05", "Piece downloads request each byte exactly once and finish or fail",
  "Downloading a piece from a peer requests blocks that are aligned, at most one block long, inside the piece, pairwise disjoint and together cover the piece; the download succeeds exactly when the verified piece is stored, and otherwise returns an error, for every order of answers, choke, timeout or corrupt data, without panicking or waiting for ever.",
  ["inputs", "schedules", "fault_sequences"], "all piece lengths within the bound, all answer orders and failures",
  "The p2p package has no tests.",
  [PR, ST], [("Peer.requestPiece / requestBlock", PR)], observe=["requests on net.Conn", "storage state"])
p("N06", "The rarest missing piece is chosen",
  "When a peer is asked for its next piece, the chosen piece is one that the peer has, that we lack and that no other peer is downloading, and among those one that the fewest connected peers have; each piece is being downloaded from at most one peer at a time.",
  ["inputs", "histories"], "all small availability tables and in-flight sets",
  "The p2p package has no tests.",
  [SV], [("requestPieceFromPeer, indexToPeers", SV)], observe=["first request sent"])
p("N07", "Trackers are tried in tier order and a responder moves to the front",
  "Announcing tries every tracker of each tier in order, tier after tier, until one answers successfully, returns that answer, and moves that tracker to the front of its tier while keeping the order of the others and of the tiers; if all fail an error is returned. An unusable answer (failure reason, malformed body) or URL counts as failure; a missing peer list counts as an empty one. Response bodies are closed.",
  ["inputs", "fault_sequences"], "all small tier layouts and all success and failure patterns over several announces",
  "The p2p package has no tests.",
  [MT], [("Multitracker.get", MT)], observe=["HTTP requests in order", "Multitracker.TrackerTiers"])
p("N08", "Announced counters are truthful",
  "Every announce carries the torrent's info hash, our peer id and port, the event asked for, the bytes uploaded and downloaded so far, and as 'left' exactly the torrent's total length minus the verified bytes held, for single- and multi-file torrents; a query that the announce URL already has is kept.",
  ["inputs", "histories"], "all torrent sizes, progress states and transfer histories within the bounds",
  "The p2p package has no tests.",
  [MT, SV, PR], [("Tracker.get", MT), ("HandleRequest / HandlePiece counters", PR)], observe=["HTTP query sent to the tracker", "Server.Uploaded/Downloaded"])
p("N09", "Peers that are blocked stay blocked and are disconnected",
  "Once a peer is blocked, all of its known addresses are refused when learnt again from a tracker or dialled, its connection is closed and it is removed from the availability table; peers that were not blocked are unaffected.",
  ["histories"], "all small histories of learning, connecting, blocking and re-learning peers",
  "The p2p package has no tests.",
  [SV], [("Server.Block, AddPeer, dialPeer", SV)], observe=["Server.Block", "Server.AddPeer"])
p("N10", "Requests are answered with exactly the requested data, in order",
  "Each request of an unchoked peer for a range inside a complete piece is answered, in order, by one piece message with the same index and offset and exactly the requested bytes; requests that cannot be served send nothing (and may end the connection). A cancel affects at most the requests before it.",
  ["inputs", "histories"], "all request fields and all short sequences of requests and cancels",
  "The p2p package has no tests.",
  [PR, ST], [("Peer.HandleRequest / HandleCancel", PR)], observe=["bytes on net.Conn"])
p("N11", "Piece availability reflects exactly the connected peers' announcements",
  "After any sequence of have and bitfield messages and disconnects, the peers recorded as having a piece are exactly the connected peers that announced it, a peer's own recorded set is exactly what it announced, and interest is expressed to a peer once it has a piece we lack.",
  ["histories"], "all short message sequences over several peers",
  "The p2p package has no tests.",
  [PR, SV], [("HandleHave, RecordIndex, disconnect", "p2p/peer.go, p2p/server.go")], observe=["interested messages", "piece selection"])
p("N12", "Every connected peer is told of each new piece",
  "When a piece has been downloaded and verified, every connected peer is sent exactly one have message for it (a peer that connects meanwhile may learn it from the bitfield instead), also when sending to another peer fails, another peer does not read any more, or a connection ends at that moment; no piece is announced that is not held.",
  ["schedules", "fault_sequences"], "all small sets of working, broken and ending connections and their interleavings with the completion",
  "The p2p package has no tests; a broadcast that stops at the first failure starves the swarm unnoticed.",
  [SV], [("Server.requestPiece broadcast; Server.Connect bitfield", SV)], observe=["bytes on net.Conn"])
p("N13", "Peers that have the torrent between them lead to the complete torrent",
  "When peers that answer every request correctly have all missing pieces between them and unchoke us, the download completes in bounded time, whether they announce the pieces at once or one by one, before or after they unchoke us, and also when other connected peers stall, choke, leave or send wrong data for the pieces that they are asked for: every piece is held, the target holds exactly the torrent, every piece was announced once to every peer, and no proper connection was closed.",
  ["histories", "schedules"], "all distributions of pieces over peers and initial states for small torrents",
  "The p2p package has no tests; liveness of the request queue depends on interleavings.",
  [SV, PR, ST], [("RequestPieces, requestPieceFromPeer, queuePeer", SV)], observe=["requests on net.Conn", "target directory", "Storage.Downloaded"])
p("N14", "Stopping ends everything",
  "Whatever the client is doing, starting included, after a Stop that succeeded its Start returns, the listener and every connection are closed within the handshake time limit, the tracker has been told, nothing of the client keeps running, and there is no deadlock or data race.",
  ["schedules", "fault_sequences"], "all activity states at the moment of the stop and their interleavings",
  "The p2p package has no tests.",
  [SV], [("Server.Start / Stop", SV)], observe=["Server.Stop", "net.Conn", "goroutines"])
p("N15", "Listed peers are dialled unless they are connected",
  "Every address that the tracker lists and over which no connection is live or being made is dialled, in every announce interval again, also when an earlier connection to it was refused, failed or ended; an address over which a connection is live is not dialled again, and no address is dialled that is not listed. A periodic announce that fails ends nothing and is made again an interval later.",
  ["histories", "fault_sequences"], "all histories of lists, failures, connections and ends over a few announces",
  "The p2p package has no tests; a peer that is forgotten after its first failure is noticed by nobody.",
  [SV], [("Server.Announce, AddPeer, DialPeers", SV)], observe=["addresses dialled"])
p("N16", "Data that was not requested of its sender changes nothing",
  "A piece message counts only if it answers a block request that is open at the peer that sends it (one that ended by a choke or the time limit is not). Any other one, whatever its index, offset and data, stores nothing, is not counted as downloaded, does not disturb the download of that or any piece from another peer, and never gets another peer disconnected or blocked.",
  ["inputs", "histories"], "all unrequested piece messages in the stated states",
  "The p2p package has no tests; one peer could have others blocked by injecting data into their downloads.",
  [PR, ST], [("Peer.HandlePiece", PR)], observe=["Storage.Torrent", "Server.Downloaded", "net.Conn of other peers"])

p("N17", "The parts of a running client share data only under synchronisation",
  "Whatever its peers, its tracker, its timers and its user do at the same time, no two goroutines of the client access the same memory, at least one writing, without being ordered by a lock, channel or atomic operation, and none of them panics.",
  ["schedules", "histories"], "all pairs of simultaneous events in the stated states, under all their schedules",
  "The p2p package has no tests, and the race detector only sees schedules that happen.",
  [PR, SV, ST], [("Server.mu and the atomic state of peers", SV)], observe=["Server.Start", "Server.Stop", "net.Conn"])

p("N18", "Announces repeat at the tracker's interval, whatever the tracker answers",
  "From its start until it is stopped the client announces itself once after every interval the tracker asked for when it was started, without an event; if that interval is missing, not positive or longer than a day it announces itself at some interval between a minute and an hour. No answer and no failure of the tracker ends this, crashes the client or keeps it from meeting peers.",
  ["inputs", "histories"], "all intervals of the stated kinds and all sequences of answers within the bounds",
  "The p2p package has no tests; a tracker that answers interval 0 must not take the client down.",
  [SV, "p2p/multitracker.go"], [("Server.Start, every", SV)], observe=["Server.Start", "http.Get"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for d in P: f.write(json.dumps(d, ensure_ascii=False) + "\n")
print(len(P), "properties")
