SE = "symbolic execution of the Go SSA, SMT (z3)"
check("B01", [
    run("hben.B01Ints", 30, reach=["int"]),
    run("hben.B01Strings", 30, reach=["string"]),
    run("hben.B01Scalars", 30, reach=["scalars"]),
    run("hben.B01Lists", 30, reach=["list"]),
    run("hben.B01Maps", 30, reach=["map"]),
    run("hben.B01Any", 60, reach=["any"], depth=1, width=3, ttime=600, th=dict(depth=2, width=2)),
    run("hben.B01Any", 60, reach=["any"], depth=2, width=1, ttime=600, th=dict(depth=3, width=1)),
  ], "Every path of encoder and decoder over all integers of every width, all strings up to the stated lengths and all value shapes up to the stated depth and width is explored; the solver decides every comparison. Larger nestings and custom marshalers are outside the bounds.")
check("B02", [
    run("hben.B02Any", 60, reach=["accepted", "rejected"], n=4),
    run("hben.B02Any", 60, reach=["accepted", "rejected"], n=7, th=dict(n=9), ttime=600),
    run("hben.B02Typed", 60, reach=["accepted", "rejected"], n=4, th=dict(n=6), ttime=600),
    run("hben.B02Raw", 60, reach=["accepted", "rejected"], n=5, th=dict(n=6), ttime=600),
    run("hben.B02Raw", 60, reach=["accepted", "rejected"], n=6, dict=1, th=dict(n=8), ttime=600),
    run("hben.B02Held", 60, reach=["accepted", "rejected"], n=3, th=dict(n=5), ttime=600),
    run("hben.B02Deep", 60, reach=["deep"], nonative=True, maxdepth=150000, maxsteps=60000000),
  ], "All byte strings of the stated lengths (7, 5 and 4 in quick, 9 and 6 in thorough; decoded, captured, skipped) against a reference reader written from the bencoding specification; also into destinations that hold values of 14 kinds or cannot be decoded into (3 symbolic bytes), and nestings 50000 deep, during which no more than 60000 calls may be active. Longer inputs are outside the bounds.")
check("B03", [
    run("hben.B03Ints", 30, reach=["int"]),
    run("hben.B03Struct", 60, reach=["struct"]),
    run("hben.B03Order", 30, reach=["order"]),
    run("hben.B03Any", 60, reach=["encoded"], depth=1, width=2, ttime=600, th=dict(depth=1, width=3)),
    run("hben.B03Any", 60, reach=["encoded"], depth=2, width=1, ttime=600, th=dict(depth=3, width=1)),
  ], "All integers, strings and value shapes within the stated depth and width, with every map iteration order; the output is parsed by a reference reader. Custom marshalers are assumed to produce canonical values.")
check("B04", [
    run("hben.B04", 100, reach=["fits", "rejected"], th=dict(all=21), ttime=600),
    run("hben.B04Raw", 60, reach=["fits", "rejected"]),
  ], "Every integer text with the stated digit counts, symbolically, against every integer kind; the numeric value is computed independently by the harness.")
check("B05", [
    run("hben.B05Capture", 60, reach=["captured", "malformed"], n=4, th=dict(n=6), ttime=600),
    run("hben.B05Lists", 60, reach=["list"], n=5, th=dict(n=7), ttime=600),
    run("hben.B05Verbatim", 60, reach=["verbatim"]),
    run("hben.B05Errors", 60, reach=["refused"]),
  ], "Captured values are all byte strings up to the stated length, embedded at every place of the harness structures.")
check("B06", [
    run("hben.B06Encode", 60, reach=["encoded"]),
    run("hben.B06Decode", 60, reach=["decoded"]),
    run("hben.B06Unknown", 60, reach=["skipped"]),
    run("hben.B06Ambiguous", 60, reach=["ambiguous"]),
    run("hben.B06Omit", 60, reach=["omit"]),
    run("hben.B06Marshalers", 60, reach=["marshalers"]),
  ], "Symbolic field values in a fixed family of struct types covering tags, embedding, shadowing, ambiguity and omitempty; struct types themselves are not symbolic.")
check("B07", [
    run("hben.B07Chunks", 60, reach=["accepted", "rejected"], n=4, max=3, zero=1, th=dict(n=6, max=3), ttime=600),
    run("hben.B07Successive", 60, reach=["concatenation"], n=3, th=dict(n=4), ttime=600),
    run("hben.B07Long", 60, reach=["long"], cuts=1),
    run("hben.B07Truncated", 60, reach=["truncated"], cuts=1, th=dict(cuts=2), ttime=600),
  ], "All inputs of the stated length with every split into reads of at most three bytes, plus fixed longer values with symbolic contents cut at every position.")
check("B08", [
    run("hben.B08Graphs", 60, reach=["cyclic", "acyclic"], k=2, maxdepth=50000),
    run("hben.B08Types", 60, reach=["types"], maxdepth=50000),
    run("hben.B08Depth", 60, reach=["depth"], maxdepth=50000),
  ], "Every object graph over the stated number of nodes and edge kinds.")
check("B10", [
    run("hben.B10", 60, reach=["written", "failed"]),
    run("hben.B10Peer", 60, reach=["written", "failed"]),
  ], "Eight kinds of values and eight messages with symbolic content of up to two bytes per string, every number of bytes that the destination takes.")
check("F01", [
    run("hbit.F01Set", 60, reach=["set"], n=20, adds=3, th=dict(n=70, adds=3), ttime=600),
    run("hbit.F01Items", 60, reach=["items"], bytes=2, th=dict(bytes=3), ttime=600),
    run("hbit.F01Diff", 60, reach=["diff"], bytes=3, th=dict(bytes=5), ttime=600),
  ], "Every index, symbolically, against a reference set, for bitfields of every size up to the stated number of bits; items and differences for all contents of the stated number of bytes.")
check("F02", [
    run("hfut.F02", 60, reach=["delivered"], waiters=2, preempt=3, tpreempt=5, th=dict(waiters=3), ttime=600),
    run("hfut.F02Types", 60, reach=["types"]),
    run("hfut.F02None", 60, reach=["blocked"]),
  ], "Every schedule of the stated number of waiters against a delivery, with the stated number of preemptions, the delivered value being symbolic.")
check("W01", [
    run("hpeer.W01", 60, reach=["roundtrip"]),
  ], "Every message kind with symbolic fields; bitfields and blocks have symbolic contents up to a few bytes.")
check("W02", [
    run("hpeer.W02", 120, reach=["accepted", "rejected", "keepalive"], n=18, th=dict(n=23), ttime=900),
    run("hpeer.W02Split", 60, reach=["accepted", "rejected", "keepalive"], n=14, cuts=1, zero=1, th=dict(n=18, cuts=2), ttime=900),
    run("hpeer.W02Again", 60, reach=["concatenation"]),
  ], "All byte streams of every length up to the stated one against an independent reading of the wire protocol; split reads are explored for the shorter ones.")
check("W03", [
    run("hpeer.W03Round", 60, reach=["roundtrip"]),
    run("hpeer.W03Foreign", 60, reach=["accepted", "refused"], cuts=3, zero=1, th=dict(cuts=4), ttime=600),
  ], "Every handshake; streams of fixed layout with arbitrary bytes, cut at every place into the stated number of reads, with empty reads and truncations.")
check("M01", [
    run("hmeta.M01", 60, reach=["hashed"], ttime=600),
    run("hmeta.M01Encoded", 60, reach=["encoded"], ttime=600),
  ], "The info dictionary has symbolic contents, unknown keys and whole arbitrary values; SHA-1 is the real one on concrete bytes and an uninterpreted function otherwise.")
check("M02", [
    run("hmeta.M02", 60, reach=["tiled"], pieces=4, files=3, th=dict(pieces=6, files=4), ttime=600),
  ], "Lengths are symbolic over their whole range for the stated number of files and pieces.")
check("M03", [
    run("hmeta.M03Round", 60, reach=["roundtrip"], th=dict(all=1), ttime=600),
    run("hmeta.M03Bytes", 100, reach=["accepted", "rejected"], n=4, th=dict(n=5), ttime=900),
    run("hmeta.M03Pieces", 60, reach=["pieces"]),
  ], "Every optional part present or absent with symbolic contents; arbitrary bytes of the stated length at every place of a torrent file.")
check("T01", [
    run("htrk.T01", 60, reach=["roundtrip"], free=2, th=dict(free=4), ttime=600),
    run("htrk.T01Query", 60, reach=["decoded", "rejected"], n=5, th=dict(n=7), ttime=600),
  ], "All counter values, all contents of the stated number of bytes anywhere in hashes, ids and texts; arbitrary query strings of the stated length after each parameter name.")
check("T02", [
    run("htrk.T02Compact", 60, reach=["decoded", "rejected"], n=13, free=2, th=dict(n=19, free=3), ttime=600),
    run("htrk.T02Dicts", 60, reach=["decoded", "rejected"], peers=2, th=dict(peers=3), ttime=600),
    run("htrk.T02Bytes", 60, reach=["accepted", "rejected"], n=5, th=dict(n=6), ttime=600),
    run("htrk.T02Encode", 60, reach=["refused", "compact", "dictionaries"]),
    run("htrk.T02Empty", 60, reach=["wellformed"]),
  ], "Compact lists of every length up to the stated one with arbitrary bytes at every place; dictionary lists of every shape; arbitrary bytes of the stated length.")
check("G01", [
    run("hmag.G01", 60, reach=["parsed"], params=2, len=2, th=dict(params=3), ttime=600),
    run("hmag.G01Length", 60, reach=["length", "rejected"], n=4, th=dict(n=6), ttime=600),
    run("hmag.G01Big", 60, reach=["big"]),
    run("hmag.G01Bytes", 60, reach=["parsed", "rejected"], n=4, th=dict(n=5), ttime=600),
  ], "Links of the stated number of parameters in every order with arbitrary values in every escaping; arbitrary links of the stated length after each prefix.")
FSNOTE = "The file system is a model in memory (no links, no I/O errors, writes survive the death of the process)."
SHA = "SHA-1 is collision-free (an uninterpreted injective function on symbolic bytes)."
def geos(h, gs, time=60, reach=(), th=(), **kw):
    return [run(h, time, reach=reach, geo=g, ttime=600, **kw) for g in gs] + [run(h, 600, reach=reach, geo=g, tier="thorough", **kw) for g in th]
check("S01",
    [run("hsto.S01", 100, reach=["finished"], geo=0, files=2, th=dict(files=3), ttime=900)] +
    [run("hsto.S01", 100, reach=["finished"], geo=g, files=f, th=dict(files=2), ttime=900) for g, f in ((1, 2), (2, 1), (3, 2), (4, 1), (5, 2), (6, 1), (7, 2))] +
    geos("hsto.S01Again", (0, 1, 2, 5), reach=["reopened"], th=(3, 4, 6, 7)) +
    geos("hsto.S01Bad", (0, 1), reach=["finished"], tries=1, th=(2, 3, 4, 5, 6, 7)),
  "Eight geometries (blocks of 16 KiB and short ones, up to three pieces), every order of arrival, every split into the stated number of files at every (for long pieces: every boundary) offset, arbitrary bytes at both ends of every block, every range (long pieces: every range between block boundaries).",
  assumptions=[FSNOTE, SHA])
check("S02", geos("hsto.S02", (0, 1, 7), reach=["mismatch", "accepted", "recovered"], tries=2, th=(2, 3, 4, 5, 6)),
  "Two attempts with arbitrary bytes at the ends of every block before the right ones, in both orders, with waiters, before or after the other pieces.",
  assumptions=[FSNOTE, SHA])
check("S03", geos("hsto.S03", (0, 1, 2), reach=["refused", "stored"][:1], th=(3, 4, 5, 6, 7)),
  "Index and offset are arbitrary ints; lengths are the stated ones around the block boundaries; five states of the storage.",
  assumptions=[FSNOTE, SHA])
check("S04", [
    run("hsto.S04", 100, reach=["refused", "served"], geo=0, files=1, th=dict(files=3), ttime=900),
    run("hsto.S04", 100, reach=["refused", "served"], geo=5, files=2, th=dict(files=3), ttime=900),
    run("hsto.S04", 100, reach=["refused", "served"], geo=1, files=1, th=dict(files=2), ttime=900),
    run("hsto.S04Cut", 100, reach=["served", "refused"], geo=0, files=2, th=dict(files=3), ttime=900),
    run("hsto.S04Cut", 100, reach=["served", "refused"], geo=5, files=2, th=dict(files=3), ttime=900)],
  "Index, offset and length are arbitrary ints (for long pieces: offsets and lengths around the block boundaries); five states of the storage, fresh and reopened, with one or several files; files that were cut, extended or removed since (what is read then is right or an error).",
  assumptions=[FSNOTE, SHA])
check("S05", [
    run("hsto.S05", 100, reach=["died", "died again", "exposed", "finished"], geo=0, nonative=True, lives=2, ttime=900),
    run("hsto.S05", 100, reach=["died", "died again", "exposed", "finished"], geo=1, nonative=True, lives=2, ttime=900),
    run("hsto.S05", 900, reach=["finished"], geo=6, nonative=True, lives=2, tier="thorough"),
    run("hsto.S05", 900, reach=["finished"], geo=5, nonative=True, lives=3, tier="thorough")],
  "Death at every change of the file system (creation, partial and whole write, rename, removal), then again at every change of the second run; one corrupt block at any place.",
  assumptions=[FSNOTE, SHA, "The process dies, not the machine: completed writes are not lost or reordered."])
check("S06", [
    run("hsto.S06", 60, reach=["finished"], sc=0, preempt=1, tpreempt=2, ttime=600),
    run("hsto.S06", 60, reach=["finished"], sc=1, preempt=2, tpreempt=3, ttime=600),
    run("hsto.S06", 60, reach=["finished"], sc=2, preempt=1, tpreempt=2, ttime=600),
    run("hsto.S06", 60, reach=["finished"], sc=3, preempt=2, tpreempt=3, ttime=600),
    run("hsto.S06", 60, reach=["finished"], sc=4, preempt=1, tpreempt=2, ttime=600),
    run("hsto.S06", 60, reach=["finished"], sc=5, preempt=1, tpreempt=2, multi=1, ttime=600)],
  "Six scenarios of two to four goroutines (same block twice; different pieces; two blocks of a piece; corrupt block, reset and readers; reset against stores; readers against the finishing write), every schedule up to the preemption bound, with happens-before race detection.",
  assumptions=[FSNOTE, SHA])
check("S07", [
    run("hsto.S07", 60, reach=["counted"], geo=0, steps=3, th=dict(steps=4), ttime=900),
    run("hsto.S07", 60, reach=["counted"], geo=1, steps=3, th=dict(steps=4), ttime=900),
    run("hsto.S07", 900, reach=["counted"], geo=7, steps=6, tier="thorough")],
  "All sequences of the stated number of operations (right block, corrupt block, reset, reopening) on one- and two-file torrents.",
  assumptions=[FSNOTE, SHA])
check("S08", [
    run("hsto.S08", 60, reach=["plain", "refused"], part=0, n=3, th=dict(n=5), ttime=600),
    run("hsto.S08", 60, reach=["plain", "refused"], part=1, n=3, th=dict(n=5), ttime=600),
    run("hsto.S08", 60, reach=["plain", "refused"], part=2, n=3, th=dict(n=4), ttime=600),
    run("hsto.S08", 60, reach=["refused"], part=3)],
  "Names and path components of every length up to the stated one over '/', '.', NUL, backslash and a letter, at every place of a path; the model records every path touched.",
  assumptions=[FSNOTE])
check("S09", [
    run("hsto.S09", 60, reach=["piece", "ignored"], geo=0, n=7),
    run("hsto.S09", 60, reach=["ignored"], geo=0, n=8),
    run("hsto.S09", 60, reach=["ignored"], geo=0, n=8, at=1),
    run("hsto.S09", 600, reach=["ignored"], geo=0, n=9, tier="thorough"),
    run("hsto.S09", 600, reach=["ignored"], geo=0, n=9, at=1, tier="thorough"),
    run("hsto.S09", 600, reach=["ignored"], geo=0, n=4, at=-1, tier="thorough")],
  "Work directory entries: any file or directory whose name contains '.piece' with one or two arbitrary bytes around it (any name of four bytes in thorough), of sizes 0 to 5, next to a real piece.",
  assumptions=[FSNOTE])
check("S11", [
    run("hsto.S11", 60, reach=["refused", "opened", "stored"], pieces=3, files=2, th=dict(pieces=5, files=2), ttime=600)],
  "Every value of the piece length, of the length and of up to two file lengths (all 64 bits), with up to the stated number of piece hashes, in an empty directory, beside a finished torrent and beside a download begun; a block of three bytes is offered where the torrent is opened.",
  assumptions=[FSNOTE])
check("X01", [
    run("hpex.X01", 60, reach=["listed", "end"], steps=3, people=2, nonative=True, th=dict(people=3, steps=3), ttime=900),
    run("hpex.X01", 60, reach=["listed", "end"], kind=2, people=4, steps=3, nonative=True, th=dict(steps=4), ttime=900),
    run("hpex.X01", 60, reach=["listed", "end"], kind=2, people=3, steps=2, events=4, nonative=True, th=dict(steps=3), ttime=900),
    run("hpex.X01", 60, reach=["listed", "end"], kind=1, people=2, steps=4, nonative=True, th=dict(steps=5), ttime=900),
    run("hpex.X01Values", 60, reach=["end"], steps=3, nonative=True, th=dict(steps=4), ttime=900),
    run("hpex.X01Concurrent", 60, reach=["end"], preempt=2, tpreempt=4, nonative=True, ttime=600)],
  "All histories of the stated number of announces over two torrents, up to four peers (IPv4, IPv6, mapped, one address in two spellings), stopping or not, with 1, 31 or 61 seconds between them and the clean-up running; announces whose address, port, id and event are symbolic; announces concurrent with each other and the clean-up, with race detection.",
  assumptions=["Time is virtual; a peer whose last announce is exactly one minute old may be listed or not."])
check("X02", [
    run("hpex.X02", 60, reach=["refused", "served"], part=0, n=2, before=1, th=dict(n=3), ttime=900),
    run("hpex.X02", 60, reach=["refused", "served"], part=1, n=4, before=1, th=dict(n=5), ttime=600),
    run("hpex.X02", 60, reach=["refused", "served"], part=2, n=3, before=1, th=dict(n=4), ttime=600),
    run("hpex.X02", 60, reach=["refused", "served"], part=3, n=2, before=1, th=dict(n=3), ttime=600),
    run("hpex.X02", 60, reach=["refused"], part=4, n=3, before=0, th=dict(n=5), ttime=600),
    run("hpex.X02", 60, reach=["refused", "served"], part=5, n=3, before=0, th=dict(n=4), ttime=600),
    run("hpex.X02", 60, reach=["refused", "served"], part=6, n=0, before=1, th=dict(before=2), ttime=600),
    run("hpex.X02Raw", 60, reach=["refused", "served"], n=4, th=dict(n=5), ttime=600)],
  "Arbitrary bytes of the stated length as port, digits, address, remote address, address suffixes and as whole query parts, in both answer forms, with registered IPv4, IPv6 and mapped peers.")
NET = "The network is a model: dials, listening and HTTP answers are the harness's; bytes arrive in order, writes either succeed or fail."
def n(h, time=100, reach=(), **k):
    k.setdefault("ttime", 900)
    return run("hp2p." + h, time, reach=reach, nonative=True, **k)
check("N01", [
    n("N01", reach=["accepted", "refused", "twice", "in use", "end"], steps=3, th=dict(steps=4)),
    n("N01Limit", reach=["end"], maxg=400, maxtimesteps=5000),
    n("N01Race", reach=["end"], old=0, th=dict(pre=2)),
    n("N01Race", reach=["end"], old=1, th=dict(pre=2)),
    n("N01Race", reach=["end"], old=2, th=dict(pre=2, sw=2))],
  "All histories of the stated number of connections (incoming, dialled, from a used address, from an address a connected peer is known at, failing its handshake in four ways or right after it) and ends over two identities at two addresses; fifty connections and one more, after more than fifty failures of each kind or none; connections of one identity at the same time as an older one ends, with race detection.",
  assumptions=[NET])
check("N02", [n("N02", reach=["accepted", "refused"])],
  "Info hash, peer id and reserved bytes of the remote handshake are symbolic, with and without an expected peer id.", assumptions=[NET])
check("N03", [
    n("N03", reach=["end", "refused", "requested", "served"], steps=4, th=dict(steps=5)),
    n("N03Own", reach=["end", "refused"], steps=5, th=dict(steps=6)),
    n("N03Both", reach=["end"], th=dict(pre=2)),
    n("N03Race", reach=["again", "choked", "later"], pre=2, th=dict(pre=3))],
  "All sequences of the stated number of remote messages and own decisions; concurrent choking, unchoking and interest and remote chokes in bursts, under every schedule up to the stated preemptions, with race detection.",
  assumptions=[NET])
check("N04", [n("N04", reach=["closed", "kept", "end"], state=s, sizes=10, th=dict(messages=2, sizes=4)) for s in range(4)],
  "One message (two in thorough) of arbitrary type and payload of ten different lengths, in four states; afterwards another peer must still be served and a new one met.", assumptions=[NET, "Longer bitfield messages have only a few symbolic bits."])
check("N05", [
    n("N05", reach=["held", "recovered"], length=0),
    n("N05", reach=["held", "recovered"], length=1),
    n("N05", reach=["held", "recovered"], length=2),
    n("N05", reach=["held", "recovered"], length=3, maxg=40),
    n("N05", reach=["held", "recovered"], length=4, maxg=40)],
  "Pieces of one to three blocks, answered in every order, with one wrong byte anywhere at the ends of a block, cut or misplaced answers, silence, choke, late answers or the end of the connection after every number of answers.",
  assumptions=[NET])
check("N06", [
    n("N06", reach=["chosen", "end"], pieces=3, peers=2, events=2, th=dict(events=3)),
    n("N06", reach=["chosen", "end"], pieces=3, peers=2, events=2, answers=1, th=dict(peers=3)),
    n("N06Hand", reach=["end"], pieces=1, events=5, maxg=60, th=dict(events=6)),
    n("N06Hand", reach=["end"], pieces=2, events=4, maxg=60, th=dict(events=5))],
  "All histories of the stated number of haves, bitfields and ends of two peers; then two seeders are asked, answering in every order. Three seeders of one or two pieces that answer, leave, choke or stall, in every order of the stated number of events.", assumptions=[NET])
check("N07", [n("N07", reach=["answered", "failed"] if t != 4 else ["failed"], tiers=t) for t in range(7)] +
  [n("N07Concurrent", reach=["end"], preempt=2, tpreempt=3)],
  "Six layouts of tiers, every tracker answering, refusing, failing or answering nonsense, over two rounds of announces; announces at the same time, with race detection.", assumptions=[NET])
check("N08", [n("N08", reach=["end"]), n("N08Traffic", reach=["both", "end"], th=dict(steps=5))],
  "Single- and multi-file torrents in several states of progress and with symbolic counters; sequences of transfers before an announce.", assumptions=[NET])
check("N09", [
    n("N09", reach=["end"], pre=1, sw=3, th=dict(pre=2, sw=3)),
    n("N09Order", reach=["chosen"]),
    n("N09Queue", reach=["end"], maxg=200, maxtimesteps=5000)],
  "IPv4, IPv6 and mapped peers, met at up to three addresses, sending a corrupt piece (any wrong byte at a place), while their connection ends or not or their address waits to be dialled, with race detection.", assumptions=[NET])
check("N10", [
    n("N10", reach=["answered", "refused", "end"]),
    n("N10", reach=["answered", "refused", "end"], cancel=1),
    n("N10Pipe", reach=["end"], th=dict(pre=2, sw=3))],
  "Two requests with symbolic index, offset and length, with cancels; three requests and cancels in one go under several schedules.", assumptions=[NET])
check("N11", [
    n("N06", reach=["chosen", "end"], pieces=2, peers=2, events=3),
    n("N06", reach=["chosen", "end"], pieces=3, peers=2, events=3, seeders=1, th=dict(pieces=2, peers=3, events=3)),
    n("N09Order", reach=["chosen"])],
  "All histories of the stated number of haves, bitfields and ends over two or three peers; what is recorded is observed in the interest sent and in which piece is the rarest.", assumptions=[NET])
check("N12", [n("N12", reach=["end"], sw=2, th=dict(sw=4))],
  "One new piece with three peers connected, one of them broken, ending or not reading any more, and another connecting at that moment, under every schedule within the stated preemption and switches, with race detection.", assumptions=[NET])
check("N13", [
    n("N13", reach=["downloaded"], geo=0, peers=2),
    n("N13", reach=["downloaded"], geo=1, peers=2),
    n("N13", reach=["downloaded"], geo=2, peers=2),
    n("N13", reach=["downloaded"], geo=3, peers=2),
    n("N13", reach=["downloaded"], geo=0, peers=3),
    n("N13", reach=["downloaded"], geo=0, peers=2, pre=1, sw=1, th=dict(sw=2)),
    n("N13Bad", reach=["downloaded"], geo=0, acts=4, maxg=80, th=dict(bads=2, acts=6)),
    n("N13Bad", reach=["downloaded"], geo=1, acts=3, maxg=80, th=dict(bads=2, acts=5)),
    n("N13Bad", reach=["downloaded"], geo=2, bads=2, acts=4, maxg=80, th=dict(acts=6)),
    n("N13Bad", reach=["downloaded"], geo=3, acts=3, maxg=80, th=dict(acts=5)),
    n("N13Bad", reach=["downloaded"], geo=2, acts=2, sw=2, maxg=80, th=dict(pre=1)),
    n("N13Late", reach=["downloaded"], geo=0, peers=1, steps=3, maxg=80, th=dict(steps=5)),
    n("N13Late", reach=["downloaded"], geo=1, peers=1, steps=3, maxg=80, th=dict(steps=5)),
    n("N13Late", reach=["downloaded"], geo=2, peers=2, steps=3, maxg=80, th=dict(steps=5)),
    n("N13Late", reach=["downloaded"], geo=3, peers=2, steps=2, maxg=80, th=dict(steps=4))],
  "All sets of pieces held at the start and had by the peers, one of which is a seeder, for four geometries and under several schedules; one or two peers that have everything and stall, end, choke, flap or answer partly or wrongly up to the stated number of times and are silent afterwards.", assumptions=[NET])
check("N14", [
    n("N14", reach=["end"], pre=0, sw=2, th=dict(sw=4)),
    n("N14", reach=["end"], pre=1, sw=0),
    n("N14Start", reach=["failed", "stopped", "started"], pre=1, sw=0, th=dict(sw=2))],
  "Starting that fails, or is met by up to two stops at any moment; stopping in six states (idle, downloading, waiting, in a handshake, as messages and connections arrive), with a tracker that answers or fails, under several schedules with race detection.", assumptions=[NET])

check("S10", [
    run("hsto.S10", 100, reach=["finished", "opening failed", "storing failed", "reading failed", "assembling failed", "exposed"], geo=0, faults=1, nonative=True),
    run("hsto.S10", 100, reach=["finished", "assembling failed"], geo=1, faults=1, nonative=True),
    run("hsto.S10", 100, reach=["finished", "assembling failed"], geo=2, faults=1, nonative=True),
    run("hsto.S10", 100, reach=["finished", "assembling failed"], geo=3, faults=1, nonative=True, th=dict(faults=2), ttime=900),
    run("hsto.S10", 100, reach=["finished", "assembling failed"], geo=5, faults=1, nonative=True, th=dict(faults=2), ttime=900)],
  "One failing operation (two in thorough) anywhere in opening, storing, reading and finishing torrents of one to three pieces, single- and multi-file, in both orders, with reopening in between; contents symbolic.",
  assumptions=[FSNOTE, "A write that reported success is stored; closing a file does not fail."])
check("B09", [
    run("hben.B09", 100, reach=["end"], preempt=2, switches=2, routines=2, tpreempt=3, ttime=600, th=dict(routines=3))],
  "Two calls (three in thorough) among four encodings and decodings of types not used before, with race detection.")
check("N15", [
    n("N15", reach=["end"], peers=1, interval=30),
    n("N15", reach=["end"], peers=2, interval=30, same=0, refuse=0, th=dict(refuse=1)),
    n("N15", reach=["end"], peers=1, interval=30, same=0, rounds=3, down=1, th=dict(rounds=4))],
  "All lists over one or two peers, one of them at two addresses, in up to three announces, which may fail; every dial refused, closed, answered wrongly, not answered or accepted, and connections that end or not.", assumptions=[NET])
check("X03", [
    n("X03", reach=["complete"], geo=1, clients=2, maxg=80, sw=1),
    n("X03", reach=["complete"], geo=2, clients=2, maxg=80, sw=1),
    n("X03", reach=["complete"], geo=0, clients=3, maxg=120, th=dict(sw=2)),
    n("X03", reach=["complete"], geo=3, clients=2, gap=3, sw=3, maxg=80, th=dict(sw=5)),
    n("X03", reach=["complete"], geo=3, clients=2, gap=1, pre=1, maxg=80, th=dict(sw=1))],
  "All distributions of one to three pieces over two or three clients that start together, in turn, 7 s or one announce interval apart, in the deterministic schedule and with the stated preemptions and other choices of the next goroutine.",
  assumptions=[NET, "The clients run on one host, told apart by their ports."])
check("N16", [
    n("N16", reach=["end"], geo=0, messages=2, maxg=60, th=dict(messages=3)),
    n("N16", reach=["end"], geo=1, messages=1, maxg=60, th=dict(messages=2)),
    n("N16Late", reach=["end"], geo=0, maxg=60),
    n("N16Late", reach=["end"], geo=1, maxg=60)],
  "Two messages (three in thorough) with any index in and just outside the torrent, any of several offsets, four sizes and symbolic data, from a peer that announced nothing, or was asked for another piece, or choked us since; late answers after the time limit or a choke, while another peer is asked; one or two blocks a piece.", assumptions=[NET])
check("N18", [n("N18", reach=["end"], maxtimesteps=20000, th=dict(junk=3))],
  "Ten intervals in the answer to the start (four proper ones, none, zero, negative, overflowing; one of them with four kinds of peer lists that hold nobody reachable), then up to three more answers, each of them proper, none, a failure, two or three arbitrary bytes, another interval or a peer that is none; the clock is the engine's.", assumptions=[NET])
check("N17", [n("N17", reach=["end"], maxg=80, th=dict(pre=1, sw=1))],
  "Every pair of twelve events (announced pieces, unchoke, choke, a request and its cancellation, an answered block or a block nobody asked for, a corrupt piece, the end of the connection, an incoming connection of a new or of the same peer, an added peer and the counters read, the unchoke timer, the announce timer, stopping) happening to two peers at once in a client that is idle, interested or downloading; race detection over the happens-before order, every schedule that switches without preempting (thorough: one preemption).", assumptions=[NET])
