#!/usr/bin/env python3
"""Writes DESIGN.md from properties.jsonl, the tables of checks, findings and planted bugs and the texts below."""
import json, os, glob, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V + "/tools")
from findings import F
P = [json.loads(l) for l in open(V + "/properties.jsonl")]
COST = json.load(open(V + "/tools/cost.json"))
C = {}
def run(h, time=60, ttime=0, reach=(), th=None, tier="", note="", **p): return dict(h=h, th=th or {}, tier=tier, p=p)
def check(id, runs, note, assumptions=(), technique=""): C[id] = dict(runs=runs, note=note, a=list(assumptions))
exec(open(V + "/tools/checks_table.py").read())

HOW = {
"B01": "Values of every supported kind are built from symbolic integers, bytes and shape choices, encoded and decoded by the real code; equality of each leaf is the assertion.",
"B02": "The input is an array of symbolic bytes. The oracle is a reference reader in the harness (hben/ref.go), written from BEP 3 and sharing nothing with the code; both must agree on acceptance, value and number of bytes consumed, for decoding into `any`, into typed destinations and raw. B02Held and B02Deep assert that decoding ends without a panic or an exhausted stack.",
"B03": "The bytes written for a symbolic value are read back by the reference reader, which demands sorted unique keys and canonical numbers; the order in which maps are iterated is a choice of the explorer, and all orders must give the same bytes.",
"B04": "Digits are symbolic; the harness computes the number in 128 bits and compares acceptance and value for every integer kind.",
"B05": "The captured value is symbolic input that the reference reader delimits; the captured bytes and the rest of the structure are compared with it.",
"B06": "Values and presence of fields are symbolic for a family of struct types (tags, embedding by value and pointer, shadowing, ambiguity, omitempty with other options; values with marshalers of their own as fields, entries and behind interfaces); the expected dictionary is written in the harness.",
"B07": "The same symbolic input is read whole and in reads whose sizes the explorer chooses (zero-length reads and data together with EOF included), and several values one after the other; results and positions must agree.",
"B08": "All object graphs over a few nodes with edges through pointers, slices, maps and interfaces are chosen; a reference search decides whether the graph is cyclic.",
"B10": "The destination of the harness takes a chosen number of bytes and then fails, storing a part of the last write or nothing; the error and what arrived are compared with the full encoding.",
"B09": "Two or three calls run in goroutines under every schedule within the preemption bound, on types whose field tables are not cached yet; a vector-clock race detector runs along, and results are compared with those of the same call alone.",
"F01": "Indices and contents are symbolic; a set of booleans in the harness is the oracle.",
"F02": "Waiters before, during and after delivery under every schedule within the bound, with race detection.",
"W01": "All fields and payload bytes are symbolic; the expected frame is composed in the harness from BEP 3, and decoding gives the fields back.",
"W02": "Length prefix, type and payload are symbolic, and so is how the stream is split into reads and where it ends; the harness says which frames are well-formed and how many bytes belong to them. Messages decoded one after the other must not share memory.",
"W03": "Handshake bytes are symbolic, in every split of the stream around the borders of the fields.",
"M01": "The info dictionary is symbolic bencoding inside a torrent file with unknown keys; the hash is compared with SHA-1 of exactly these bytes (SHA-1 is an injective uninterpreted function), also when the destination was used before.",
"M02": "Piece length, file lengths and total are symbolic 64-bit integers, constrained only to be consistent; sums and bounds are the assertions.",
"M03": "All fields of a torrent description are symbolic; arbitrary bytes of bounded length for the crash part.",
"T01": "All fields are symbolic; the query string is made and decoded by the real code including net/url (interpreted).",
"T02": "Peer lists in both forms with symbolic bytes, numbers and missing or mistyped keys; the expected list is computed by the harness.",
"G01": "Parameters with symbolic characters (percent-encoding included), in every presence and some orders; the harness decodes the query itself.",
"S01": "Content is symbolic at all block ends, split into files at symbolically chosen places; blocks arrive in every order, with pieces reset, corrupt or doubled in between; every range read and every finished file is compared with the content. A directory must hold nothing else in the end.",
"S02": "Blocks carry arbitrary symbolic bytes: whether their hash is the piece's is decided by the injective SHA-1; complete, served and finished must imply equality with the content, also across abandoned attempts.",
"S03": "Index, offset and length are symbolic ints, in five states; the harness computes which blocks fit, and that nothing else changes anything (the right blocks still complete the torrent).",
"S04": "Index, offset and length are symbolic ints, in five states, fresh and reopened; the oracle is the content. Afterwards somebody cuts, extends or removes a file: reads are right or errors.",
"S05": "The process dies before any one change of the file system (the place is a choice; twice in a row), and a new one opens the same directories; completed pieces must still read, the target must be absent or whole, and the download must finish.",
"S06": "Storing, reading, waiting, resetting in goroutines under every schedule within the bounds with race detection; a state in which nobody can go on is a violation.",
"S07": "After every operation of a history the counter is compared with the sum of complete pieces, also after reopening.",
"S08": "Names and path components are symbolic strings; the file-system model records each path it is asked for, and all must lie below the two directories. Replays run the compiled code under inotify in scratch directories as an unprivileged user.",
"S09": "Names (symbolic bytes around `.piece`), kinds and sizes of entries of the work directory are chosen; the harness says which are canonical pieces.",
"S10": "Any one operation on files (two in thorough) fails with EIO or ENOSPC, writes also after a part; the state is compared with what was stored, served and reported, and everything must be recoverable.",
"S11": "The piece length, the lengths of the files (all 64 bits) and the number of hashes are symbolic; whether opening succeeds is compared with the rules, computed by the harness without overflow.",
"X01": "Histories of announces with chosen peers, spellings of addresses, events and (virtual) times; the harness keeps a table of its own and compares the decoded answer.",
"X02": "Each part of the query and the remote address is symbolic bytes; the answer must be a well-formed failure or list, and never a panic.",
"X03": "The real tracker and two or three real clients with their storages are connected by in-memory pipes; pieces held at the start are chosen; all files must be complete within bounded virtual time, under several schedules.",
"N01": "The network is the harness: connections arrive, are dialled, fail their handshakes in several ways, end, in chosen histories; the harness counts what may be open.",
"N02": "Every byte of the remote handshake, and the expected id, is symbolic; acceptance is compared with the three conditions.",
"N03": "Sequences of remote messages and own decisions; the bytes the client sends are parsed by the harness and checked against the two choke states. Bursts under all schedules within the bounds.",
"N04": "A frame with symbolic type and payload in four protocol states; afterwards a second peer must still be served as before and a third be met.",
"N05": "A piece of one to three blocks is requested; the harness answers in every order, with wrong bytes, cut, misplaced, late, chokes, ends or keeps silent after any number of answers.",
"N06": "Symbolic have and bitfield messages and ends build an availability table that the harness keeps too; what is requested next must be missing, not asked of another peer and of minimal count (a symbolic comparison).",
"N07": "Trackers (unparsable URLs among them) answer, refuse, fail or answer nonsense as chosen, over several rounds; the harness keeps the expected order of tiers.",
"N08": "Hash, id and port are symbolic and decoded from the query string by the harness; counters are compared with what the harness saw on the wire.",
"N09": "A peer is met at several addresses in chosen ways and sends a piece with a symbolic wrong byte; every address must then be refused, and a bystander be used as before.",
"N10": "Index, offset and length of requests are symbolic 32-bit numbers; answers are compared with the content.",
"N11": "As N06; the recorded set of each peer is compared with what it announced, and interest and rarity with the table.",
"N12": "A piece completes while peers are healthy, broken, ending or connecting, under schedules within the bounds; each must learn of it once.",
"N13": "What each peer has is symbolic, what we hold is chosen; the harness answers every request; virtual time bounds the download. Further peers stall, end, choke, flap or answer wrongly; N13Late lets peers announce pieces one by one, choke and unchoke in every order.",
"N14": "The client is stopped in six states under several schedules; every goroutine of it must end and everything be closed.",
"N15": "Lists of the tracker, answers to dials and ends of connections are chosen for two to three announces; the addresses dialled are compared with the expectation.",
"N17": "All pairs of events run concurrently against the real server, peers and storage over the model network; vector clocks over every memory access of the executed code report unordered accesses on every explored schedule.",
"N18": "The model tracker answers hostile or proper intervals and later answers; the harness counts announces as the engine's clock advances.",
"N16": "A peer sends piece messages with symbolic fields and data that it was not asked for (or not any more) while another peer is asked.",
}
MISSED = """b02-underscore (B02Raw was added), b06-second-option (options in B06Omit), b07-private-buffer (B07Successive), m01-stale-hash
(reused destinations in M01), w02-reused-bitfield (W02Again), s02-reset-count (abandoned attempts in S02),
s08-system-temp (inotify during replays), s01-work-files (S01Bad), n01-slot-leak (fifty failures first),
n02-expected-id (symbolic expected id), n03-wrong-choke and n08-early-upload (refused and broken answers in
N08Traffic), n06-early-release (N06Hand), n09-dial-blocked (N09Queue), n11-wipe (a third event),
n11-short-bitfield (the recorded sets), n13-idle-lost (N13Bad), n13-have-idle (N13Late), n07-parse-final (unparsable URLs), n15-own-port (such a peer), n16-stale-request
(N16Late), s04-truncated (S04Cut), x01-both-started (events in the X01 histories)"""
INTRO = open(V + "/tools/design_intro.md").read()
out = [INTRO.rstrip(), "", "## The properties", ""]
seeds = {}
for d in sorted(glob.glob(V + "/seeded/*/meta.json")):
    m = json.load(open(d)); seeds.setdefault(m["property"], []).append(os.path.basename(os.path.dirname(d)))
for p in P:
    c = C[p["id"]]
    out += ["### %s %s" % (p["id"], p["title"]), "", p["statement"], ""]
    out += ["*How.* " + HOW[p["id"]], ""]
    out += ["*Bounds.* " + c["note"], ""]
    hs = []
    for r in c["runs"]:
        a = ", ".join("%s=%s" % kv for kv in r["p"].items() if kv[0] not in ("nonative", "maxg", "maxtimesteps"))
        t = ", ".join("%s=%s" % kv for kv in r["th"].items())
        if r["p"].get("tpreempt"): t = (t + ", " if t else "") + "preempt=%s" % r["p"]["tpreempt"]
        a = ", ".join(x for x in a.split(", ") if x and not x.startswith("tpreempt"))
        s = "`%s`" % r["h"] + (" (%s)" % a if a else "") + (" [thorough: %s]" % t if t else "") + (" (thorough only)" if r["tier"] else "")
        hs.append(s)
    out += ["*Harnesses.* " + "; ".join(hs) + ".", ""]
    if c["a"]: out += ["*Assumed.* " + " ".join(x for x in c["a"] if x), ""]
    out += ["*Beyond the tests.* " + p["why_tests_cant"] + " Quantified over: " + p["quantifier"]["text"] + ".", ""]
    line = "*Cost.* about %s s (quick, 8 cores)." % COST.get(p["id"], "?")
    if seeds.get(p["id"]): line += " *Planted bugs reported:* " + ", ".join(seeds[p["id"]]) + "."
    fx = [c0 for c0, pid, _ in F if pid == p["id"]]
    if fx: line += " *Defects repaired:* " + ", ".join(fx) + "."
    out += [line, ""]
out += ["## Planted bugs", "", "Each lies in `seeded/<id>/` and was written from the property's text. All of them are reported by the check of their",
  "property now. Missed at first, and what was added for them: " + MISSED + ".", "",
  "| bug | property | needs |", "|---|---|---|"]
for d in sorted(glob.glob(V + "/seeded/*/meta.json")):
    m = json.load(open(d)); out.append("| %s | %s | %s |" % (os.path.basename(os.path.dirname(d)), m["property"], m["needs"]))
out += ["", "## Defects found in browles/drip and repaired", "",
  "Every one was first reported by a check, with the failing input or history confirmed against the code. They are listed in",
  "`known-findings.json` as fixed; a fixed entry suppresses nothing. No finding is left unrepaired in the list.", "",
  "| commit | property | what failed |", "|---|---|---|"]
out += ["| %s | %s | %s |" % f for f in F]
out.append("")
open(V + "/DESIGN.md", "w").write("\n".join(out))
