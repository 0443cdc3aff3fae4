#!/usr/bin/env python3
"""Writes known-findings.json: the defects repaired (they suppress nothing) and the ones left (none so far)."""
import json, os
F = [
("6d2b468", "B02", "lengths like 03:abc and -0:, and allocations of announced but absent lengths"),
("8d74c92", "B02", "i+5e was accepted"),
("3d08191", "B02", "d0:1:ae was refused: the empty string could not be the first key"),
("843edfb", "B04", "integers outside the destination were cut to its width"),
("2e6af96", "B01", "nil pointers inside lists, dictionaries and pointers made decoding panic"),
("b4edd8d", "B02", "a destination interface holding a value that is no pointer made decoding panic"),
("5dad755", "B02", "an embedded pointer to an unexported struct made decoding panic"),
("5427f6d", "B02", "deeply nested input ended the process by exhausting the stack"),
("756db12", "B08", "cyclic values recursed without end; an encoder stayed unusable after an error"),
("4a4e05b", "B03", "nil values and nil marshalers made encoding panic"),
("a3264a4", "B03", "a dictionary with a nil value was encoded as a key without a value"),
("9555ff3", "B06", "ambiguous embedded fields were decoded although never encoded"),
("cbe35e1", "B05", "a raw message that is not addressable was encoded as a byte string"),
("c8f9500", "F01", "an index outside the bitfield made Has and Add panic"),
("e02fc1d", "W03", "a read of zero bytes before a handshake was taken for another protocol"),
("7a9e0d7", "W02", "short and malformed messages made the reader panic"),
("d943dcc", "B06", "the check for a marshaler was made for two kinds only; redundant, no input is known that tells the commit from its parent"),
("2acfea5", "M03", "dates and piece hashes that are not addressable were encoded wrongly"),
("5393484", "T02", "ports outside 16 bits were encoded compactly as other ports"),
("b1a6a28", "T02", "empty and not addressable peer lists were encoded wrongly"),
("f3e9012", "T02", "malformed peer dictionaries made decoding panic"),
("ed58b55", "S03", "blocks outside the torrent made PutBlock panic"),
("a267adf", "S04", "ranges outside a piece made GetBlock panic or return data of others"),
("16af3a2", "S06", "storing and reading took two locks in opposite orders and could deadlock"),
("5b903d2", "S07", "failed pieces and sizes of directories counted as downloaded"),
("f4fc4ab", "S02", "resetting a failed or a complete piece panicked"),
("735d353", "S09", "work files of wrong name or size counted as pieces"),
("ee83cda", "S08", "names with .. or separators escaped the target directory"),
("f43e166", "X01", "a requester announcing its address in another spelling was listed to itself"),
("094874e", "X01", "the id of the first announce was listed instead of the latest"),
("cbf9c84", "X02", "one IPv6 peer made every compact answer of its torrent fail"),
("f4f8827", "X02", "ports out of range were registered and broke compact answers"),
("eed7d25", "X02", "unusable remote addresses gave an empty answer"),
("9bb8246", "N01", "a refused connection left the lock of the server taken"),
("80590e2", "N01", "connections refused or failing to connect were left open"),
("9dc4311", "N01", "a peer whose connection failed before the bitfield was sent stayed registered for ever"),
("5492917", "N01", "the end of an old connection removed a newer one of the same peer"),
("b9775f2", "N13", "the table of pieces in flight was read and written without its lock"),
("e180335", "N14", "the download queue was waited for under the lock of the server, and for ever"),
("066d128", "N06", "the order of pieces compared the availability of list positions, not of the pieces"),
("67a6204", "N04", "a have message for a piece that does not exist was recorded, later crashing the client"),
("7188b7f", "N17", "the bitfields of peers and torrent were read and written at the same time"),
("3251060", "N10", "a cancel for an answered request swallowed a later request of the same range"),
("aacd0ab", "N03", "a request sent while a choke was handled was never failed"),
("a66ba02", "N03", "choke and interest messages could be sent in another order than the changes"),
("28bc9c5", "N09", "a peer that had disconnected before it was blocked was not blocked"),
("773ecf5", "N09", "IPv6 addresses were compared and dialled in different spellings"),
("cc89f03", "N12", "one peer that could not be told of a new piece ended the telling of the others"),
("e2098d9", "N08", "a multi-file torrent announced left=0 or less"),
("a39bb00", "N07", "bodies of tracker answers were never closed"),
("2fb37bd", "N07", "an answer without peers made the client panic"),
("dc06a1b", "N18", "a missing or negative announce interval made the client panic"),
("c4fc703", "N07", "without any tracker, an announce returned neither an answer nor an error"),
("32a146e", "N07", "announces at the same time reordered the trackers without a lock"),
("0772e49", "N08", "the query of the announce URL was dropped"),
("f8b0c49", "N12", "a peer that does not read blocked everybody who sends to it for ever"),
("48741c1", "N14", "starting and stopping the server at the same time raced, and could leave it running"),
("b6311fc", "S10", "a finished torrent whose piece files could not be removed was never served"),
("4058eb8", "S10", "loading a storage a second time panicked"),
("ccc4107", "N15", "a listed peer was never dialled again after its connection failed or ended"),
("477f77b", "N15", "one announce that failed ended the client"),
("7c70be0", "N16", "a block nobody asked for was stored into another peer's download, which was blocked for it"),
("f81bea3", "N13", "a peer that never answers was asked again and again for the same piece, which nobody else got"),
("4d4f470", "N09", "an address waiting to be dialled was dialled although its peer had connected meanwhile"),
("b29cc13", "S04", "a file of a finished torrent that was cut shifted the data of the files after it"),
("bb28bf5", "S11", "torrents whose pieces do not make up their files were opened: waiting for ever, or exhausting the memory"),
]
if __name__ == "__main__":
    V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    with open(V + "/known-findings.json", "w") as f:
        json.dump({"Known": [], "Fixed": ["fixed: property=%s %s %s" % (p, c, w) for c, p, w in F]}, f, indent=1, ensure_ascii=False)
        f.write("\n")
    print(len(F), "fixed")
