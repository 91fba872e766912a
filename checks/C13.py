import os
import vlib
RULE = "one evaluation = one (file, cut position, decoding mode) triple decoded by the real decoder; files are enumerated as item sequences without repetition and each cut lies inside the last item (other cuts are those of shorter files), so triples are distinct; states = files, transitions = items/bytes written"
ASSUME = ["item grammar: dictionary fragment, extents of three threads (short and long thread ids, 1-2 messages, strings up to 30 bytes), new-pass extent, empty extent, padding, new execution with another program's dictionary; sequences up to 3 items, those of 4 items that start with an extent of two messages or an appended execution (quick), all up to 5 (thorough), after the first header and dictionary; plus files written by the real runtime (threads, sync, several sessions) cut at every byte",
          "cuts inside the very first header only have to be rejected or decode to nothing"]
def main():
    chk = vlib.Check("C13", "fault_enumeration", RULE, ASSUME)
    os.environ["OPT"] = "-O2"; d = vlib.build_seq({"cut": (256, 512, ["cut_seq"], "")})["cut"]; os.environ.pop("OPT")
    vlib.run_seq(chk, d, "cut_seq", "files x cut positions x modes", shards=16)
    return chk.finish()
