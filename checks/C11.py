import vlib
RULE = "one evaluation = one (output buffer size, message sequence, chunking, dictionary delivery mode, release threshold) combination encoded by the real encoder with buffer swaps and decoded by the real decoder; combinations are enumerated without repetition; states = buffers filled, transitions = encoder calls"
ASSUME = ["staging size reduced to 256 bytes, at most half of it is handed to the encoder per call (as the runtime does)", "message shapes: no argument, int, string, mixed, pointer+double, long double, 20 chars; all sequences up to length 3 (quick: thinned for length 3) plus three long ones"]
def main():
    chk = vlib.Check("C11", "model_checking", RULE, ASSUME)
    d = vlib.build_seq({"enc": (256, 512, ["enc_seq"], "")})["enc"]
    vlib.run_seq(chk, d, "enc_seq", "encoder x output buffer sizes", shards=16)
    return chk.finish()
