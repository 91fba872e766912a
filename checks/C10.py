import vlib
RULE = "one evaluation = one value (or one sequence of values) packed by the real packer into a nibble/bytes pair and read back by the real unpacker; values are enumerated without repetition per type; sequences: all words over 18 representative values up to the stated length"
ASSUME = ["64-bit, double and long double values are enumerated in boundary neighbourhoods (around +-2^k, all patterns with at most two deviating bytes, all exponents), 8/16/32-bit integer values completely; quick tier: every eighth float pattern, thorough: all"]
def main():
    chk = vlib.Check("C10", "model_checking", RULE, ASSUME)
    import os; os.environ["OPT"] = "-O2"
    d = vlib.build_seq({"pack": (0, 0, ["pack_seq"], "")})["pack"]
    vlib.run_seq(chk, d, "pack_seq", "pack/unpack of all values", shards=16)
    return chk.finish()
