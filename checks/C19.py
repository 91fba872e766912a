import os
import vlib
RULE = "one evaluation = one message of a distinct (frequency, calibration time, zone, cycle offset) printed by the real decoder and compared with exact arithmetic, or one recorded time stamp at a distinct position of a distinct sequence; states = log files, transitions = messages printed"
ASSUME = ["cycle offsets: every one within 120 (thorough 400) of 14 second boundaries before and after calibration up to three years, all powers of two and ten; 12 (25) frequencies, nine calibration times, four time zones with daylight saving; printed fraction within rounding of the exact value (half a nanosecond plus double precision of the elapsed time)",
          "time stamps: all ordered pairs of the neighbours of every power of two, all relative steps of every encoded size, all triples of a smaller set, in one extent and split over extents", "the zone conversion of libc (localtime_r) is trusted; the accuracy of the calibration itself is not claimed"]
def main():
    chk = vlib.Check("C19", "model_checking", RULE, ASSUME)
    os.environ["OPT"] = "-O2"; d = vlib.build_seq({"time": (0, 0, ["time_seq"], "")})["time"]; os.environ.pop("OPT")
    vlib.run_seq(chk, d, "time_seq", "printed times and recorded stamps", shards=16)
    return chk.finish()
