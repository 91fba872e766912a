from checks.runtime_common import run
Q = [("A C", "s1 s_empty s_spur s2 s2_spur s_other s_inflight s_full s_dead s_busy", 1, None, 60), ("A", "s3 s_dead2 t_par f_concsync", 1, None, 60), ("A", "s1 s_spur", 2, "0,0,0", 60), ("D", "s1 s2 s_inflight", 1, "0,0,0 0,1,0", 60)]
T = [("A C", "s_empty s_spur s_other s_inflight s2", 2, "0,0,0 0,1,0", 300), ("A", "s3 s_dead2 s_busy", 2, "0,0,0", 300)]
def main(): return run("C02", Q, T).finish()
