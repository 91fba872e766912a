from checks.runtime_common import run
Q = [("A", "p1_wrap p1_many p1_sizes p2 p2_same p1_big p_prealloc s_busy t_par p2_full", 1, None, 60), ("C", "p1_wrap p2 p3 x_full t_full", 1, None, 60), ("A", "x_main s1", 2, "0,0,0", 60), ("D", "p1_many p2 p1_sizes x_main", 1, "0,0,0 0,1,0", 60), ("A", "p_ids", 1, "0,0,0 0,1,0 1,0,0", 60)]
T = [("A C", "p1_wrap p2_same p2 p1_sizes", 2, "0,0,0 0,1,0", 400), ("A", "p3", 2, "0,0,0", 400), ("B", "p2 p3", 1, None, 200)]
def main(): return run("C01", Q, T).finish()
