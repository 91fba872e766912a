from checks.runtime_common import run
ALL = "r_same r_same3 r_diff r_cross r_late r_flood r_reuse f_samesite"
Q = [("A C", ALL, 1, None, 60), ("A", "r_same", 2, "0,0,0", 60), ("A", "p_ids", 1, "0,0,0", 60)]
T = [("A C", "r_same r_late r_flood r_reuse", 2, "0,0,0 0,1,0", 300), ("A", "r_cross r_same3", 2, "0,0,0", 300)]
def main(): return run("C07", Q, T).finish()
