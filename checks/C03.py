from checks.runtime_common import run
Q = [("C", "p1_many p2_full s2 s3 s_full s_empty f_conc f_concsync f_blocked x_live x_mixed x_full t_full r_flood", 1, None, 60), ("A", "s_busy p1_big s2_spur f_dead", 1, None, 60), ("A", "x_none s_empty", 2, "0,0,0", 60)]
T = [("A C", "s2 f_concsync p1_many", 2, "0,0,0 1,0,0", 300), ("A", "s3 f_blocked p2_full", 2, "0,0,0", 300)]
def main(): return run("C03", Q, T).finish()
