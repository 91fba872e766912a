from checks.runtime_common import run
ALL = "t_one t_seq t_churn t_churnSilent t_par t_par3 t_silent t_full t_middle t_lateLog x_dead_live x_detached s_dead"
Q = [("A", ALL, 1, None, 60), ("C", "t_one t_par t_full t_seq", 1, None, 60), ("A", "t_one", 2, "0,0,0", 60)]
T = [("A C", "t_one t_seq t_silent t_lateLog t_par", 2, "0,0,0 0,1,0", 300), ("A", "t_middle t_par3", 2, "0,0,0", 300)]
def main(): return run("C06", Q, T).finish()
