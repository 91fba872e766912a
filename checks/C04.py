from checks.runtime_common import run
Q = [("A C", "x_none x_main x_live x_detached x_exit x_exit_thread x_mixed x_full x_sync_exit x_dead_live", 1, None, 60), ("A", "p3 t_par t_par3 t_lateLog f_unwritten", 1, None, 60), ("A", "x_none x_main x_sync_exit", 2, "0,0,0", 60)]
T = [("A C", "x_main x_dead_live x_detached x_exit x_live", 2, "0,0,0 0,1,0", 300), ("A", "x_mixed", 2, "0,0,0", 300)]
def main(): return run("C04", Q, T).finish()
