from checks.runtime_common import run
ALL = "f_basic f_pending f_back f_samesite f_conc f_concsync f_dead f_fail f_failgood f_blocked f_fresh f_same f_unwritten"
Q = [("A C", ALL, 1, None, 60), ("A", "f_basic f_same", 2, "0,0,0", 60), ("D", "f_basic f_conc f_fail", 1, "0,0,0 0,1,0", 60)]
T = [("A C", "f_basic f_same f_unwritten f_concsync f_samesite", 2, "0,0,0 0,1,0", 300), ("A", "f_conc f_dead f_back", 2, "0,0,0", 300)]
def main(): return run("C05", Q, T).finish()
