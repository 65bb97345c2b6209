from .capworlds import go, MIX


def main():
    slim = dict(n_args=(0, 3), n_vars=(4, 7), p_ddt=0.3, p_debug=0.0, n_schemes=(3, 6), n_items=(2, 5))
    go("C04", [("c04a", dict(slim, p_fail=0.7, n_suites=(1, 2), p_repeat=0.6)),
               ("c04b", dict(slim, p_fail=0.5, p_subcycle=0.3, p_illegal=0.5)),
               ("c04c", dict(MIX, p_fail=0.4, p_illegal=0.3, p_inter=0.6))],
       120, 1500, "an error was injected in a scheme or an unknown name was used and the call's outcome observed",
       lambda s: s.get("failing_calls", 0) + s.get("unknown_name_calls", 0) >= 1,
       ["failing_calls", "unknown_name_calls", "legal_calls"], 40)
