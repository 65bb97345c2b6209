from .capworlds import go, MIX


def main():
    go("C01", [("c01a", dict(MIX, p_elem=0.5, n_extra_dims=(1, 2), p_nested=0.5, p_ddt=0.7, p_local_clash=0.7)),
               ("c01b", dict(MIX, p_inter=0.8, p_two_in_file=0.4, p_hostarg=0.6)),
               ("c01c", dict(n_vars=(14, 22), n_schemes=(4, 7), n_args=(4, 9), p_ddt=0.8, p_nested=0.5, p_debug=0.1, p_elem=0.3))],
       120, 1500, "at least 20 arguments were checked",
       lambda s: s.get("args_checked", 0) >= 20, ["args_checked", "host_dumps"], 40)
