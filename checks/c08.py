from .capworlds import go, MIX


def main():
    base = dict(p_onecol=0.4, p_debug=0.1, p_dimarg=0.7, p_explicit=0.6)
    go("C08", [("c08a", dict(base)),
               ("c08b", dict(base, p_unitdiff=0.3, p_kinddiff=0.2, p_flip=0.2, p_active=0.3)),
               ("c08c", dict(base, p_inter=0.9, p_elem=0.3, p_subcycle=0.2))],
       120, 1500, "some run call was given a strict part of the columns",
       lambda s: s.get("partial_runs", 0) > 0, ["partial_runs", "args_checked"], 40)
