from .capworlds import go, MIX


def main():
    base = dict(p_unitdiff=0.85, p_units_only=0.05, p_debug=0.05, p_types=dict(real=0.95, integer=0.05, logical=0.0, character=0.0))
    go("C05", [("c05a", dict(base)),
               ("c05b", dict(base, p_kinddiff=0.3, p_flip=0.3, p_active=0.3)),
               ("c05c", dict(base, p_inter=0.9, p_inter_diff=0.8, p_elem=0.3))],
       120, 1500, "at least three arguments arrived through a unit conversion",
       lambda s: s.get("unit_converted_in", 0) >= 3, ["unit_converted_in"], 40)
