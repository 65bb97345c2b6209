from .capworlds import go, MIX


def main():
    base = dict(p_active=0.7, p_optional=0.8, p_debug=0.1, p_protect=0.0)
    go("C07", [("c07a", dict(base)),
               ("c07b", dict(base, p_unitdiff=0.4, p_kinddiff=0.3, p_flip=0.3)),
               ("c07c", dict(base, p_ddt=0.9, p_nested=0.4, p_subcycle=0.2, p_repeat=0.6))],
       120, 1500, "optional arguments were observed both present and absent",
       lambda s: s.get("optional_present", 0) > 0 and s.get("optional_absent", 0) > 0,
       ["optional_present", "optional_absent"], 40)
