from .capworlds import go, MIX


def main():
    base = dict(p_units_only=0.5, p_debug=0.05, p_r4=0.3, p_types=dict(real=0.95, integer=0.05, logical=0.0, character=0.0))
    go("C06", [("c06a", dict(base, p_kinddiff=0.7)),
               ("c06b", dict(base, p_flip=0.7, p_rank3=0.6, n_extra_dims=(1, 2))),
               ("c06c", dict(base, p_kinddiff=0.4, p_flip=0.5, p_unitdiff=0.4, p_active=0.2)),
               ("c06d", dict(base, p_kinddiff=0.3, p_flip=0.5, p_inter=0.9, p_inter_diff=0.8)),
               ("c06e", dict(base, p_kinddiff=0.3, p_intkind=1.0, p_inter=0.8, p_types=dict(real=0.3, integer=0.4, logical=0.3, character=0.0)))],
       120, 1500, "at least three arguments arrived through a kind or ordering conversion",
       lambda s: s.get("kind_converted_in", 0) + s.get("flipped_in", 0) >= 3, ["kind_converted_in", "flipped_in", "integer_kind_converted_in"], 40)
