"""Checks decided on executions of random capgen worlds."""
from vf import core
from vf.core import Check
from vf.worldcheck import run_worlds

RULE = ("a case is one random world (host modules, derived types, schemes, suites, driver call sequence): capgen runs on "
        "it, the caps are compiled with gfortran -fcheck=all together with logging schemes and a host driver, executed, "
        "and every scheme entry, argument value/shape/presence, error return and host variable is compared with an "
        "independent reference model replaying the event log; non-trivial when ")
ASSUME = ["gfortran 13 compiles and executes the generated code faithfully",
          "the generated schemes are deterministic functions of their arguments; values are tagged per call and element"]

MIX = dict(p_debug=0.1, p_elem=0.2, p_nested=0.3, p_unitdiff=0.15, p_active=0.15, p_kinddiff=0.1, p_flip=0.1,
           p_inter_diff=0.2, p_subcycle=0.1,
           p_suitetag=0.1, p_tsplit=0.1)


def go(prop, profiles, nq, nt, what, nontrivial, require, minimum, budget=(75, 900), extra=None, post=None, before=None):
    chk = Check(prop, RULE + what, assumptions=ASSUME)
    if before:
        before(chk)
    run_worlds(chk, profiles, nq, nt, nontrivial, budget, dict(post=post) if post else None)
    if extra:
        extra(chk)
    chk.finish(min_evals=minimum, require=require)
