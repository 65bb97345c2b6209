"""Checks decided on executions of random prebuild worlds."""
from vf.core import Check
from vf.worldcheck import run_worlds
from .capworlds import ASSUME

RULE = ("a case is one random prebuild world (host modules, derived types - scalar, per block, per thread, nested -, chunked, "
        "blocked, mixed or contiguous layout, schemes, suites, driver call sequence): ccpp_prebuild runs on it, the caps it "
        "lists are compiled with gfortran -fcheck=all together with logging schemes and a host driver, executed, and every "
        "scheme entry, argument value/shape/presence, error return, host variable and control field is compared with an "
        "independent reference model replaying the event log; non-trivial when ")


def go(prop, profiles, nq, nt, what, nontrivial, require, minimum, budget=(75, 900)):
    chk = Check(prop, RULE + what, assumptions=ASSUME)
    run_worlds(chk, profiles, nq, nt, nontrivial, budget, dict(engine="pre"))
    chk.finish(min_evals=minimum, require=require)
