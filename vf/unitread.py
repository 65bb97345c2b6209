"""Runs under the interpreter of the tools: asks the repository's code about unit
strings and conversions, and writes what it answers as one json document."""
import sys, json
from framework_env import CCPPFrameworkEnv
from metavar import Var
from parse_tools import ParseContext, ParseSource, CCPPError
from conversion_tools import unit_conversion
import mkcap

KT = ["kind_phys=REAL64", "kind_dyn=REAL32", "kind_host=REAL64"]
env = CCPPFrameworkEnv(None, ndict={"host_files": "", "scheme_files": "foo.meta", "suites": ""}, kind_types=KT)
req = json.load(open(sys.argv[1]))
out = dict(functions={}, pairs=[], tend=[], pre=[])
names = [n for n in dir(unit_conversion) if "__to__" in n]
for n in sorted(set(names) | set(req["names"])):
    f = getattr(unit_conversion, n, None)
    out["functions"][n] = f() if callable(f) else None
line = [2]


def var(name, std, units, kind, dims):
    line[0] += 5
    src = ParseSource("foo", "host", ParseContext(linenum=line[0], filename="foo.meta"))
    return Var(dict(local_name=name, standard_name=std, units=units, dimensions="(%s)" % ", ".join(dims), type="real", kind=kind), src, env)


def attempt(fn):
    try:
        return fn()
    except CCPPError as e:
        return dict(error=str(e))
    except Exception as e:
        return dict(error=str(e), crash=type(e).__name__)


def pair(u1, k1, u2, k2, rank):
    dims = ["horizontal_dimension", "vertical_layer_dimension"][:rank]
    idx = ["i", "k"][:rank]
    c = var("va", "some_name", u1, k1, dims).compatible(var("vb", "some_name", u2, k2, dims), env)
    if not c.compat:
        return dict(error=c.incompat_reason)
    return dict(equiv=bool(c.equiv), fwd=c.forward_transform("vb", "va", idx, idx), rev=c.reverse_transform("va", "vb", idx, idx),
                units=bool(c.has_unit_transforms))


def tend(ut, us):
    c = var("va", "tendency_of_some_name", ut, "kind_phys", ["horizontal_dimension"]).compatible(
        var("vb", "some_name", us, "kind_phys", ["horizontal_dimension"]), env, is_tend=True)
    return dict(error=c.incompat_reason) if not c.compat else dict(ok=True)


def pre(u, other):
    v = mkcap.Var(standard_name="some_name", long_name="", units=u, local_name="va", type="real", kind="kind_phys", container="x", intent="inout",
                  active="T", optional="F")
    v.convert_from(other)
    v.convert_to(other)
    return v.actions


for p in req["pairs"]:
    out["pairs"].append(attempt(lambda: pair(*p)))
for p in req["tend"]:
    out["tend"].append(attempt(lambda: tend(*p)))
for p in req["pre"]:
    out["pre"].append(attempt(lambda: pre(*p)))
print(json.dumps(out))
