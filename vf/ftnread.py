"""Runs under the interpreter of the tools: reads Fortran files with the
repository's parser and writes what it read, one json document per file."""
import sys, json, logging, os
from framework_env import CCPPFrameworkEnv
from parse_tools import init_log, set_log_to_null, register_fortran_ddt_name, CCPPError
from parse_fortran_file import parse_fortran_file

ENVS = {}
for entry in json.loads(sys.argv[1]):
    f, ddts, defs = (list(entry) + [""])[:3]
    log = init_log("ftnread")
    set_log_to_null(log)
    for t in ddts:
        register_fortran_ddt_name(t)
    if defs not in ENVS:                      # as in capgen, one environment for all files
        ENVS[defs] = CCPPFrameworkEnv(log, ndict=dict(host_files="", scheme_files="", suites="", preproc_directives=defs))
    env = ENVS[defs]
    try:
        tables, routines = parse_fortran_file(f, env)
    except CCPPError as e:
        print(json.dumps(dict(error=str(e))))
        continue
    out = []
    for t in tables:
        for s in t.sections():
            vs = []
            for v in s.variable_list():
                vs.append([v.get_prop_value("local_name"), v.get_prop_value("type"), v.get_prop_value("kind"),
                           v.get_prop_value("dimensions"), v.get_prop_value("intent"), v.get_prop_value("optional"),
                           v.get_prop_value("allocatable")])
            out.append([s.title, s.header_type, vs])
    print(json.dumps(dict(tables=out)))
