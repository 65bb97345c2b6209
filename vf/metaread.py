"""Runs under the interpreter of the tools: reads metadata files with the
repository's parser and writes what it read, one json document per file."""
import sys, json, os, signal
from framework_env import CCPPFrameworkEnv
from parse_tools import init_log, set_log_to_null, register_fortran_ddt_name, CCPPError, ParseInternalError
from metadata_table import parse_metadata_file, find_scheme_names

PROPS = ("local_name standard_name long_name units dimensions type kind state_variable protected allocatable diagnostic_name "
         "diagnostic_name_fixed default_value persistence active polymorphic top_at_one optional target intent advected "
         "molar_mass constituent").split()
log = init_log("metaread")
set_log_to_null(log)
env = CCPPFrameworkEnv(log, ndict=dict(host_files="", scheme_files="", suites=""))


def read(f, skip):
    try:
        tables = parse_metadata_file(f, [], env, skip_ddt_check=skip)
    except (CCPPError, ParseInternalError) as e:
        print(json.dumps(dict(error=str(e), cls=type(e).__name__)))
        return
    except Exception as e:                       # never meant for the user
        print(json.dumps(dict(crash="%s: %s" % (type(e).__name__, e))))
        return
    out = []
    for t in tables:
        secs = []
        for s in t.sections():
            secs.append(dict(title=s.title, type=s.ptype, htype=s.header_type, module=s.module, process=s.process_type,
                             vars=[{p: v.get_prop_value(p) for p in PROPS} for v in s.variable_list()]))
        out.append(dict(name=t.table_name, type=t.table_type, deps=t.dependencies, path=t.relative_path, secs=secs))
    try:
        names = find_scheme_names(f)
    except CCPPError as e:
        names = str(e)
    print(json.dumps(dict(tables=out, names=names)))


for f, skip in json.loads(sys.argv[1]):          # a process for each file, as errors end a real run
    sys.stdout.flush()
    pid = os.fork()
    if not pid:
        rc = 1
        try:
            signal.alarm(20)
            read(f, skip)
            sys.stdout.flush()
            rc = 0
        finally:
            os._exit(rc)
    rc = os.waitpid(pid, 0)[1]
    if rc:
        print(json.dumps(dict(crash="ended: %d" % rc)))
