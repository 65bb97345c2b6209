"""Runs under the interpreter of the tools: writes statements with the
repository's FortranWriter."""
import sys, json
from fortran_tools import FortranWriter

with open(sys.argv[1]) as f:
    jobs = json.load(f)
for job in jobs:
    try:
        with FortranWriter(job["file"], "w", job["desc"], job["module"], **job["opts"]) as w:
            w.write_preamble()
            for text, level in job["pre"]:
                w.write(text, level)
            w.end_module_header()
            for kind, text, level in job["stmts"]:
                if kind == "comment":
                    w.comment(text, level)
                elif kind == "blank":
                    w.blank_line()
                else:
                    w.write(text, level)
        print(json.dumps(dict(ok=1)))
    except Exception as e:
        print(json.dumps(dict(error="%s: %s" % (type(e).__name__, e))))
