"""Runs under the interpreter of the tools: forks one child per request, so that
the imports of the tools are paid once. Request: json line {cwd, argv, timeout,
func}; reply: json line {rc, out, timeout}. <argv[0]> is a script which is run
as __main__ in the child, or (func) 'file.py' whose main(argv) is called."""
import resource, sys, os, json, runpy, time, signal, traceback, importlib
sys.dont_write_bytecode = True
for m in sys.argv[1].split(","):
    try:
        importlib.import_module(m)
    except BaseException:
        pass
import logging
for lg in [logging.getLogger()] + [logging.getLogger(n) for n in list(logging.Logger.manager.loggerDict)]:
    for h in list(lg.handlers):
        lg.removeHandler(h)


def child(req, fd):
    os.setsid()
    resource.setrlimit(resource.RLIMIT_AS, (4 << 30, 4 << 30))
    os.dup2(fd, 1)
    os.dup2(fd, 2)
    nul = os.open(os.devnull, os.O_RDONLY)
    os.dup2(nul, 0)
    os.chdir(req["cwd"])
    sys.argv = req["argv"]
    sys.path.insert(0, os.path.dirname(os.path.abspath(req["argv"][0])))
    rc = 0
    try:
        runpy.run_path(req["argv"][0], run_name="__main__")
    except SystemExit as e:
        c = e.code
        if c is None:
            rc = 0
        elif isinstance(c, int):
            rc = c & 255
        else:
            sys.stderr.write(str(c) + "\n")
            rc = 1
    except BaseException:
        traceback.print_exc()
        rc = 1
    try:
        sys.stdout.flush()
        sys.stderr.flush()
    finally:
        os._exit(rc)


for line in sys.stdin:
    req = json.loads(line)
    fd = os.memfd_create("out")
    pid = os.fork()
    if pid == 0:
        child(req, fd)
    t0 = time.time()
    timeout, rc = False, None
    delay = 0.0005
    while True:
        p, st = os.waitpid(pid, os.WNOHANG)
        if p:
            rc = os.waitstatus_to_exitcode(st)
            break
        if time.time() - t0 > req["timeout"]:
            timeout = True
            os.killpg(pid, signal.SIGKILL)
            os.waitpid(pid, 0)
            rc = -9
            break
        time.sleep(delay)
        delay = min(delay * 1.5, 0.02)
    os.lseek(fd, 0, os.SEEK_SET)
    with os.fdopen(fd, errors="replace") as f:
        out = f.read(20 << 20)
    sys.__stdout__.write(json.dumps(dict(rc=rc, out=out, timeout=timeout)) + "\n")
    sys.__stdout__.flush()
