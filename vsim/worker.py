"""Executes cases for vsim.core and reports on the pipe VSIM_FD."""

import json
import os
import select
import sys
import traceback
import warnings

from . import core


def main():
    fd = int(os.environ["VSIM_FD"])
    mod = core.load(sys.argv[1])

    def say(o):
        b = json.dumps(o).encode() + b"\n"
        while b:
            b = b[os.write(fd, b):]

    warnings.simplefilter("ignore")
    ctx = failed = None
    try:
        ctx = mod.setup()
    except Exception as e:
        # loading the functions, or a first call, raised: no run can find the property to hold
        failed = {"kind": "setup-" + type(e).__name__, "target": "setup", "detail": traceback.format_exc()[-1500:]}

    def one(case, extra):
        try:
            r = (failed, "setup", 0, "", {}) if failed else mod.run(case, ctx)
        except Exception as e:
            # The harness expects the exceptions that the properties allow; any other one
            # came out of a call that must not raise.
            tb = traceback.format_exc()
            r = ({"kind": "unexpected-" + type(e).__name__, "target": core.target_of(mod, case),
                  "detail": tb[-1500:]}, "exception", 0, "", {})
        v, d, nt, sig, st = r
        say(dict(extra, v=v, d=d, n=int(bool(nt)), sig=sig, st=st))
        return True

    stdin = sys.stdin.buffer
    buf = b""
    while True:
        while b"\n" not in buf:
            b = os.read(stdin.fileno(), 65536)
            if not b:
                return
            buf += b
        line, buf = buf.split(b"\n", 1)
        cmd = json.loads(line)
        if cmd["op"] == "stop":
            return
        if cmd["op"] == "case":
            one(cmd["case"], {})
        elif cmd["op"] == "gen":
            say({"case": core.make_case(mod, cmd["seed"], cmd["i"], cmd["tier"])})
        elif cmd["op"] == "batch":
            for i in cmd["idx"]:
                if select.select([stdin], [], [], 0)[0]:
                    return
                try:
                    case = core.make_case(mod, cmd["seed"], i, cmd["tier"])
                except Exception:
                    say({"err": traceback.format_exc()})
                    return
                # through JSON, so that a replayed file is exactly the executed case
                case = json.loads(json.dumps(case))
                say({"s": i, "case": case})
                if not one(case, {"e": i}):
                    return
            return


if __name__ == "__main__":
    main()
    sys.stdout.flush()
    os._exit(0)
