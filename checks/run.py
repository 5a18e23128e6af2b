"""python3-vt checks/run.py <property>: decides one property on /repo's working tree."""
import os
import sys
import threading
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(os.path.dirname(HERE), "engine"))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True

import build
import equiv
import report
from symex import in_thread

MODULES = {
    "C01": "numeric", "C02": "numeric", "C03": "numeric", "C05": "numeric", "C11": "numeric",
    "C04": "modes", "C07": "modes", "C20": "modes",
    "C06": "elements", "C17": "les", "C18": "omm", "C08": "times", "C19": "times",
    "C13": "tle", "C14": "tle", "C15": "tle", "C16": "tle",
    "C09": "states", "C10": "states", "C12": "states",
}


def main():
    prop = sys.argv[1]
    chk = report.Check(prop)
    code = []

    def go():
        try:
            mod = __import__(MODULES[prop])
            try:
                getattr(mod, prop)(chk)
            except equiv.Refuted:
                pass
            code.append(chk.finish())
        except build.BuildError as e:
            print("build failed:\n%s" % e)
            code.append(3)
        except Exception as e:
            # code the engine cannot encode: nothing is claimed for it
            traceback.print_exc()
            chk.obligation("encoding", None, "%s: %s" % (type(e).__name__, str(e)[:300]))
            code.append(chk.finish())

    def watchdog():
        # a check that runs out of time reports what is left as undecided
        chk.obligation("time budget", None, "exhausted")
        rc = chk.finish()
        sys.stdout.flush()
        os._exit(rc)

    timer = threading.Timer(860 if chk.tier == "quick" else 3 * 3600, watchdog)
    timer.daemon = True
    timer.start()
    in_thread(go)
    sys.stdout.flush()
    os._exit(code[0] if code else 2)


main()
