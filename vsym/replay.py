"""python -m vsym.replay FILE : run one recorded counterexample on the plain code.
exit 1 = the property is violated, 0 = it held, 3 = an assumption failed, 4 = no termination."""
import json
import signal
import sys


def main():
    with open(sys.argv[1]) as f:
        d = json.load(f)
    from . import loader
    loader.load(d["property"])
    from .registry import HARNESSES
    from .task import run_concrete
    h = HARNESSES[(d["property"], d["harness"])]
    config = h.config_list(d["tier"])[d["config_index"]]

    def alarm(s, fr):
        print("no termination")
        sys.stdout.flush()
        import os
        os._exit(4)
    signal.signal(signal.SIGALRM, alarm)
    signal.alarm(int(h.path_timeout) + 30)
    out, desc, ctx = run_concrete(h, d["inputs"], config, d["tier"])
    print(json.dumps({"outcome": out, "failure": desc, "inputs": d["inputs"]}, default=repr))
    return {"ok": 0, "violated": 1, "aborted": 3}[out]


if __name__ == "__main__":
    sys.exit(main())
