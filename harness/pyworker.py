"""Runs what the harness asks for with the Python package: one JSON request per line.

Request: {"kwargs": {...}, "ops": [[name, args...]...]}; the answer has one entry per operation
(the constructor first): ["ok", value] or ["err", exception type, message].
"""
import json
import sys
import threading

from math_core import LatexError, LatexToMathML


def attempt(f):
    try:
        return ["ok", f()]
    except LatexError as e:
        return ["err", "LatexError", str(e)]
    except Exception as e:  # noqa: BLE001
        return ["err", type(e).__name__, str(e)]


def main():
    for line in sys.stdin:
        req = json.loads(line)
        conv = []

        def make():
            conv.append(LatexToMathML(**req["kwargs"]))

        res = [attempt(make)]
        if conv:
            c = conv[0]
            for op in req["ops"]:
                if op[0] == "global":
                    res.append(attempt(lambda: c.convert_with_global_state(op[1], displaystyle=op[2])))
                elif op[0] == "local":
                    res.append(attempt(lambda: c.convert_with_local_state(op[1], displaystyle=op[2])))
                elif op[0] == "all":
                    res.append(attempt(lambda: c.convert_all([(a, b) for a, b in op[1]])))
                elif op[0] == "reset":
                    res.append(attempt(c.reset_global_state))
                elif op[0] == "threads":
                    out = []
                    f = c.convert_with_global_state if op[1] == "global" else c.convert_with_local_state

                    def work():
                        for _ in range(2):
                            out.append(attempt(lambda: f(op[2], displaystyle=op[3])))

                    threads = [threading.Thread(target=work) for _ in range(3)]
                    for t in threads:
                        t.start()
                    for t in threads:
                        t.join()
                    res.append(["ok", out])
                elif op[0] == "surrogate":
                    res.append(attempt(lambda: c.convert_with_global_state("a\ud800b", displaystyle=False)))
                elif op[0] == "number":
                    res.append(attempt(lambda: c.convert_with_local_state(5, displaystyle=False)))
                elif op[0] == "badall":
                    res.append(attempt(lambda: c.convert_all([("x", True), ("y",)])))
        sys.stdout.write(json.dumps(res) + "\n")
        sys.stdout.flush()


# Deeply nested formulas need a deep stack (a documented limit of the library, not of the package).
threading.stack_size(512 << 20)
worker = threading.Thread(target=main)
worker.start()
worker.join()
