"""One program that logs through the library; it follows a script and reports what it asked for."""
import json
import logging
import os
import socket
import sys
import threading


class Own(logging.Logger):
    """A kind of logger that a program brings along."""


class Keep(logging.Handler):
    def __init__(self):
        super().__init__()
        self.seen = []

    def emit(self, record):
        self.seen.append(record.getMessage())


def main():
    plan = json.load(open(sys.argv[1]))
    sys.setswitchinterval(plan["switch"])
    socket.gethostbyname = lambda name: "10.1.2.3"
    keep = Keep()
    if plan["root"]:
        logging.basicConfig(stream=sys.stderr, level=logging.DEBUG, format="root %(levelname)s %(message)s")
    if plan["own"]:
        logging.setLoggerClass(Own)
        mine = logging.getLogger("deepgnn")
        mine.setLevel(logging.WARNING)
        mine.propagate = False
        mine.addHandler(keep)
    import deepgnn

    report = {"same": True, "users": [], "errors": []}
    seen = []

    def act(steps, gate):
        try:
            gate.wait()
            for s in steps:
                log = deepgnn.get_logger()
                seen.append(log)
                if s["kind"] == "event":
                    deepgnn.log_telemetry(log, s["text"], *s["args"], **s["kwargs"])
                elif s["kind"] == "child":
                    logging.getLogger("deepgnn.part").log(getattr(logging, s["level"]), s["text"])
                elif s["kind"] == "error":
                    try:
                        raise ValueError("inside")
                    except ValueError:
                        log.exception(s["text"])
                else:
                    log.log(getattr(logging, s["level"]), s["text"])
        except Exception as e:  # reported to the parent
            import traceback

            report["errors"].append(traceback.format_exc() + repr(e))

    for phase in plan["phases"]:
        if phase["setup"] is not None:
            if phase["setup"] == "default":
                deepgnn.setup_default_logging_config()
            else:
                deepgnn.setup_default_logging_config(enable_telemetry=phase["setup"])
        gate = threading.Barrier(len(phase["threads"]))
        ts = [threading.Thread(target=act, args=(t, gate)) for t in phase["threads"]]
        for t in ts:
            t.start()
        for t in ts:
            t.join()
    report["same"] = all(s is seen[0] for s in seen)
    report["kept"] = keep.seen
    report["name"] = type(seen[0]).__name__ if seen else ""
    os.environ["USER"] = "someone"
    report["users"].append(deepgnn.get_current_user())
    os.environ.pop("USER")
    report["users"].append(deepgnn.get_current_user())

    def none(name):
        raise socket.gaierror("no such host")

    socket.gethostbyname = none
    report["users"].append(deepgnn.get_current_user())
    json.dump(report, open(sys.argv[2], "w"))


main()
