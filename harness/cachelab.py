"""Plays schedules of concurrent, interrupted and starved loaders.

usage: cachelab.py SCHEDULES.json OUT.ndjson   (environment as for driver.py, shim.c preloaded)

A schedule is {"loaders": [constructor, ...], "start": how the cache was left, "steps": [[loader, what], ...],
"late": number of undisturbed loaders afterwards}.  Every loader is a forked process that stops before each of its
operations on the cache directory.  Steps allow one such operation (go), end the process before it (kill) or in the
middle of a write (torn), or let it fail for lack of space (full: from then on, full1: once, short: in the middle).
"""
import ctypes
import json
import os
import pathlib
import random
import select
import shutil
import signal
import sys
import time

import driver

ROOT = pathlib.Path(os.environ["XDG_CACHE_HOME"])
WHAT = {"go": b"g", "kill": b"k", "torn": b"t", "full": b"f", "full1": b"f", "short": b"h"}
OPS = "create open update truncate write read rename link unlink mkdir sync lock stat".split()
PATIENCE = 60
LIMIT = 3000


def load(con):
    return {"ENC3": driver.Enc3, "AREAS8": driver.Areas8}[con["k"]](con).call("digest", [], 0)


class Loader:
    def __init__(self, con, armed=True):
        self.con, self.pending, self.done, self.full, self.last = con, None, False, False, None
        asks, reply, res = os.pipe(), os.pipe(), os.pipe()
        self.pid = os.fork()
        if self.pid == 0:
            try:
                # the other ends, and those of the other loaders
                keep = {asks[1], reply[0], res[1]}
                for fd in range(3, 200):
                    if fd not in keep:
                        try:
                            os.close(fd)
                        except OSError:
                            pass
                if armed:
                    LIB.verif_arm(asks[1], reply[0], str(ROOT).encode())
                try:
                    out = {"r": load(con)}
                except Exception as exc:  # pylint: disable=broad-exception-caught
                    out = {"r": driver.REFUSED, "x": f"{type(exc).__name__}: {exc}"[:300]}
                os.write(res[1], json.dumps(out).encode())
            finally:
                os._exit(0)
        for fd in (asks[1], reply[0], res[1]):
            os.close(fd)
        self.asks, self.reply, self.res = asks[0], reply[1], res[0]

    def wait(self):
        """until it stops before an operation, or is over"""
        if self.done or self.pending:
            return
        if not select.select([self.asks], [], [], PATIENCE)[0]:
            os.kill(self.pid, signal.SIGKILL)
            self.finish()
            self.out = {"hang": 1}
            return
        line = os.read(self.asks, 64).decode().strip()
        if line:
            self.pending = line
        else:
            self.finish()

    def finish(self):
        self.done = True
        chunks = []
        while True:
            part = os.read(self.res, 65536)
            if not part:
                break
            chunks.append(part)
        os.waitpid(self.pid, 0)
        self.out = json.loads(b"".join(chunks)) if chunks else {}
        for fd in (self.asks, self.reply, self.res):
            os.close(fd)

    def allow(self, what):
        op = self.pending
        if what in ("torn", "short") and op != "write":
            what = "kill" if what == "torn" else "full"
        if what in ("full", "full1") and op in ("open", "read", "stat", "unlink", "update", "truncate", "lock"):
            self.full = self.full or what == "full"
            what = "go"
        elif self.full and what == "go":
            what = "full"
        if what in ("full", "short"):
            self.full = True
        self.pending, self.last = None, op
        os.write(self.reply, WHAT[what])
        return [[OPS.index(op)], [list(WHAT).index(what)]]


def wipe():
    for path in ROOT.rglob("*"):
        if not path.is_dir():
            path.unlink()


def files():
    return sorted(p for p in ROOT.rglob("*") if p.is_file())


WHOLE = {}


def prepare(start, cons):
    """leave the cache absent, whole or cut short"""
    wipe()
    if start == "absent":
        return
    for con in cons:
        key = json.dumps(con)
        if key not in WHOLE:
            wipe()
            one = Loader(con, armed=False)
            one.wait()
            WHOLE[key] = [(p, p.read_bytes()) for p in files()]
            wipe()
        for n, (path, data) in enumerate(WHOLE[key]):
            if start != "whole" and start.get("only", n) == n:
                data = data[:start["cut"] if "cut" in start else int(len(data) * start["part"])]
            path.write_bytes(data)


def play(schedule):
    rng = random.Random(json.dumps(schedule))
    cons = schedule["loaders"]
    prepare(schedule["start"], {json.dumps(c): c for c in cons}.values())
    events = []

    def add(o, op, a, r, **more):
        events.append(dict({"o": o, "op": op, "a": a, "r": r, "s": []}, **more))

    for o, con in enumerate(cons):
        add(o + 1, "new", [], [], c=con)
    loaders = [Loader(con) for con in cons]
    reported = set()

    def settle(o):
        one = loaders[o]
        one.wait()
        while not schedule.get("fine") and one.pending and (one.pending == "stat" or one.pending == one.last == "read"):
            one.allow("go")
            one.wait()
        if one.done and o not in reported:
            reported.add(o)
            if "hang" in one.out:
                add(o + 1, "hang", [], [])
            elif "r" in one.out:
                add(o + 1, "digest", [], one.out["r"], **({"x": one.out["x"]} if "x" in one.out else {}))
            elif o not in killed:
                add(o + 1, "crash", [], [])

    killed = set()

    def act(o, what):
        settle(o)
        one = loaders[o]
        if one.pending:
            detail = one.allow(what)
            add(o + 1, "fs", detail, [])
            if detail[1][0] in (1, 2):
                killed.add(o)
            settle(o)

    count = 0
    for o, what in schedule["steps"]:
        act(o, what)
    for o in range(len(loaders)):
        settle(o)
    while not all(x.done for x in loaders):
        act(rng.choice([o for o, x in enumerate(loaders) if not x.done]), "go")
        count += 1
        if count > LIMIT:
            for o, one in enumerate(loaders):
                if not one.done:
                    os.kill(one.pid, signal.SIGKILL)
                    one.pending = None
                    one.wait()
                    add(o + 1, "hang", [], [])
            break
    for k in range(schedule["late"]):
        o = len(loaders)
        con = cons[k % len(cons)]
        add(o + 1, "new", [], [], c=con)
        one = Loader(con, armed=False)
        loaders.append(one)
        settle(o)
    return events


def main():
    with open(sys.argv[1], encoding="utf-8") as file:
        todo = json.load(file)
    with open(sys.argv[2], "w", encoding="utf-8") as sink:
        from numba_pokemon_prngs.data import encounter  # noqa: F401
        for tid, (schedule,) in todo:
            for ev in play(schedule):
                sink.write(json.dumps([tid, ev]) + "\n")
            sink.flush()
        sink.write("[-1, null]\n")


LIB = ctypes.CDLL(None)
if __name__ == "__main__":
    main()
