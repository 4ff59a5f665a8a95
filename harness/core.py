"""Machinery shared by all checks: TLC, the library driver, trace validation,
evidence and replay files."""
import itertools
import json
import os
import pathlib
import random
import re
import shutil
import subprocess
import sys
import tempfile
import time

HERE = pathlib.Path(__file__).resolve().parent
VERIF = HERE.parent
SPEC = VERIF / "spec"
REPO = pathlib.Path(os.environ.get("VERIF_REPO", "/repo"))
PY = os.environ.get("VERIF_PYTHON", "/opt/venv/bin/python")
TLA = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
MODES = ("TRUE", "FALSE")  # NPP_USE_NUMBA
DRIVER_TIMEOUT = 420


class Broken(Exception):
    """the check itself could not run"""


def build_words():
    """compile the native word operators for TLC"""
    out = VERIF / "build" / "cls"
    sources = [SPEC / f"{name}.java" for name in ("Words", "Blocks", "Pids")]
    stamp, now = out / "stamp", b"".join(src.read_bytes() for src in sources)
    if stamp.exists() and stamp.read_bytes() == now:
        return out
    out.parent.mkdir(exist_ok=True)
    tmp = pathlib.Path(tempfile.mkdtemp(dir=out.parent))
    subprocess.run(["javac", "-d", str(tmp), "-cp", TLA, *map(str, sources)], check=True, capture_output=True)
    (tmp / "stamp").write_bytes(now)
    if out.exists():
        shutil.rmtree(out, ignore_errors=True)
    try:
        tmp.rename(out)
    except OSError:
        return tmp
    return out


def build_shim():
    """compile the library that stops loaders at their file operations"""
    src = SPEC.parent / "harness" / "shim.c"
    out = VERIF / "build" / "shim.so"
    out.parent.mkdir(exist_ok=True)
    if not out.exists() or out.stat().st_mtime < src.stat().st_mtime:
        tmp = out.with_suffix(f".{os.getpid()}")
        subprocess.run(["gcc", "-shared", "-fPIC", "-O1", "-o", str(tmp), str(src), "-ldl"], check=True, capture_output=True)
        tmp.rename(out)
    return out


class TlcResult:
    def __init__(self, rc, out, wall):
        self.rc, self.out, self.wall = rc, out, wall
        m = re.search(r"(\d+) states generated, (\d+) distinct states found, (\d+) states left", out)
        self.generated, self.distinct, self.left = map(int, m.groups()) if m else (0, 0, -1)
        self.ok = rc == 0 and "No error has been found" in out


    def errors(self):
        """from the first error on"""
        k = self.out.find("Error:")
        return self.out[max(k, 0):][:3000]


class Ctx:
    """One run of one check"""

    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.start = time.time()
        self.work = pathlib.Path(tempfile.mkdtemp(prefix=f"verif-{prop}-"))
        self.number = itertools.count()
        self.hung = False
        self.violations = []
        self.env = {}  # for the drivers
        self.cover = {"states": 0, "transitions": 0, "traces_validated_against_impl": 0,
                      "events_accepted": 0, "models": {}, "samples": []}
        self.assumptions = []
        self.known = []
        self.rng = random.Random(f"{seed}/{prop}/harness")

    @property
    def quick(self):
        return self.tier == "quick"

    def close(self):
        shutil.rmtree(self.work, ignore_errors=True)

    # -- TLC ---------------------------------------------------------------
    def tlc_popen(self, module, cfg=None, workers=8, env=None, heap="3g", cwd=SPEC, extra=()):
        cls = build_words()
        meta = tempfile.mkdtemp(dir=self.work)
        out = open(pathlib.Path(meta) / "out.txt", "w+")
        cmd = ["java", "-Xss256m", f"-Xmx{heap}", "-XX:+UseParallelGC", "-cp", f"{TLA}:{cls}", "tlc2.TLC",
               "-noGenerateSpecTE", "-metadir", meta, "-workers", str(workers), "-config", f"{cfg or module}.cfg",
               *extra, f"{module}.tla"]
        proc = subprocess.Popen(cmd, cwd=cwd, stdout=out, stderr=subprocess.STDOUT, env=dict(os.environ, **(env or {})))
        proc.out_file, proc.started, proc.label = out, time.time(), f"{module}/{cfg or module}"
        return proc

    def tlc_wait(self, proc, timeout=800):
        try:
            proc.wait(timeout)
        except subprocess.TimeoutExpired:
            proc.kill()
            proc.wait()
            raise Broken(f"TLC timed out on {proc.label}")
        proc.out_file.seek(0)
        text = proc.out_file.read()
        proc.out_file.close()
        return TlcResult(proc.returncode, text, time.time() - proc.started)

    def tlc(self, module, cfg=None, timeout=800, **kw):
        return self.tlc_wait(self.tlc_popen(module, cfg, **kw), timeout)

    def model_start(self, module, cfg=None, **kw):
        return self.tlc_popen(module, cfg, **kw)

    def model_finish(self, proc, timeout=800):
        """a model of the specification: the listed properties hold on it"""
        res = self.tlc_wait(proc, timeout)
        if not res.ok:
            raise Broken(f"model {proc.label} failed:\n{res.errors()}")
        self.cover["states"] += res.distinct
        self.cover["transitions"] += res.generated
        self.cover["models"][proc.label] = {"states": res.distinct, "transitions": res.generated, "wall_s": round(res.wall, 1)}
        return res

    def refuted(self, module, cfg, invariant):
        """a model of a wrong design: TLC has to find it wrong"""
        res = self.tlc(module, cfg, workers=2)
        if f"Invariant {invariant} is violated" not in res.out:
            raise Broken(f"model {cfg} should violate {invariant}")
        self.cover["models"][f"{module}/{cfg}"] = {"states": res.distinct, "refuted": invariant, "wall_s": round(res.wall, 1)}

    def behaviours(self, module, cfg):
        """histories generated by TLC from a model of the specification"""
        res = self.tlc(module, cfg, workers=4)
        if not res.ok:
            raise Broken(f"model {cfg} failed:\n{res.errors()}")
        self.cover["states"] += res.distinct
        self.cover["transitions"] += res.generated
        found = sorted(re.findall(r'^"BEHAVIOUR (.*)"$', res.out, re.M))
        if not found:
            raise Broken(f"{cfg} produced no behaviours")
        self.cover["models"][f"{module}/{cfg}"] = {"states": res.distinct, "behaviours": len(found), "wall_s": round(res.wall, 1)}
        return [json.loads(t.replace('\\"', '"')) for t in found]

    # -- the real library ----------------------------------------------------
    def driver_env(self, mode, cache=None, more=None):
        cache = self.work / (cache or f"cache{mode}")
        if cache.parent.is_dir():
            cache.mkdir(exist_ok=True)
        env = dict(os.environ)
        env.update(self.env, NPP_USE_NUMBA=mode, VERIF_COMPILED=mode, PYTHONPATH=str(REPO), XDG_CACHE_HOME=str(cache), HOME=str(cache),
                   PYTHONDONTWRITEBYTECODE="1", NUMBA_NUM_THREADS="1", OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1")
        for name, value in (more or {}).items():
            env[name] = value
            if value is None:
                del env[name]
        return env

    def play(self, histories, shards, driver="driver.py", key=None, cache=None, preload=None, modes=MODES, env=None):
        """run the histories in both modes; returns {mode: [events per history]}
        cache(mode, shard) names the cache directory, env overrides environment variables (None: unset)"""
        if self.hung:
            # no time left, and something to report
            return {m: [None] * len(histories) for m in MODES}
        overrides = env
        key = key or (lambda h: h[0].get("grp") or json.dumps(h[0].get("c", {}), sort_keys=True))
        jobs = []
        for mode in modes:
            groups = {}
            for i, h in enumerate(histories):
                if mode in h[0].get("modes", MODES):
                    groups.setdefault(key(h), []).append(i)
            count = shards[mode]
            bins = [[0, []] for _ in range(count)]
            fixed = 3000 if mode == "TRUE" else 0

            def weight(ids):
                return fixed + sum(len(histories[i]) for i in ids)

            for ids in sorted(groups.values(), key=weight, reverse=True):
                # an expensive group may be split in plain mode
                parts = [ids] if mode == "TRUE" or len(ids) < 8 else [ids[k::count] for k in range(count)]
                for part in parts:
                    b = min(bins, key=lambda x: x[0])
                    b[0] += weight(part)
                    b[1] += part
            for n, (_, ids) in enumerate(bins):
                if ids:
                    jobs.append((mode, n, ids))
        procs = []
        for mode, n, ids in jobs:
            base = self.work / f"{driver}-{mode}-{n}-{next(self.number)}"
            stim, out, err = f"{base}.json", f"{base}.ndjson", f"{base}.err"
            with open(stim, "w") as f:
                json.dump([[i, histories[i]] for i in ids], f)
            env = self.driver_env(mode, cache and cache(mode, n), overrides)
            if preload:
                env["LD_PRELOAD"] = str(preload)
            with open(err, "w") as e:
                p = subprocess.Popen([PY, "-W", "ignore", str(HERE / driver), stim, out], env=env,
                                     stdout=e, stderr=subprocess.STDOUT, cwd=self.work)
            procs.append((p, mode, ids, out, err))
        result = {m: [None] * len(histories) for m in MODES}
        deadline = time.time() + DRIVER_TIMEOUT
        for p, mode, ids, out, err in procs:
            hang = False
            try:
                p.wait(max(1, deadline - time.time()))
            except subprocess.TimeoutExpired:
                hang = self.hung = True
                p.kill()
                p.wait()
            done = False
            seen = {}
            if os.path.exists(out):
                with open(out) as f:
                    for line in f:
                        if not line.endswith("\n"):
                            break
                        tid, rec = json.loads(line)
                        if tid < 0:
                            done = True
                        else:
                            seen.setdefault(tid, []).append(rec)
            if not done:
                text = open(err).read()[-3000:]
                if p.returncode == -9 and not hang:
                    raise Broken(f"driver was killed\n{text}")
                # which history was in progress
                order = [i for i in ids if i not in seen] or ids[-1:]
                if seen:
                    last = list(seen)[-1]
                    if len(seen[last]) < len(histories[last]):
                        order = [last]
                tid = order[0]
                seen.setdefault(tid, []).append({"o": 1, "op": "hang" if hang else "crash", "a": [], "r": [], "s": [],
                                                 "x": text[-600:] or f"exit {p.returncode}"})
            for tid, recs in seen.items():
                result[mode][tid] = recs
        return result

    # -- shipped data, as raw as possible ------------------------------------
    def data(self, parts, digests=(), root=REPO):
        """the shipped files the specification reads: "gen3", "tables3", "arceus", "personal" """
        res = root / "numba_pokemon_prngs" / "resources"
        data = {}

        def lines(name):
            text = (res / "txt" / f"{name}_en.txt").read_text(encoding="utf-8-sig")
            return [[ord(c) for c in line] for line in text.splitlines()]

        def coded(tree):
            if isinstance(tree, str):
                return [ord(c) for c in tree]
            if isinstance(tree, list):
                return [coded(x) for x in tree]
            return {k: coded(v) for k, v in tree.items()} if isinstance(tree, dict) else tree

        if "gen3" in parts or "tables3" in parts:
            data["species"] = lines("species")
        if "gen3" in parts:
            data["personal"] = {}
            for name in ("rs", "e", "fr", "lg"):
                raw = (res / "bin" / "personal" / f"personal_{name}").read_bytes()
                data["personal"][name] = [list(raw[k:k + 28]) for k in range(0, len(raw), 28)]
            for name in ("abilities", "natures", "types"):
                data[name] = lines(name)
        if "tables3" in parts:
            if "gen3" not in parts:
                data["digested"] = True
            data["encounters"] = {}
            for name in ("rs", "e", "frlg"):
                tree = json.loads((res / "encount" / f"{name}_wild_encounters.json").read_text(encoding="utf-8"))
                data["encounters"][name] = coded(tree["wild_encounter_groups"][0]["encounters"])
        files = data["files"] = {}
        if digests:
            data["digests"] = list(digests)
        if "arceus" in parts:
            for path in sorted((res / "encount" / "la").glob("*.bin")):
                files[path.stem] = list(path.read_bytes())
        if "personal" in parts:
            for path in sorted((res / "bin" / "personal").glob("personal_*")):
                files[path.name[len("personal_"):]] = list(path.read_bytes())
        path = self.work / f"data-{next(self.number)}.json"
        path.write_text(json.dumps(data))
        return {"DATA": str(path)}

    # -- trace validation --------------------------------------------------------
    def validate(self, histories, recorded, module="LibTrace", extra=None, note=None):
        """every recorded history must be a behaviour of the specification"""
        uniq, owners = {}, []
        for mode in MODES:
            for i, evs in enumerate(recorded[mode]):
                if evs is None:
                    continue
                text = json.dumps([{k: v for k, v in e.items() if k != "x"} for e in evs])
                if text not in uniq:
                    uniq[text] = len(owners)
                    owners.append([])
                owners[uniq[text]].append((mode, i))
        traces = list(uniq)
        # canary: a corrupted copy that the specification has to reject
        canary = None
        order = list(range(len(traces)))
        self.rng.shuffle(order)
        for n in order:
            evs = json.loads(traces[n])
            hits = [k for k, e in enumerate(evs) if e["r"] and e["op"] not in ("new", "flt", "unit", "frac") and len(e["r"]) not in (7, 8, 9)]
            if hits and not any(e["op"] in ("hang", "crash") for e in evs):
                k = self.rng.choice(hits)
                evs[k]["r"][self.rng.randrange(len(evs[k]["r"]))] ^= 1
                canary = (len(traces) + 1, k + 1)
                traces.append(json.dumps(evs))
                break
        path = self.work / f"trace-{module}-{next(self.number)}.json"
        with open(path, "w") as f:
            f.write("[" + ",\n".join(traces) + "]")
        res = self.tlc(module, env=dict({"TRACE": str(path)}, **(extra or {})), heap="6g")
        if not res.ok:
            raise Broken(f"trace validation failed to run:\n{res.errors()}")
        rejects = {}
        for m in re.finditer(r'^"REJECT (\d+) (\d+) (.*)"$', res.out, re.M):
            rejects[int(m[1])] = (int(m[2]), m[3])
        want = 0
        for n, text in enumerate(traces, 1):
            want += rejects[n][0] if n in rejects else len(json.loads(text)) + 1
        if want != res.distinct:
            raise Broken(f"trace validation covered {res.distinct} states instead of {want}")
        if canary:
            got = rejects.pop(canary[0], None)
            if got is None or got[0] > canary[1]:
                raise Broken("the corrupted history was accepted")
            self.cover["canaries_rejected"] = self.cover.get("canaries_rejected", 0) + 1
        events = 0
        for n, own in enumerate(owners, 1):
            length = len(json.loads(traces[n - 1]))
            if n in rejects:
                self.reject(histories, recorded, own, *rejects[n], note)
            else:
                self.cover["traces_validated_against_impl"] += len(own)
                events += length * len(own)
        self.cover["events_accepted"] += events
        self.cover["states"] += res.distinct
        self.cover["transitions"] += res.generated
        self.cover["models"][module + (" (data of our own)" if note else "")] = {
            "states": res.distinct, "distinct_histories": len(owners), "wall_s": round(res.wall, 1)}
        if owners:
            for n in self.rng.sample(range(len(owners)), min(2, len(owners))):
                mode, i = owners[n][0]
                self.cover["samples"].append({"numba": mode, "events": recorded[mode][i][:4]})
        if not owners or (not rejects and events == 0):
            raise Broken("nothing was validated")
        return rejects

    def reject(self, histories, recorded, own, pos, expected, note):
        mode, i = own[0]
        evs = recorded[mode][i]
        self.violation({
            "modes": sorted({f"NPP_USE_NUMBA={m}" for m, _ in own}),
            "failing_event": evs[pos - 1], "specification_allows": expected, "position": pos,
            "history": evs[max(0, pos - 12):pos],
            "stimuli": histories[i][:pos],
            **(note or {}),
        })

    def violation(self, info):
        self.violations.append(info)

    # -- ending --------------------------------------------------------------------
    def finish(self, level="model_checking"):
        wall = round(time.time() - self.start, 2)
        cov = self.cover
        cov["samples"] = cov["samples"][:8] or ["none"]
        (VERIF / "evidence").mkdir(exist_ok=True)
        with open(VERIF / "evidence" / f"{self.prop}.json", "w") as f:
            json.dump({"property": self.prop, "tier": self.tier, "seed": self.seed, "level": level, "coverage": cov,
                       "assumptions": self.assumptions, "wall_s": wall, "violations": len(self.violations)}, f, indent=1)
        for line in self.known:
            print(line)
        if self.violations:
            folder = VERIF / "replay"
            folder.mkdir(exist_ok=True)
            for n, info in enumerate(self.violations[:3]):
                path = folder / f"{self.prop}-{self.seed}-{n}.json"
                with open(path, "w") as f:
                    json.dump(dict(info, property=self.prop), f, indent=1)
                brief = {k: info[k] for k in ("modes", "failing_event", "specification_allows", "what") if k in info}
                print(json.dumps(brief)[:1500])
                print(f"VIOLATION property={self.prop} replay={path}")
            return 1
        print(f"{self.prop}: {cov['traces_validated_against_impl']} histories, {cov['events_accepted']} events accepted, "
              f"{cov['states']} states, {wall} s")
        return 0
