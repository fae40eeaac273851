#!/usr/bin/env python3
"""check.py PROPERTY [quick|thorough]

Decides one property: builds the harness against /repo's working tree, lets TLC explore the
specification (spec/Visdom.tla) over the property's universe and check its laws, replays every behaviour
TLC printed into the real code, runs random episodes on the real code, and has TLC judge every recorded
trace against the specification (spec/Trace.tla).

exit 0: held on everything explored; 1 with a VIOLATION line: broken; 2: no answer (an error of the check).
"""
import fcntl, json, os, re, shutil, subprocess, sys, time
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
SPEC = os.path.join(HERE, "spec")
HARNESS = os.path.join(HERE, "harness")
JARS = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"

#        quick: size depth random-events-per-shard    thorough: the same, shards
#        (size 0: nothing to enumerate; the random episodes alone)
BOUNDS = {
    "C01": ((3, 0, 5000), (4, 0, 12000)),
    "C02": ((3, 0, 5000), (4, 0, 12000)),
    "C03": ((3, 0, 5000), (4, 0, 12000)),
    "C04": ((3, 0, 5000), (4, 0, 12000)),
    "C05": ((3, 0, 5000), (4, 0, 12000)),
    "C06": ((3, 0, 5000), (4, 0, 12000)),
    "C07": ((3, 0, 5000), (4, 0, 12000)),
    "C08": ((3, 0, 5000), (4, 0, 12000)),
    "C09": ((2, 2, 5000), (3, 2, 12000)),
    "C10": ((3, 1, 5000), (4, 1, 12000)),
    "C11": ((3, 1, 5000), (4, 1, 12000)),
    "C12": ((3, 1, 5000), (4, 1, 12000)),
    "C13": ((1, 2, 5000), (1, 3, 12000)),
    "C14": ((1, 2, 5000), (1, 3, 12000)),
    "C15": ((3, 1, 5000), (4, 1, 12000)),
    "C16": ((3, 1, 5000), (4, 1, 12000)),
    "C17": ((3, 1, 5000), (3, 2, 12000)),
    "C18": ((2, 2, 5000), (3, 2, 12000)),
    "C19": ((3, 0, 5000), (3, 1, 12000)),
    "C20": ((2, 0, 5000), (3, 0, 16000)),
    "C21": ((3, 0, 5000), (4, 0, 12000)),
    "C22": ((2, 1, 5000), (3, 1, 12000)),
    "C23": ((2, 1, 5000), (3, 1, 12000)),
    "C24": ((3, 0, 5000), (4, 0, 16000)),
    "C25": ((0, 0, 5000), (0, 0, 16000)),
    "C26": ((3, 0, 5000), (4, 0, 12000)),
    "C27": ((3, 0, 5000), (4, 0, 12000)),
}
SHARDS = {"quick": 7, "thorough": 28}


class NoAnswer(Exception):
    pass


def say(*a):
    print(*a, flush=True)


def build(hooks=False):
    """the harness; with hooks: the locks of the library report what happens to them (None: they can't be built)"""
    target = os.path.join(HARNESS, "target-locks" if hooks else "target")
    env = dict(os.environ, CARGO_TARGET_DIR=target, CARGO_NET_OFFLINE="true")
    env.pop("RUSTFLAGS", None)
    if hooks:
        env["RUSTFLAGS"] = "--cfg visdom_verif"
    os.makedirs(target, exist_ok=True)
    with open(os.path.join(target, ".lock"), "w") as lock:
        fcntl.flock(lock, fcntl.LOCK_EX)
        r = subprocess.run(["cargo", "build", "--offline", "--quiet"], cwd=HARNESS, env=env, capture_output=True, text=True)
    if r.returncode:
        if hooks:
            return None
        raise NoAnswer("the harness does not build:\n" + r.stderr[-3000:])
    return os.path.join(target, "debug", "vharness")


def tlc(module, work, name, env, workers, out, limit, heap="3g", partial=False):
    meta = os.path.join(work, name + ".meta")
    cmd = ["java", "-XX:+UseParallelGC", "-XX:ParallelGCThreads=2", "-Xmx" + heap, "-Xss64m", "-Dfile.encoding=UTF-8", "-Dstdout.encoding=UTF-8", "-Djava.io.tmpdir=" + work,
           "-cp", JARS, "tlc2.TLC", "-workers", str(workers), "-metadir", meta, "-noGenerateSpecTE",
           "-config", module + ".cfg", module + ".tla"]
    with open(out, "w") as f:
        try:
            r = subprocess.run(cmd, cwd=SPEC, env=dict(os.environ, **env), stdout=f, stderr=subprocess.STDOUT, timeout=limit)
        except subprocess.TimeoutExpired:
            if partial:
                return None
            raise NoAnswer("TLC took longer than %d s on %s" % (limit, name))
        finally:
            shutil.rmtree(meta, ignore_errors=True)
    return r.returncode


def states(out):
    m = re.findall(r"(\d+) states generated, (\d+) distinct states found", open(out, errors="replace").read()[-4000:])
    return (int(m[-1][0]), int(m[-1][1])) if m else (0, 0)


class Check:
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.work = os.path.join(HERE, "work", "%s-%s-%d" % (prop, tier, os.getpid()))
        self.bad = []            # (trace, line number, messages)
        self.events = self.traces = 0
        self.ops, self.kinds, self.samples, self.seen = {}, set(), [], set()
        self.model = {"states": 0, "transitions": 0, "behaviours": 0}
        self.died = 0
        self.locked = None
        self.hung = False
        self.unfinished = 0
        self.tlc_states = self.tlc_steps = 0   # what TLC counted on the traces

    # -------------------------------------------------------------- the code
    def harness(self, args, out, limit, bin=None, env={}):
        try:
            r = subprocess.run([bin or self.bin] + args, capture_output=True, text=True, timeout=limit, env=dict(os.environ, **env))
        except subprocess.TimeoutExpired:
            raise NoAnswer("the harness took longer than %d s" % limit)
        if r.returncode == 3:
            raise NoAnswer("the harness does not know an operation: " + r.stderr[-500:])
        pending = out + ".pending"
        left = open(pending, errors="replace").read() if os.path.exists(pending) else ""
        if os.path.exists(pending):
            os.remove(pending)
        if r.returncode:
            # the process itself ended: the operation under way did it
            self.died += 1
            if not left.strip():
                raise NoAnswer("the harness ended with %d: %s" % (r.returncode, r.stderr[-500:]))
            with open(out, "a") as f:
                f.write(left.rstrip()[:-1] + ',"err":0,"pan":"the process died (%d)"}\n' % r.returncode)

    def episodes(self, shard, n, limit):
        out = os.path.join(self.work, "r%03d.ndjson" % shard)
        self.harness([self.prop, str(self.seed), str(shard), out, str(n)], out, limit)
        self.judge(out)

    def behaviours(self, src, k, limit):
        out = os.path.join(self.work, "b%03d.ndjson" % k)
        self.harness([self.prop, str(self.seed), "behaviours", src, out], out, limit)
        os.remove(src)
        self.judge(out)

    # ------------------------------------------------------- the specification
    def explore(self, size, depth, limit):
        out = os.path.join(self.work, "model.out")
        rc = tlc("Visdom", self.work, "model", {"PROPERTY": self.prop, "SIZE": str(size), "DEPTH": str(depth)}, 4, out, limit, "8g")
        parts, n = [], 0
        with open(out, errors="replace") as f:
            for line in f:
                if line.startswith('<<"B", '):
                    parts.append(json.loads(line[7:].rstrip()[:-2]))
        if rc:
            tail = "".join(l for l in open(out, errors="replace") if not l.startswith("<<"))[-3000:]
            raise NoAnswer("the specification does not satisfy its laws, or cannot be read:\n" + tail)
        g, d = states(out)
        os.remove(out)
        self.model = {"states": d, "transitions": max(0, g - 1), "behaviours": len(parts)}
        return parts

    def judge(self, trace):
        lines = open(trace, errors="replace").read().splitlines()
        if not lines:
            os.remove(trace)
            return
        out = trace + ".out"
        rc = tlc("Trace", self.work, os.path.basename(trace), {"TRACE": trace}, 1, out, 420 if self.tier == "quick" else 3000, partial=True)
        text = open(out, errors="replace").read()
        hits = [int(x) for x in re.findall(r'<<\s*"MISMATCH",\s*(\d+)', text)]
        if rc is None:
            # what was judged before the time ran out counts, the rest of this trace does not
            self.unfinished += 1
            done = re.findall(r"Progress\((\d+)\)", text)
            lines = lines[:int(done[-1]) - 1 if done else 0]
        elif rc or states(out)[1] != len(lines) + 1:
            # the step that could not be evaluated is the one after the last state reached
            if re.search(r"Attempted to|evaluating|was not in the domain|CHOOSE x", text) and "OutOfMemory" not in text:
                at = re.findall(r"\bl = (\d+)", text)
                hits.append(int(at[-1]) if at else 1)
            else:
                raise NoAnswer("TLC did not finish on %s:\n%s" % (trace, text[-3000:]))
        g, d = states(out)
        self.tlc_states, self.tlc_steps = self.tlc_states + d, self.tlc_steps + max(0, g - 1)
        self.count(lines, trace)
        for h in hits:
            m = re.search(r'<<\s*"MISMATCH",\s*%d,(.*?)>>\n' % h, text, re.S)
            self.bad.append((trace, h, " ".join(m.group(1).split()) if m else "the event does not fit the specification"))
        os.remove(out)
        if not hits:
            os.remove(trace)

    def count(self, lines, trace):
        self.traces += 1
        for i, l in enumerate(lines):
            op = re.search(r'"op":"(\w+)"', l[:400])
            j = re.search(r'"j":"(\w+)"', l[:600])
            if not op or not j:
                continue
            if j.group(1) == "any":
                continue
            self.events += 1
            o = op.group(1)
            self.ops[o] = self.ops.get(o, 0) + 1
            self.seen.add(hash(l))
            if len(self.samples) < 6 and o not in self.kinds and len(l) < 1500:
                self.kinds.add(o)
                e = json.loads(l)
                e.pop("d", None)
                self.samples.append(e)

    # --------------------------------------------------------------- locks (C25)
    def runs_in(self, out):
        """run -> an operation in which it was recorded"""
        got = {}
        if os.path.exists(out + ".locks"):
            for l in open(out + ".locks", errors="replace"):
                j = json.loads(l)
                by = j.pop("by")
                got.setdefault(json.dumps(j), by)
            os.remove(out + ".locks")
        return got

    def forced(self, k, src, circle, bin, limit):
        out = os.path.join(self.work, "c%s.ndjson" % k)
        if not self.hung:
            self.harness([self.prop, "1", "force", src, out], out, limit, bin, {"FORCE": ",".join(circle), "JITTER": "1"})
            if open(out).read():
                self.hung = True
                self.judge(out)

    def longer(self, k, n, bin, limit):
        """the runs of a longer session"""
        out = os.path.join(self.work, "l%03d.ndjson" % k)
        self.harness([self.prop, str(self.seed), str(2000 + k), out, str(n)], out, limit, bin, {"HANG": "30"})
        got = self.runs_in(out)
        if '"pan":"no answer"' in open(out, errors="replace").read():
            self.hung = True
            self.judge(out)
        else:
            os.remove(out)
        return got

    def beginnings(self, k, procs, env, bin, limit):
        """processes whose threads use the library for the first time, all at once; the runs of their locks"""
        whole = os.path.join(self.work, "f%03d.ndjson" % k)
        runs = {}
        with open(whole, "w") as all_:
            for i in range(procs):
                if self.hung:
                    break
                out = os.path.join(self.work, "f%03d.%d" % (k, i))
                self.harness([self.prop, str(self.seed), str(1000 + 97 * k + i), out, "60"], out, limit, bin,
                             dict(env, JITTER=str(1 + self.seed * 7919 + 101 * k + i)))
                text = open(out, errors="replace").read()
                all_.write(text)
                self.hung = self.hung or '"pan":"no answer"' in text
                runs.update(self.runs_in(out))
                os.remove(out)
        self.judge(whole)
        return runs

    def locks(self, pool, limit):
        quick = self.tier == "quick"
        bin = build(True)
        if not bin:
            self.locked = {"note": "the library does not build with its hooks; the locks were not recorded"}
            bin = self.bin
        got = [pool.submit(self.beginnings, k, 14 if quick else 120, {"HANG": "30"}, bin, limit) for k in range(7)]
        more = [pool.submit(self.longer, k, 4000, bin, limit) for k in range(2 if quick else 14)] if bin != self.bin else []
        runs = {}
        for g in got + more:
            for r, by in g.result().items():
                runs.setdefault(r, by)
        if bin == self.bin or not runs:
            return
        order = sorted(runs)
        src = os.path.join(self.work, "runs.ndjson")
        with open(src, "w") as f:
            f.write("\n".join(order) + "\n")
        n = (3 if len(runs) < 60 else 2) + (0 if quick else 1)
        out = os.path.join(self.work, "locks.out")
        rc = tlc("Locks", self.work, "locks", {"RUNS": src, "THREADS": str(n)}, 8, out, limit, "8g", partial=True)
        text = open(out, errors="replace").read()
        g, d = states(out)
        self.locked = {"module": "spec/Locks.tla", "recorded_runs": len(runs), "threads": n, "distinct_states": d,
                       "complete": rc == 0, "processes": len(got) * (14 if quick else 120)}
        self.tlc_states, self.tlc_steps = self.tlc_states + d, self.tlc_steps + max(0, g - 1)
        circles = re.findall(r'<<"CIRCLE", \{(.*?)\}, \{(.*?)\}>>', text)
        circles = sorted({(tuple(re.findall(r"-?\d+", held)), who) for held, who in circles})[:4]
        if rc and not circles:
            raise NoAnswer("TLC did not finish on the recorded locks:\n" + text[-3000:])
        # threads that can wait for each other: bring it about in the code
        for i, (held, who) in enumerate(circles):
            if self.hung:
                break
            src = os.path.join(self.work, "circle%d.ndjson" % i)
            with open(src, "w") as f:
                for w in who.split(","):
                    f.write(json.dumps(runs[order[int(w) - 1]], ensure_ascii=False) + "\n")
            got = [pool.submit(self.forced, "%d.%d" % (i, k), src, held, bin, limit) for k in range(16)]
            for g in got:
                g.result()
            self.locked["circle"] = "confirmed" if self.hung else "could not be brought about"

    # ---------------------------------------------------------------- findings
    def known(self):
        """listed findings: each is a recorded history; said aloud as long as it still fails"""
        path = os.path.join(HERE, "known", "findings.jsonl")
        for l in open(path) if os.path.exists(path) else []:
            k = json.loads(l)
            if k["property"] != self.prop or k["status"] != "open":
                continue
            src = os.path.join(HERE, "known", k["history"])
            out = os.path.join(self.work, "known.ndjson")
            self.harness([self.prop, "1", "events", src, out], out, 60)
            before, self.bad = self.bad, []
            t = (self.events, self.traces, dict(self.ops))
            self.judge(out)
            found, self.bad = self.bad, before
            self.events, self.traces, self.ops = t
            if found:
                say("KNOWN-FINDING: property=%s %s" % (self.prop, k["what"]))

    # --------------------------------------------------------------------- all
    def run(self):
        t0 = time.time()
        os.makedirs(self.work, exist_ok=True)
        self.bin = build()
        t1 = time.time()
        size, depth, n = BOUNDS[self.prop][0 if self.tier == "quick" else 1]
        limit = 800 if self.tier == "quick" else 7000
        with ThreadPoolExecutor(8) as pool:
            model = pool.submit(self.explore, size, depth, limit) if size else None
            first = [pool.submit(self.episodes, s, n, limit) for s in range(SHARDS[self.tier])]
            jobs = []
            if model:
                parts = model.result()
                # even shares: a behaviour costs about what it weighs
                k = 8 if self.tier == "quick" else 32
                bins = [(0, i, []) for i in range(k)]
                import heapq
                for b in parts:
                    w, i, l = heapq.heappop(bins)
                    l.append(b)
                    heapq.heappush(bins, (w + len(b), i, l))
                for w, i, l in bins:
                    if not l:
                        continue
                    src = os.path.join(self.work, "b%03d.in" % i)
                    with open(src, "w") as f:
                        f.write("\n".join(l) + "\n")
                    jobs.append(pool.submit(self.behaviours, src, i, limit))
            for j in first + jobs:
                j.result()
            if self.prop == "C25":
                self.locks(pool, limit)
        self.known()
        self.evidence(size, depth, n, t0, t1)
        if not self.bad:
            shutil.rmtree(self.work, ignore_errors=True)
            say("%s %s: held on %d judged operations in %d traces (%d model states) in %.0f s"
                % (self.prop, self.tier, self.events, self.traces, self.model["states"], time.time() - t0))
            return 0
        return self.report()

    def report(self):
        self.bad.sort(key=lambda b: (b[1], b[0]))
        trace, at, msg = self.bad[0]
        lines = open(trace, errors="replace").read().splitlines()
        start = at - 1
        while start > 0 and not ('"op":"load"' in lines[start][:40] and '"fresh":true' in lines[start][:80]):
            start -= 1
        path = os.path.join(HERE, "evidence", self.prop + ".replay.ndjson")
        with open(path, "w") as f:
            f.write("\n".join(lines[start:at]) + "\n")
        e = json.loads(lines[at - 1])
        e.pop("d", None)
        say("%d operations did not do what the specification says; the first:" % len(self.bad))
        say("  " + json.dumps(e, ensure_ascii=False)[:1500])
        say("  " + msg[:800])
        say("  run it again: %s %s 1 events %s OUT.ndjson" % (self.bin, self.prop, path))
        shutil.rmtree(self.work, ignore_errors=True)
        say("VIOLATION property=%s replay=%s" % (self.prop, path))
        return 1

    def evidence(self, size, depth, n, t0, t1):
        os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
        cov = {
            "states": self.model["states"] + self.tlc_states,
            "transitions": self.model["transitions"] + self.tlc_steps,
            "traces_validated_against_impl": self.traces,
            "samples": self.samples,
            "model": {"module": "spec/Visdom.tla", "size": size, "depth": depth, "distinct_states": self.model["states"], "steps": self.model["transitions"],
                      "behaviours_replayed": self.model["behaviours"], "complete_within_bounds": bool(size)},
            "operations_judged": self.events,
            "distinct_operations_judged": len(self.seen),
            "operations_by_kind": self.ops,
            "random_episodes": {"shards": SHARDS[self.tier], "events_per_shard": n},
            **({"locks": self.locked} if self.locked else {}),
            "processes_died": self.died,
            "traces_judged_in_part": self.unfinished,
            "build_s": round(t1 - t0, 1),
        }
        ev = {"property": self.prop, "tier": self.tier, "seed": self.seed, "level": "model_checking", "coverage": cov,
              "assumptions": ["rphtml, the html parser visdom is built on, reads well-formed html as it is written",
                              "the projection of the node fields onto the specification's store (harness/src/world.rs)",
                              "TLC and its Json and IOUtils modules"],
              "wall_s": round(time.time() - t0, 1), "violations": len(self.bad)}
        with open(os.path.join(HERE, "evidence", self.prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1, ensure_ascii=False)
            f.write("\n")


def main():
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    c = Check(prop, tier, seed)
    try:
        return c.run()
    except NoAnswer as x:
        say("no answer: %s" % x)
        shutil.rmtree(c.work, ignore_errors=True)
        return 2


if __name__ == "__main__":
    sys.exit(main())
