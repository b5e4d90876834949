#!/usr/bin/env python3
"""Decides one property by seeded search over simulated runs.

  check.py PROP [--tier quick|thorough] [--runs N] [--seed S] [--keep-going]
  check.py replay FILE          re-executes a replay file (exit 1 when it still violates)

exit 0: property held on everything explored; exit 1: a line "VIOLATION property=<id> replay=<path>".
"""
import concurrent.futures as cf
import hashlib, json, os, re, shutil, signal, struct, subprocess, sys, tempfile, time
HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
sys.path.insert(0, HERE)
import build as B  # noqa: E402
import config as C  # noqa: E402

NCPU = max(1, min(8, os.cpu_count() or 8))
ENV = dict(os.environ)
ENV["ASAN_OPTIONS"] = "detect_leaks=0:handle_abort=1:hard_rss_limit_mb=5000:detect_stack_use_after_return=0:symbolize=1"
ENV["TSAN_OPTIONS"] = "halt_on_error=1:exitcode=66:history_size=4:second_deadlock_stack=0:ignore_noninstrumented_modules=0"
ENV["UBSAN_OPTIONS"] = "print_stacktrace=0"
STALL = 90.0


def classify(rc, out, err, timed_out=False):
    """(class, message) of a failing process, or None when it ended normally."""
    if timed_out:
        return ("hang", "no progress within the step budget")
    m = re.search(r"^VIOLATION-CLASS (.*)$", out, re.M)
    if m:
        msg = re.search(r"^VIOLATION-MESSAGE (.*?)(?:\nLOG-HASH|\nSEED|\Z)", out, re.M | re.S)
        return (m.group(1).strip(), msg.group(1).strip() if msg else "")
    if rc == 0:
        return None
    m = re.search(r"ERROR: AddressSanitizer:? ([\w\-]+)", err)
    if m:
        kind = m.group(1)
        fr = [f for f in re.findall(r"#\d+ 0x[0-9a-f]+ in (.*)$", err, re.M) if "/src/ink/" in f or "ink::" in f][:2]
        return ("asan:" + kind, "; ".join(fr)[:600])
    m = re.search(r"WARNING: ThreadSanitizer: ([\w \-]+)", err)
    if m:
        fr = [f.strip() for f in re.findall(r"#\d+ (.*)$", err, re.M) if "ink::" in f][:4]
        return ("tsan:" + m.group(1).strip().replace(" ", "-"), "; ".join(fr)[:900])
    if "hard rss limit" in err:
        return ("memory-blowup", "resident memory above the limit")
    if rc in (2, 3):
        return None
    return ("crash:%s" % rc, (err.strip().splitlines() or [""])[-1][:300])


def run_exec(binp, plan_path, timeout=20.0, args=()):
    try:
        p = subprocess.run([binp, "exec", plan_path, *args], stdout=subprocess.PIPE, stderr=subprocess.PIPE,
                           text=True, errors="replace", env=ENV, timeout=timeout)
        out, err, rc, to = p.stdout, p.stderr, p.returncode, False
    except subprocess.TimeoutExpired as e:
        out = (e.stdout or b"").decode(errors="replace") if isinstance(e.stdout, bytes) else (e.stdout or "")
        err, rc, to = "", -9, True
    v = classify(rc, out, err, to)
    h = re.search(r"^LOG-HASH (\w+)$", out, re.M)
    extra = re.findall(r"^EXTRA (.*)$", out, re.M)
    return dict(v=v, hash=h.group(1) if h else None, out=out, err=err, rc=rc, extra=extra)


class PlanText:
    def __init__(self, text):
        self.head = [l for l in text.splitlines() if l and not l.startswith("op ")]
        self.ops = [l for l in text.splitlines() if l.startswith("op ")]

    def text(self, ops=None):
        return "\n".join(self.head + (self.ops if ops is None else ops)) + "\n"


class Minimiser:
    def __init__(self, binp, plan, cls, budget, tmp, timeout):
        self.binp, self.cls, self.tmp, self.timeout = binp, cls, tmp, timeout
        self.plan = plan
        self.deadline = time.time() + budget
        self.execs = 0
        self.n = 0

    def left(self):
        return time.time() < self.deadline

    def bad(self, ops):
        self.n += 1
        p = os.path.join(self.tmp, "c%d.plan" % self.n)
        with open(p, "w") as f:
            f.write(self.plan.text(ops))
        self.execs += 1
        r = run_exec(self.binp, p, self.timeout)
        os.unlink(p)
        return r["v"] is not None and r["v"][0] == self.cls

    def first_bad(self, cands):
        """Index of the first candidate that still fails (evaluated in parallel)."""
        for i in range(0, len(cands), NCPU):
            if not self.left():
                return None
            chunk = cands[i:i + NCPU]
            with cf.ThreadPoolExecutor(NCPU) as ex:
                res = list(ex.map(self.bad, chunk))
            for j, ok in enumerate(res):
                if ok:
                    return i + j
        return None

    def ddmin(self, items, build):
        n = 2
        while len(items) >= 1 and self.left():
            size = max(1, (len(items) + n - 1) // n)
            starts = list(range(0, len(items), size))[::-1]
            cands = [items[:s] + items[s + size:] for s in starts]
            k = self.first_bad([build(c) for c in cands])
            if k is not None:
                items = cands[k]
                n = max(2, n - 1)
            elif size == 1:
                break
            else:
                n = min(len(items), n * 2)
        return items

    def run(self):
        ops = self.ddmin(list(self.plan.ops), lambda c: c)
        # groups inside each op
        i = 0
        while i < len(ops) and self.left():
            parts = ops[i].split(" | ")
            if len(parts) > 1:
                g = self.ddmin(parts[1:], lambda c, i=i, h=parts[0]: ops[:i] + [" | ".join([h] + c)] + ops[i + 1:])
                ops[i] = " | ".join([parts[0]] + g)
            i += 1
        ops = self.ddmin(ops, lambda c: c)
        # numbers: try simpler values
        for i in range(len(ops)):
            if not self.left():
                break
            toks = ops[i].split(" ")
            for j in range(2, len(toks)):
                if not self.left():
                    break
                try:
                    x = float(toks[j])
                except ValueError:
                    continue
                alts = []
                for a in ("0", "1", "%.0f" % x, "%.1f" % x, "%.3f" % x, "%.5g" % x):
                    if a != toks[j] and len(a) < len(toks[j]) and a not in alts:
                        alts.append(a)
                if not alts:
                    continue
                cands = [ops[:i] + [" ".join(toks[:j] + [a] + toks[j + 1:])] + ops[i + 1:] for a in alts]
                k = self.first_bad(cands)
                if k is not None:
                    toks[j] = alts[k]
                    ops[i] = " ".join(toks)
        return ops


class Worker:
    def __init__(self, binp, prop, base, start, stride, end, limit, out):
        self.cfg = (binp, prop, base, stride, end, limit)
        self.start, self.out = start, out
        self.err = open(out + ".err", "w+")
        self.so = open(out + ".stdout", "w+")
        self.p = subprocess.Popen([binp, "work", "--property", prop, "--base", str(base), "--start", str(start),
                                   "--stride", str(stride), "--end", str(end), "--limit", str(limit), "--out", out],
                                  stdout=self.so, stderr=self.err, env=ENV)
        self.last, self.last_t = None, time.time()

    def progress(self):
        try:
            with open(self.out + ".progress", "rb") as f:
                d = f.read(16)
            return struct.unpack("<QQ", d)
        except Exception:
            return None

    def stalled(self):
        pr = self.progress()
        now = time.time()
        if pr != self.last:
            self.last, self.last_t = pr, now
        return now - self.last_t > STALL

    def outputs(self):
        self.so.seek(0)
        self.err.seek(0)
        return self.so.read(), self.err.read()


def load_known(prop):
    known, path = [], os.path.join(VERIF, "known_findings.txt")
    if not os.path.exists(path):
        return known
    for line in open(path):
        line = line.strip()
        m = re.match(r"KNOWN property=(\S+) class=(\S+) plan=(\S+) match=(.*?) :: (.*)$", line)
        if m and m.group(1) == prop:
            known.append(dict(cls=m.group(2), plan=os.path.join(VERIF, m.group(3)), match=m.group(4), what=m.group(5)))
    return known


def known_match(known, v):
    for k in known:
        if k["cls"] == v[0] and re.search(k["match"], v[1]):
            return k
    return None


def finalize_violation(prop, binp, seed, v, tmp, budget, workspec):
    """Same-seed gate, minimisation, replay file. Returns (path, class, message, info)."""
    rep_dir = os.path.join(B.B, "replays")
    os.makedirs(rep_dir, exist_ok=True)
    p0 = os.path.join(tmp, "seed.plan")
    g = subprocess.run([binp, "gen", "--property", prop, "--seed", str(seed)], stdout=subprocess.PIPE,
                       stderr=subprocess.PIPE, text=True, env=ENV)
    with open(p0, "w") as f:
        f.write(g.stdout)
    timeout = 25.0
    a = run_exec(binp, p0, timeout)
    b = run_exec(binp, p0, timeout)
    if not (a["v"] and b["v"] and a["v"][0] == b["v"][0]):
        # Depends on runs executed earlier in the same process: the replay is the deterministic series of runs.
        path = os.path.join(rep_dir, "%s-%d.series" % (prop, seed))
        with open(path, "w") as f:
            f.write("series %s %d %d %d %d\n" % ((prop,) + workspec))
        return path, v[0], v[1] + " (depends on earlier runs in the same process)", dict(same_seed_identical=False)
    cls = a["v"][0]
    info = dict(same_seed_identical=(a["hash"] == b["hash"]))
    pt = PlanText(g.stdout)
    # make a random schedule explicit so that it can be minimised
    if a["extra"]:
        pt2 = PlanText(g.stdout)
        pt2.ops = [o for o in pt2.ops if not o.startswith("op sched")] + [e for e in a["extra"]]
        q = os.path.join(tmp, "explicit.plan")
        with open(q, "w") as f:
            f.write(pt2.text())
        r = run_exec(binp, q, timeout)
        if r["v"] and r["v"][0] == cls:
            pt = pt2
    t0 = time.time()
    mi = Minimiser(binp, pt, cls, budget, tmp, timeout if cls != "hang" else 8.0)
    ops = mi.run()
    body = pt.text(ops)
    path = os.path.join(rep_dir, "%s-%s.plan" % (prop, hashlib.sha256(body.encode()).hexdigest()[:12]))
    with open(path, "w") as f:
        f.write(body)
    r1, r2 = run_exec(binp, path, timeout), run_exec(binp, path, timeout)
    info.update(ops_before=len(PlanText(g.stdout).ops), ops_after=len(ops), minimise_s=round(time.time() - t0, 1),
                minimise_execs=mi.execs, replay_identical=bool(r1["v"] and r2["v"] and r1["v"][0] == r2["v"][0]
                                                               and r1["hash"] == r2["hash"]))
    if not (r1["v"] and r1["v"][0] == cls):
        with open(path, "w") as f:
            f.write(g.stdout)
        return path, cls, a["v"][1], info
    return path, cls, r1["v"][1], info


def replay(path):
    text = open(path).read()
    if text.startswith("series "):
        _, prop, base, start, stride, end, tgt = text.split()
        if not B.build([tgt]):
            return 2
        binp = B.binary(tgt)
        tmp = tempfile.mkdtemp(prefix="dst")
        p = subprocess.run([binp, "work", "--property", prop, "--base", base, "--start", start, "--stride", stride,
                            "--end", end, "--out", os.path.join(tmp, "o")], stdout=subprocess.PIPE,
                           stderr=subprocess.PIPE, text=True, env=ENV)
        shutil.rmtree(tmp)
        v = classify(p.returncode, p.stdout, p.stderr)
    else:
        prop = re.search(r"^property (\S+)", text, re.M).group(1)
        tgt = C.PROPS[prop]["target"]
        if re.search(r"^# target (\S+)", text, re.M):
            tgt = re.search(r"^# target (\S+)", text, re.M).group(1)
        if not B.build([tgt]):
            return 2
        v = run_exec(B.binary(tgt), path, 60.0)["v"]
    if v:
        print("class: %s\nmessage: %s" % v)
        print("VIOLATION property=%s replay=%s" % (prop, path))
        return 1
    print("held")
    return 0


def search(prop, target, binp, base, runs, cap, outdir, tier, known, tag):
    """Runs the seeded search. Returns (violation or None, merged stats)."""
    ws, done, t0 = [], [], time.time()
    for i in range(NCPU):
        ws.append(Worker(binp, prop, base, i, NCPU, runs, cap, os.path.join(outdir, "%s%d" % (tag, i))))
    found, known_hits, k = None, {}, 0
    while ws and not found:
        time.sleep(0.05)
        for w in list(ws):
            rc = w.p.poll()
            to = False
            if rc is None:
                if not w.stalled():
                    continue
                to = True
                w.p.kill()
                w.p.wait()
                rc = -9
            out, err = w.outputs()
            v = classify(rc, out, err, to)
            pr = w.progress()
            ws.remove(w)
            if v is None:
                if rc != 0:
                    raise SystemExit("worker failed without a verdict (rc %s): %s" % (rc, err[-2000:]))
                done.append(w)
                continue
            kf = known_match(known, v)
            if kf:
                known_hits[kf["what"]] = known_hits.get(kf["what"], 0) + 1
                done.append(w)
                k += 1
                left = cap - (time.time() - t0)
                if pr and pr[0] + NCPU < runs and left > 1:
                    ws.append(Worker(binp, prop, base, pr[0] + NCPU, NCPU, runs, left,
                                     os.path.join(outdir, "%sk%d" % (tag, k))))
                continue
            found = dict(index=pr[0] if pr else -1, seed=pr[1] if pr else 0, v=v, start=w.start)
            break
    for w in ws:
        w.p.kill()
        w.p.wait()
        done.append(w)
    st = dict(runs=0, steps=0, checks=0, nontrivial=0, sim_seconds=0.0, counters={}, states=set(), hist=set())
    for w in done:
        try:
            d = json.load(open(w.out))
        except Exception:
            continue
        for k2 in ("runs", "steps", "checks", "nontrivial", "sim_seconds"):
            st[k2] += d[k2]
        for n, c in d["counters"].items():
            st["counters"][n] = st["counters"].get(n, 0) + c
        for ext, key in ((".states", "states"), (".hist", "hist")):
            if os.path.exists(w.out + ext):
                raw = open(w.out + ext, "rb").read()
                st[key].update(struct.unpack("<%dQ" % (len(raw) // 8), raw))
    st["wall"] = time.time() - t0
    st["known_hits"] = known_hits
    return found, st


def main():
    if len(sys.argv) >= 3 and sys.argv[1] == "replay":
        return replay(sys.argv[2])
    prop = sys.argv[1]
    opt = dict(zip(sys.argv[2::2], sys.argv[3::2]))
    tier = opt.get("--tier", os.environ.get("VERIF_TIER", "quick"))
    base = int(opt.get("--seed", os.environ.get("VERIF_SEED", "1")))
    cfg = C.PROPS[prop]
    t_start = time.time()
    known = load_known(prop)
    phases = cfg["phases"]
    if not B.build(sorted({ph["target"] for ph in phases})):
        print("build of the simulator from /repo failed")
        return 2
    build_s = time.time() - t_start
    tmp = tempfile.mkdtemp(prefix="dst-%s-" % prop, dir=B.B)
    rc, total, phase_ev, vio, replay_path = 0, None, [], None, None
    try:
        for pi, ph in enumerate(phases):
            binp = B.binary(ph["target"])
            runs = int(opt.get("--runs", ph["runs"][tier]))
            cap = float(opt.get("--cap", ph["cap"][tier]))
            found, st = search(prop, ph["target"], binp, base + pi * 1000003, runs, cap, tmp, tier, known, "p%d_" % pi)
            phase_ev.append(dict(target=ph["target"], runs=st["runs"], wall_s=round(st["wall"], 2),
                                 runs_per_hour=int(st["runs"] / max(st["wall"], 1e-3) * 3600),
                                 steps=st["steps"], simulated_seconds=round(st["sim_seconds"], 3)))
            if total is None:
                total = st
            else:
                for k in ("runs", "steps", "checks", "nontrivial", "sim_seconds", "wall"):
                    total[k] += st[k]
                for n, c in st["counters"].items():
                    total["counters"][n] = total["counters"].get(n, 0) + c
                total["states"] |= st["states"]
                total["hist"] |= st["hist"]
                for n, c in st["known_hits"].items():
                    total["known_hits"][n] = total["known_hits"].get(n, 0) + c
            if found:
                print("found in simulated run %d (seed %d): %s: %s" % (found["index"], found["seed"], *found["v"]))
                sys.stdout.flush()
                path, cls, msg, info = finalize_violation(
                    prop, binp, found["seed"], found["v"], tmp, 60 if tier == "quick" else 240,
                    (base + pi * 1000003, found["start"], NCPU, found["index"] + 1))
                if path.endswith(".plan"):
                    body = open(path).read()
                    open(path, "w").write("# target %s\n" % ph["target"] + body)
                elif path.endswith(".series"):
                    body = open(path).read()
                    open(path, "w").write(body.strip() + " %s\n" % ph["target"])
                vio = dict(cls=cls, msg=msg, seed=found["seed"], index=found["index"], replay=path, info=info)
                rc = 1
                break
        samples = []
        for i in range(2):
            binp = B.binary(phases[0]["target"])
            sd = 1000 + i + base
            g = subprocess.run([binp, "gen", "--property", prop, "--seed", str(sd)], stdout=subprocess.PIPE,
                               stderr=subprocess.PIPE, text=True, env=ENV).stdout
            q = os.path.join(tmp, "s.plan")
            open(q, "w").write(g)
            r1, r2 = run_exec(binp, q, 60), run_exec(binp, q, 60)
            lines = [l if len(l) < 160 else l[:160] + " ..." for l in g.splitlines()]
            samples.append(dict(seed=sd, plan=lines[:40] + (["... %d more lines" % (len(lines) - 40)] if len(lines) > 40 else []),
                                outcome=(r1["v"] or ["held"])[0], log_hash=r1["hash"],
                                same_seed_same_history=r1["hash"] == r2["hash"]))
        cnt = total["counters"]
        faults = {k[6:]: v for k, v in sorted(cnt.items()) if k.startswith("fault.")}
        wall = time.time() - t_start
        ev = dict(property=prop, tier=tier, seed=base, level="exploration", wall_s=round(wall, 2),
                  violations=1 if vio else 0,
                  coverage=dict(
                      evaluations=total["runs"], distinct_nontrivial=min(total["nontrivial"], len(total["hist"])) if total["hist"] else total["nontrivial"],
                      rule=cfg["rule"], samples=samples,
                      simulated_runs=total["runs"], seeds_per_hour=int(total["runs"] / max(total["wall"], 1e-3) * 3600),
                      build_s=round(build_s, 1), phases=phase_ev,
                      simulated_seconds=round(total["sim_seconds"], 3), steps=total["steps"], oracle_checks=total["checks"],
                      faults_injected=faults,
                      operations={k[3:]: v for k, v in sorted(cnt.items()) if k.startswith("op.")},
                      probes={k: v for k, v in sorted(cnt.items()) if not k.startswith(("fault.", "op."))},
                      distinct_histories=len(total["hist"]), distinct_states=len(total["states"]),
                      states_measure=cfg["states"], real_components=cfg["real"], stubbed_components=cfg["stub"],
                      known_findings=total["known_hits"]),
                  assumptions=cfg["assume"])
        if vio:
            ev["coverage"]["violation"] = vio
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
        for k in known:
            r = run_exec(B.binary(cfg["target"]), k["plan"], 60)
            if (r["v"] and known_match([k], r["v"])) or k["what"] in total["known_hits"]:
                print("KNOWN-FINDING: property=%s %s" % (prop, k["what"]))
        print("%s %s: %d simulated runs, %d steps, %d oracle checks, %.1f simulated s, %d distinct histories, %.1f s wall" % (
            prop, tier, total["runs"], total["steps"], total["checks"], total["sim_seconds"], len(total["hist"]), wall))
        if vio:
            print("violation class: %s\nmessage: %s\nseed: %d  minimised: %s" % (vio["cls"], vio["msg"], vio["seed"], vio["info"]))
            print("VIOLATION property=%s replay=%s" % (prop, vio["replay"]))
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    return rc


if __name__ == "__main__":
    sys.exit(main())
