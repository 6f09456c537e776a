#!/usr/bin/env python3
"""Supervisor of the runtime monitors: builds a worker from /repo's current
tree, runs it in several processes, watches them, merges what they observed.

  check.py C01 [--tier quick|thorough] [--seed N] [--replay FILE]

exit 0: held on everything observed; exit 1: VIOLATION line printed;
anything else: no verdict (build failure, harness error, nothing observed).
"""
import argparse, json, os, re, signal, subprocess, sys, time, shutil

VERIF = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, VERIF)
from checks_table import CHECKS  # noqa: E402

NPROC = min(8, os.cpu_count() or 8)
CPU_LIMIT = 150.0      # CPU seconds on one case (typical: < 2) => no bounded progress
STALL_WALL = 150.0     # seconds of wall clock ...
STALL_CPU = 0.5        # ... with less CPU use than this on one case => deadlock
HZ = os.sysconf("SC_CLK_TCK")


def log(*a):
    print(*a, file=sys.stderr, flush=True)


def base_env():
    e = dict(os.environ)
    e["HOME"] = e.get("HOME") or "/root"
    e["PATH"] = "/root/.cargo/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin"
    e["RUSTUP_TOOLCHAIN"] = "stable-x86_64-unknown-linux-gnu"
    e["CARGO_NET_OFFLINE"] = "true"
    e["CARGO_TERM_COLOR"] = "never"
    e["CARGO_INCREMENTAL"] = "0"
    for k in ("RUSTC_WRAPPER", "RUSTFLAGS", "CARGO_ENCODED_RUSTFLAGS", "CARGO_BUILD_RUSTFLAGS", "RAYON_NUM_THREADS"):
        e.pop(k, None)
    e["RUST_BACKTRACE"] = "0"
    return e


class NoVerdict(Exception):
    pass


def run_build(stage, prop):
    env = base_env()
    tdir = os.path.join(VERIF, "target", stage.get("target", "std"))
    env["CARGO_TARGET_DIR"] = tdir
    env.update(stage.get("build_env", {}))
    cwd = os.path.join(VERIF, stage.get("cwd", "harness"))
    if stage.get("kind") == "miri":
        return None
    if "build_cmd" in stage:
        cmd = [c.replace("@VERIF@", VERIF) for c in stage["build_cmd"]]
    else:
        cmd = ["cargo"] + stage.get("toolchain", []) + ["build", "--offline", "--locked", "--profile", stage["profile"], "--bin", stage["bin"]]
        if stage.get("features"):
            cmd += ["--features", stage["features"]]
        cmd += stage.get("cargo_args", [])
    t = time.time()
    p = subprocess.run(cmd, cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")
    log(f"[{prop}] build {stage['name']}: {time.time() - t:.1f}s rc={p.returncode}")
    if p.returncode != 0:
        errs = [l for l in p.stdout.splitlines()]
        keep = []
        for i, l in enumerate(errs):
            if l.startswith("error"):
                keep += errs[i:i + 8]
        log("\n".join(keep[:80] or errs[-40:]))
        raise NoVerdict(f"build of {stage['name']} failed")
    sub = stage.get("triple")
    d = os.path.join(tdir, sub) if sub else tdir
    return os.path.join(d, stage["profile"], stage["bin"])


def cpu_of(pid):
    try:
        with open(f"/proc/{pid}/stat") as f:
            s = f.read()
        r = s.rsplit(")", 1)[1].split()
        return (int(r[11]) + int(r[12])) / HZ
    except (OSError, IndexError, ValueError):
        return None


class Worker:
    pass


def spawn(cmd, env, cwd, tag, outdir, extra):
    w = Worker()
    w.tag = tag
    w.out = os.path.join(outdir, tag + ".json")
    w.journal = os.path.join(outdir, tag + ".journal")
    w.stderr = os.path.join(outdir, tag + ".stderr")
    for f in (w.out, w.journal):
        if os.path.exists(f):
            os.unlink(f)
    w.cmd = cmd + extra + ["--journal", w.journal, "--out", w.out]
    w.log = open(w.stderr, "wb")
    w.p = subprocess.Popen(w.cmd, cwd=cwd, env=env, stdout=w.log, stderr=w.log, start_new_session=True)
    w.case = None
    w.case_cpu = 0.0
    w.case_wall = time.time()
    w.rc = None
    w.hang = None
    return w


def journal_case(w):
    try:
        with open(w.journal) as f:
            s = f.read(64).strip().split()
        return int(s[0]) if s else None
    except (OSError, ValueError):
        return None


def kill(w):
    try:
        os.killpg(w.p.pid, signal.SIGKILL)
    except OSError:
        pass


def tail(path, n=6000):
    try:
        with open(path, "rb") as f:
            f.seek(0, 2)
            sz = f.tell()
            f.seek(max(0, sz - n))
            return f.read().decode(errors="replace")
    except OSError:
        return ""


def head(path, n=200000):
    try:
        with open(path, "rb") as f:
            return f.read(n).decode(errors="replace")
    except OSError:
        return ""


SAN_RE = re.compile(r"(ERROR: AddressSanitizer: [^\n]*|ERROR: LeakSanitizer: [^\n]*|WARNING: ThreadSanitizer: [^\n]*|error: Undefined Behavior: [^\n]*|runtime error: [^\n]*)")


def crash_report(w, stage):
    """(signature, message) of an abnormal end, or None when it is no verdict."""
    err = head(w.stderr)
    m = SAN_RE.search(err)
    if m:
        what = m.group(1)
        at = re.search(r"-->\s*(\S+)", err[m.start():m.start() + 2000])
        if stage.get("kind") == "miri" and at and re.search(r"/(parking_lot|rayon|crossbeam)[^/]*/", at.group(1)):
            return None
        sig = re.sub(r"0x[0-9a-f]+|\d+", "#", what)[:100]
        i = m.start()
        return "sanitizer:" + sig, what + "\n" + err[i:i + 2500]
    rc = w.rc
    if "memory allocation of" in err and rc == -6:
        return None
    if "stack overflow" in err or "has overflowed its stack" in err:
        return "stack-overflow", "stack overflow: " + tail(w.stderr, 400)
    if rc < 0:
        s = -rc
        if s == signal.SIGKILL:
            return None
        name = signal.Signals(s).name
        if s == signal.SIGABRT and "panic: " not in err and "abort" not in err and "unsafe precondition" not in err and "corrupt" not in err and "free()" not in err and "malloc" not in err and "panicked" not in err:
            pass
        return f"signal:{name}", f"killed by {name}; last output: {tail(w.stderr, 800)}"
    return None


def run_stage(stage, prop, tier, seed, only=None):
    exe = run_build(stage, prop)
    outdir = os.path.join(VERIF, "out", prop)
    os.makedirs(outdir, exist_ok=True)
    env = base_env()
    env.update(stage.get("env", {}))
    cwd = VERIF
    if stage.get("kind") == "miri":
        cwd = os.path.join(VERIF, stage.get("cwd", "harness"))
        env["CARGO_TARGET_DIR"] = os.path.join(VERIF, "target", stage.get("target", "miri"))
        cmd = ["cargo", "+nightly", "miri", "run", "--offline", "--locked", "--quiet", "--bin", stage["bin"]]
        if stage.get("features"):
            cmd += ["--features", stage["features"]]
        cmd += ["--"]
    else:
        cmd = [exe]
    n = 1 if only is not None else stage.get("shards", NPROC)
    budget = stage["budget"][0 if tier == "quick" else 1]
    common = ["--seed", str(seed), "--tier", tier, "--budget", str(budget), "--stage", stage["name"]]
    if stage.get("must_div"):
        common += ["--must-div", str(stage["must_div"])]
    if stage.get("no_must"):
        common += ["--must-div", "1000000000"]
    ws = []
    if stage.get("kind") == "miri":
        # build once, with a no-op run, before the shards race for the lock
        t = time.time()
        nenv = {k: v.replace("@SHARD@", "0").replace("@SEED@", "1") for k, v in env.items()}
        p = subprocess.run(cmd + ["--noop"], cwd=cwd, env=nenv, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")
        log(f"[{prop}] build {stage['name']}: {time.time() - t:.1f}s rc={p.returncode}")
        if p.returncode != 0:
            log(p.stdout[-3000:])
            raise NoVerdict("miri build failed")
    t0 = time.time()
    for s in range(n):
        extra = common + ["--shard", str(s), "--nshards", str(n)]
        if only is not None:
            extra += ["--only", str(only)]
        tag = f"{stage['name']}.{s}"
        senv = {k: v.replace("@SHARD@", str(s)).replace("@SEED@", str(seed % 1000)).replace("@LOG@", os.path.join(outdir, tag + ".san")) for k, v in env.items()}
        ws.append(spawn(cmd, senv, cwd, f"{stage['name']}.{s}", outdir, extra))
    viol, noverdict, results = [], [], []
    live = list(ws)
    hard = t0 + budget + (600 if tier == "quick" else 3000)
    cpu_limit = stage.get("cpu_limit", CPU_LIMIT)
    stop = False
    while live:
        time.sleep(0.1)
        for w in list(live):
            rc = w.p.poll()
            if rc is not None:
                w.rc = rc
                w.log.close()
                live.remove(w)
                if rc == 1 and os.path.exists(w.out):
                    stop = True
                continue
            c = journal_case(w)
            cpu = cpu_of(w.p.pid)
            now = time.time()
            if c != w.case:
                w.case, w.case_cpu, w.case_wall, w.stall_wall, w.stall_cpu = c, cpu or 0.0, now, now, cpu or 0.0
            elif c is not None and cpu is not None:
                if cpu - w.case_cpu > cpu_limit:
                    w.hang = f"no bounded progress: case {c} used more than {cpu_limit:.0f} s of CPU time"
                    w.hang_sig = "no-progress"
                    kill(w)
                if cpu - w.stall_cpu > STALL_CPU:
                    w.stall_wall, w.stall_cpu = now, cpu
                elif now - w.stall_wall > STALL_WALL:
                    w.hang = f"deadlock: case {c} used no CPU time for {STALL_WALL:.0f} s"
                    w.hang_sig = "deadlock"
                    kill(w)
            if now > hard:
                w.hang = "watchdog"
                w.hang_sig = None
                kill(w)
        if stop and live:
            # a violation was found: give the others a moment, then stop them
            t1 = time.time()
            while live and time.time() - t1 < 3:
                time.sleep(0.05)
                for w in list(live):
                    rc = w.p.poll()
                    if rc is not None:
                        w.rc = rc
                        w.log.close()
                        live.remove(w)
            for w in live:
                kill(w)
                w.p.wait()
                w.rc = None
                w.log.close()
            live = []
    for w in ws:
        case = journal_case(w)
        if w.hang:
            if w.hang_sig:
                viol.append(dict(sig=w.hang_sig, msg=w.hang, idx=case, stage=stage["name"]))
            else:
                noverdict.append(f"{w.tag}: watchdog after {time.time() - t0:.0f}s in case {case}")
            continue
        if w.rc is None:
            continue  # stopped after a violation elsewhere
        san = crash_report(w, stage) if (w.rc not in (0, 1, 3) or not os.path.exists(w.out)) else None
        if os.path.exists(w.out) and w.rc in (0, 1, 3) and san is None:
            try:
                with open(w.out) as f:
                    r = json.load(f)
            except ValueError as e:
                noverdict.append(f"{w.tag}: unreadable result {e}")
                continue
            results.append(r)
            for v in r["violations"]:
                viol.append(dict(v, stage=stage["name"]))
            if r.get("harness_error"):
                noverdict.append(f"{w.tag}: {r['harness_error']}")
        elif san:
            viol.append(dict(sig=san[0], msg=san[1], idx=case, stage=stage["name"]))
        else:
            noverdict.append(f"{w.tag}: exit {w.rc} in case {case}: {tail(w.stderr, 1500)}")
    log(f"[{prop}] stage {stage['name']}: {time.time() - t0:.1f}s, {sum(r['cases'] for r in results)} cases, {len(viol)} violations")
    return viol, noverdict, results


def load_known(prop):
    known = []
    path = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(path):
        for l in open(path):
            l = l.strip()
            m = re.match(r"known: property=(\S+) sig=(\S+) (.*)", l)
            if m and m.group(1) == prop:
                known.append((m.group(2), m.group(3)))
    return known


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER") or "quick")
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED") or 1))
    ap.add_argument("--replay")
    ap.add_argument("--stage", help="run only this stage")
    a = ap.parse_args()
    prop, tier = a.prop, a.tier if a.tier in ("quick", "thorough") else "quick"
    seed = a.seed % (1 << 63)
    chk = CHECKS[prop]
    t0 = time.time()
    stages = chk["stages"]
    only = None
    if a.replay:
        with open(a.replay) as f:
            rp = json.load(f)
        seed, tier, only = rp["seed"], rp["tier"], rp["idx"]
        stages = [s for s in stages if s["name"] == rp["stage"]]
    if a.stage:
        stages = [s for s in stages if s["name"] == a.stage]
    outdir = os.path.join(VERIF, "out", prop)
    shutil.rmtree(outdir, ignore_errors=True) if not a.replay else None
    os.makedirs(outdir, exist_ok=True)
    viol, noverdict, results, stage_info = [], [], [], {}
    for st in stages:
        if tier not in st.get("tiers", ("quick", "thorough")) and not a.replay and not a.stage:
            continue
        try:
            v, nv, rs = run_stage(st, prop, tier, seed, only)
        except NoVerdict as e:
            noverdict.append(str(e))
            break
        viol += v
        noverdict += nv
        results += rs
        stage_info[st["name"]] = dict(cases=sum(r["cases"] for r in rs), workers=len(rs), evaluations=sum(r["evals"] for r in rs))
        if v:
            break
    # merge
    nontriv, sets, counters, samples, inconcl = set(), {}, {}, [], []
    for r in results:
        nontriv.update(r["nontrivial_hashes"])
        for k, v in r["sets"].items():
            sets.setdefault(k, set()).update(v)
        for k, v in r["counters"].items():
            if k.startswith("max_"):
                counters[k] = max(counters.get(k, 0), v)
            else:
                counters[k] = counters.get(k, 0) + v
        samples += r["samples"]
        inconcl += r["inconclusive"]
    evals = sum(r["evals"] for r in results)
    known = load_known(prop)
    new = []
    known_hit = set()
    for v in viol:
        k = [x for x in known if x[0] == v["sig"]]
        if k:
            known_hit.add(k[0])
        else:
            new.append(v)
    for sig, desc in known:
        print(f"KNOWN-FINDING: property={prop} {desc}")
    ev = dict(property=prop, tier=tier, seed=seed, level="exploration", wall_s=round(time.time() - t0, 2), violations=len(new),
              assumptions=chk["assumptions"],
              coverage=dict(evaluations=evals, distinct_nontrivial=len(nontriv), rule=chk["rule"], samples=samples[:12],
                            exhaustive=False, observed=counters,
                            distinct={k: len(v) for k, v in sets.items()}, stages=stage_info, inconclusive=inconcl[:20],
                            inconclusive_count=len(inconcl)))
    if not a.replay:
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
            f.write("\n")
    if new:
        seen = set()
        for v in new:
            if v["sig"] in seen or len(seen) >= 5:
                continue
            seen.add(v["sig"])
            path = a.replay or os.path.join(outdir, f"replay-{len(seen)}.json")
            if not a.replay:
                with open(path, "w") as f:
                    json.dump(dict(property=prop, stage=v["stage"], seed=seed, tier=tier, idx=v["idx"], sig=v["sig"], msg=v["msg"],
                                   how=f"python3 {VERIF}/check.py {prop} --replay {path}"), f, indent=1)
            print(f"  [{v['sig']}] {v['msg'][:1500]}")
            print(f"VIOLATION property={prop} replay={path}")
        sys.stdout.flush()
        return 1
    if noverdict:
        print("NO VERDICT: " + "; ".join(noverdict)[:4000])
        return 2
    floor = chk.get("floor", {})
    for k, n in floor.items():
        got = counters.get(k, len(sets.get(k, ())))
        if only is None and not a.stage and got < n:
            print(f"NO VERDICT: observed too little: {k}={got} < {n}")
            return 2
    if only is None and evals == 0:
        print("NO VERDICT: nothing observed")
        return 2
    print(f"{prop} held: {evals} evaluations, {len(nontriv)} distinct non-trivial, {time.time() - t0:.1f}s; "
          + ", ".join(f"{k}={v}" for k, v in sorted(counters.items())) + "; distinct " + ", ".join(f"{k}={len(v)}" for k, v in sets.items())
          + (f"; {len(inconcl)} inconclusive" if inconcl else ""))
    return 0


if __name__ == "__main__":
    sys.exit(main())
