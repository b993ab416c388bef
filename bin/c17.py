#!/usr/bin/env python3
"""C17: build the library in many feature configurations and compare what the
same signals and commands give in each with the default configuration."""
import itertools, json, os, re, shutil, subprocess, sys, threading, time

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TIER = "thorough" if os.environ.get("VERIF_TIER") == "thorough" else "quick"
try:
    SEED = int(os.environ.get("VERIF_SEED", "1"))
except ValueError:
    SEED = sum(map(ord, os.environ["VERIF_SEED"]))
WORK = os.path.join(V, "target", "c17")
PROTOS = ["nec", "rc5", "rc6", "sbp", "denon"]
NAMES = {"nec": ["nec", "nec16", "samsung", "apple", "necdebug"]}
DEFAULT = PROTOS + ["remotes", "embedded"]
T0 = time.time()

def configs():
    seen, out = set(), []
    def add(c):
        k = frozenset(c)
        if k not in seen and k != frozenset(DEFAULT):
            seen.add(k)
            out.append(list(c))
    for p in PROTOS:
        for rem in ([], ["remotes"]):
            for hw in ([], ["eh"], ["fugit"], ["eh", "fugit"], ["embedded"]):
                for lg in ([], ["log"], ["defmt"]):
                    if lg == ["defmt"] and TIER == "quick" and (hw in (["eh"], ["fugit"])):
                        continue
                    # without defmt output the arguments of its macros are not evaluated
                    off = ["defmt-off"] if lg == ["defmt"] and hw != [] else []
                    add([p] + rem + hw + lg + off)
                    if off and TIER == "thorough":
                        add([p] + rem + hw + lg)
    for n in range(0, 6):
        for sub in itertools.combinations(PROTOS, n):
            add(list(sub))
            add(list(sub) + ["remotes", "embedded"])
            if TIER == "thorough":
                for rem in ([], ["remotes"]):
                    for hw in ([], ["eh"], ["fugit"], ["embedded"]):
                        for lg in ([], ["log"], ["defmt"]):
                            add(list(sub) + rem + hw + lg)
    add(DEFAULT + ["log"])
    add(DEFAULT + ["defmt"])
    return out

def build(feats, tdir, defmt="trace"):
    env = dict(os.environ, CARGO_TARGET_DIR=tdir, CARGO_INCREMENTAL="0", DEFMT_LOG=defmt, CARGO_TERM_COLOR="never")
    env.pop("RUSTFLAGS", None)
    fp = os.path.join(tdir, "debug", ".fingerprint")
    if os.path.isdir(fp):
        for d in os.listdir(fp):
            if d.startswith(("infrared-", "featcfg-")):
                shutil.rmtree(os.path.join(fp, d), ignore_errors=True)
    deps = os.path.join(tdir, "debug", "deps")
    if os.path.isdir(deps):
        for f in os.listdir(deps):
            if f.startswith(("infrared-", "libinfrared-", "featcfg-")):
                os.remove(os.path.join(deps, f))
    r = subprocess.run(["cargo", "build", "--offline", "--no-default-features", "--features", ",".join(feats)],
                       cwd=os.path.join(V, "featcfg"), env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    return r.returncode, r.stdout, os.path.join(tdir, "debug", "featcfg")

def run(exe, streams, *extra):
    r = subprocess.run([exe, streams, *extra], stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=600)
    lines = {}
    for l in r.stdout.splitlines():
        f = l.split(" ")
        if f[0] == "R":
            lines[(f[1], int(f[2]))] = f[3:]
    return r.returncode, lines, r.stdout.rstrip().endswith("END"), r.stderr

def labels(feats, ref):
    """The result lines a configuration has to give"""
    on = set(feats)
    eh = "eh" in on or "embedded" in on
    fu = "fugit" in on or "embedded" in on
    prot = set()
    for p in PROTOS:
        if p in on:
            prot |= set(NAMES.get(p, [p]))
    out = set()
    for (lab, i) in ref:
        n, k = lab.split("/")
        if n not in prot:
            continue
        if k in ("remote", "model") and "remotes" not in on:
            continue
        if (k in ("pollpin", "pin32") or k.startswith("pwm")) and not eh:
            continue
        if k in ("fugit32", "fugit64") and not fu:
            continue
        if k == "withfugit" and "embedded" not in on:
            continue
        out.add((lab, i))
    return out

state = dict(done=0, compared=0, viol=None, infra=None, cmds=0, errs=0, kinds=set(), perconf=[])
lock = threading.Lock()

def violation(feats, msg, streams_line=None):
    with lock:
        if state["viol"] is None:
            state["viol"] = (feats, msg)

def worker(w, todo, ref, streams):
    tdir = os.path.join(WORK, f"w{w}")
    while True:
        with lock:
            if not todo or state["viol"] or state["infra"]:
                return
            full = todo.pop(0)
            feats = list(full)
            off = "defmt-off" in feats
            feats = [f for f in feats if f != "defmt-off"]
        rc, log, exe = build(feats, tdir, "off" if off else "trace")
        if rc != 0:
            if re.search(r"could not compile `(infrared|featcfg)`", log):
                errs = "\n".join(l for l in log.splitlines() if l.startswith("error") or l.strip().startswith("-->"))[:3000]
                violation(full, f"features {full} do not build although the default configuration does:\n{errs}")
            else:
                with lock:
                    state["infra"] = log[-1500:]
            return
        try:
            rc, got, complete, err = run(exe, streams)
            if rc == 0 and complete and "log" in feats:
                # the same without a logger: log arguments are not evaluated
                rc, quiet, complete, err = run(exe, streams, "nolog")
                for k in set(quiet) | set(got):
                    if quiet.get(k) != got.get(k) and got.get(k) == ref.get(k):
                        got[k] = quiet.get(k)
        except subprocess.TimeoutExpired:
            violation(full, f"features {full}: no result after 600 s")
            return
        if rc != 0 or not complete:
            violation(full, f"features {full}: run ended with {rc}: {err[:1500]}")
            return
        want = labels(feats, ref)
        bad = [k for k in sorted(want) if got.get(k) != ref[k]]
        if bad:
            k = bad[0]
            violation(full, f"features {full}: {len(bad)} of {len(want)} results differ from the default configuration, first {k}: "
                             f"default (digest, commands, errors, last command) {ref[k]}, here {got.get(k)}")
            return
        with lock:
            state["done"] += 1
            state["compared"] += len(want)
            state["cmds"] += sum(int(ref[k][1]) for k in want)
            state["errs"] += sum(int(ref[k][2]) for k in want)
            state["kinds"] |= {k[0] for k in want}
            state["perconf"].append("+".join(feats) or "(none)")

def evidence(ref, viol):
    os.makedirs(os.path.join(V, "evidence"), exist_ok=True)
    ev = {
        "property": "C17", "tier": TIER, "seed": SEED, "level": "exploration",
        "coverage": {
            "evaluations": state["compared"],
            "distinct_nontrivial": state["compared"],
            "rule": "distinct (feature configuration, front end, signal or command) results compared with the default configuration; every signal holds valid, broken and noisy frames",
            "samples": [f"{k[0]} signal {k[1]}: digest, commands, errors, last = {v}" for k, v in list(sorted(ref.items()))[:: max(1, len(ref) // 8)]][:8] or ["none"],
            "observed": {"configurations_built": state["done"], "front_ends": len(state["kinds"]),
                         "commands_seen": state["cmds"], "errors_seen": state["errs"]},
            "configurations": sorted(state["perconf"]),
        },
        "assumptions": ["log and defmt are mutually exclusive by design", "the default configuration itself is judged by the other properties"],
        "wall_s": round(time.time() - T0, 2), "violations": 1 if viol else 0,
    }
    json.dump(ev, open(os.path.join(V, "evidence", "C17.json"), "w"), indent=1)

def main():
    os.makedirs(WORK, exist_ok=True)
    rc, log, exe = build(["gen"] + DEFAULT, os.path.join(WORK, "w0"))
    if rc != 0:
        print(log[-3000:])
        print("INCONCLUSIVE property=C17 the default configuration does not build")
        return 2
    streams = os.path.join(WORK, "streams.txt")
    per = 120 if TIER == "quick" else 400
    subprocess.run([exe, "gen", streams, str(SEED), str(per)], check=True)
    rc, ref, complete, err = run(exe, streams)
    if rc != 0 or not complete:
        # the default configuration crashes: other properties' business, nothing to compare with
        print(err[-1500:])
        print("INCONCLUSIVE property=C17 the default configuration does not run")
        return 2
    todo = configs()
    total = len(todo)
    only = os.environ.get("C17_ONLY")
    if only is not None:
        todo = [only.split("+")]
    n = os.cpu_count() or 4
    th = [threading.Thread(target=worker, args=(i, todo, ref, streams)) for i in range(min(n, 8))]
    [t.start() for t in th]
    [t.join() for t in th]
    viol = state["viol"]
    evidence(ref, viol)
    if viol:
        os.makedirs(os.path.join(V, "replays"), exist_ok=True)
        path = os.path.join(V, "replays", "C17.replay")
        with open(path, "w") as f:
            f.write(f"property=C17\nseed={SEED}\ntier={TIER}\nfeatures={'+'.join(viol[0])}\n"
                    f"rerun: VERIF_SEED={SEED} VERIF_TIER={TIER} C17_ONLY={'+'.join(viol[0])} python3 /verif/bin/c17.py\n\n{viol[1]}\n")
        print(viol[1])
        print(f"VIOLATION property=C17 replay={path}")
        return 1
    if state["infra"]:
        print(state["infra"])
        print("INCONCLUSIVE property=C17 build infrastructure failed")
        return 2
    if only is None and (state["done"] != total or state["cmds"] == 0 or state["errs"] == 0):
        print("INCONCLUSIVE property=C17 nothing observed")
        return 2
    print(f"C17 tier={TIER} seed={SEED} configurations={state['done']} results compared={state['compared']} commands={state['cmds']} errors={state['errs']} wall={time.time()-T0:.1f}s")
    return 0

sys.exit(main())
