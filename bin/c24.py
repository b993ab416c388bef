#!/usr/bin/env python3
"""C24: run the same signals and commands on other kinds of machines (an
interpreter for foreign targets: word size, byte order) and at other
optimisation levels, and compare every result with the plain build's."""
import json, os, re, shutil, subprocess, sys, threading, time

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TIER = "thorough" if os.environ.get("VERIF_TIER") == "thorough" else "quick"
try:
    SEED = int(os.environ.get("VERIF_SEED", "1"))
except ValueError:
    SEED = sum(map(ord, os.environ["VERIF_SEED"]))
WORK = os.path.join(V, "target", "c24")
FEATS = "nec,rc5,rc6,sbp,denon,remotes,embedded"
# what they are: word size, byte order
TARGETS = {"armv7-unknown-linux-gnueabihf": "32 bit little endian", "powerpc-unknown-linux-gnu": "32 bit big endian"}
if TIER == "thorough":
    TARGETS.update({"s390x-unknown-linux-gnu": "64 bit big endian", "i686-unknown-linux-gnu": "32 bit little endian",
                    "riscv32gc-unknown-linux-gnu": "32 bit little endian"})
# without an operating system, the standard library or a heap
BARE = {"thumbv7em-none-eabihf": "32 bit little endian, no operating system"}
if TIER == "thorough":
    BARE["riscv32imc-unknown-none-elf"] = "32 bit little endian, no operating system"
# native builds: name -> (cargo profile arguments, environment)
NATIVE = {
    "opt3": ("release", {"CARGO_PROFILE_RELEASE_OPT_LEVEL": "3"}),
    "size": ("release", {"CARGO_PROFILE_RELEASE_OPT_LEVEL": "s", "CARGO_PROFILE_RELEASE_LTO": "fat", "CARGO_PROFILE_RELEASE_CODEGEN_UNITS": "1"}),
    "debug-noassert": ("dev", {"CARGO_PROFILE_DEV_DEBUG_ASSERTIONS": "false", "CARGO_PROFILE_DEV_OVERFLOW_CHECKS": "false"}),
}
PARTS = 4 if TIER == "quick" else 8
T0 = time.time()

def env(tdir, **kw):
    e = dict(os.environ, CARGO_TARGET_DIR=tdir, CARGO_INCREMENTAL="0", CARGO_TERM_COLOR="never", **kw)
    for k in ("RUSTFLAGS", "MIRIFLAGS", "CARGO_ENCODED_RUSTFLAGS", "RUSTC_WRAPPER"):
        if k not in kw:
            e.pop(k, None)
    return e

def fresh(tdir):
    """Never trust old build products of the code under test"""
    for root, dirs, files in os.walk(tdir):
        for d in list(dirs):
            if root.endswith(".fingerprint") and d.startswith(("infrared-", "featcfg-", "baremetal-")):
                shutil.rmtree(os.path.join(root, d), ignore_errors=True)
        dirs[:] = [d for d in dirs if d not in ("incremental",)]

def cargo(args, e, timeout=600, where="featcfg"):
    return subprocess.run(args, cwd=os.path.join(V, where), env=e, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=timeout)

def parse(out):
    lines = {}
    for l in out.splitlines():
        f = l.split(" ")
        if f[0] == "R":
            lines[(f[1], int(f[2]))] = f[3:]
    return lines, out.rstrip().endswith("END")

state = dict(viol=None, infra=None, compared={}, cmds=0, errs=0)
lock = threading.Lock()

def violation(who, msg):
    with lock:
        if state["viol"] is None:
            state["viol"] = (who, msg)

def infra(msg):
    with lock:
        state["infra"] = msg

def judge(who, ref, got, want):
    bad = [k for k in sorted(want) if got.get(k) != ref[k]]
    if bad:
        k = bad[0]
        violation(who, f"{who}: {len(bad)} of {len(want)} results differ from the plain build's, first {k}: "
                       f"plain (digest, commands, errors, last command) {ref[k]}, here {got.get(k)}")
        return
    with lock:
        state["compared"][who] = state["compared"].get(who, 0) + len(want)
        state["cmds"] += sum(int(ref[k][1]) for k in want)
        state["errs"] += sum(int(ref[k][2]) for k in want)

def native(name, streams, ref):
    prof, e = NATIVE[name]
    tdir = os.path.join(WORK, name)
    fresh(tdir)
    r = cargo(["cargo", "build", "--offline", "--profile", prof, "--no-default-features", "--features", FEATS], env(tdir, **e))
    if r.returncode != 0:
        if re.search(r"could not compile `(infrared|featcfg)`", r.stderr):
            errs = "\n".join(l for l in r.stderr.splitlines() if l.startswith("error") or l.strip().startswith("-->"))[:3000]
            return violation(name, f"{name}: does not build although the plain one does:\n{errs}")
        return infra(r.stderr[-1500:])
    exe = os.path.join(tdir, "release" if prof == "release" else "debug", "featcfg")
    try:
        r = subprocess.run([exe, streams], stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=600)
    except subprocess.TimeoutExpired:
        return violation(name, f"{name}: no result after 600 s")
    got, complete = parse(r.stdout)
    if r.returncode != 0 or not complete:
        return violation(name, f"{name}: run ended with {r.returncode}: {r.stderr[-1500:]}")
    judge(name, ref, got, set(ref))

def foreign(target, streams, ref, sem):
    tdir = os.path.join(WORK, "miri")
    cache = os.path.join(WORK, "sysroot-" + target)
    os.makedirs(cache, exist_ok=True)
    e = env(tdir, XDG_CACHE_HOME=cache, MIRIFLAGS="-Zmiri-disable-isolation")
    base = ["cargo", "+nightly", "miri", "run", "--offline", "-q", "--target", target, "--no-default-features", "--features", FEATS, "--", streams, "lite"]
    r = cargo(base + ["part=1000000/1000001"], e, 800)
    if r.returncode != 0 or "END" not in r.stdout:
        if re.search(r"could not compile `(infrared|featcfg)`", r.stderr):
            errs = "\n".join(l for l in r.stderr.splitlines() if l.startswith("error") or l.strip().startswith("-->"))[:3000]
            return violation(target, f"{target} ({TARGETS[target]}): does not build although the plain one does:\n{errs}")
        return infra(f"{target}: {r.stderr[-1500:]}")
    def part(k):
        with sem:
            if state["viol"] or state["infra"]:
                return
            try:
                r = cargo(base + [f"part={k}/{PARTS}"], e, 3000)
            except subprocess.TimeoutExpired:
                return violation(target, f"{target}: no result after 3000 s")
        got, complete = parse(r.stdout)
        if r.returncode != 0 or not complete:
            if "unsupported operation" in r.stderr:
                return infra(f"{target}: {r.stderr[-1500:]}")
            return violation(target, f"{target} ({TARGETS[target]}) part {k}: run ended with {r.returncode}: {r.stderr[-2500:]}")
        with lock:
            merged.update(got)
            done.append(k)
    merged, done = {}, []
    ts = [threading.Thread(target=part, args=(k,)) for k in range(PARTS)]
    [t.start() for t in ts]
    [t.join() for t in ts]
    if len(done) == PARTS:
        judge(target, ref, merged, set(ref))

def bare(target, streams, ref, sem):
    cache = os.path.join(WORK, "sysroot-" + target)
    os.makedirs(cache, exist_ok=True)
    e = env(os.path.join(WORK, "bare"), XDG_CACHE_HOME=cache, MIRIFLAGS="-Zmiri-disable-isolation", MIRI_NO_STD="1", C24_STREAMS=streams)
    with sem:
        r = cargo(["cargo", "+nightly", "miri", "setup", "--target", target], e, 600, "baremetal")
        if r.returncode != 0:
            return infra(f"{target}: {r.stderr[-1500:]}")
        try:
            r = cargo(["cargo", "+nightly", "miri", "run", "--offline", "-q", "--target", target], e, 3000, "baremetal")
        except subprocess.TimeoutExpired:
            return violation(target, f"{target}: no result after 3000 s")
    got, complete = parse(r.stdout)
    if r.returncode != 0 or not complete:
        if not r.stdout and re.search(r"could not compile `(infrared|baremetal)`|no global memory allocator|can't find crate", r.stderr):
            errs = "\n".join(l for l in r.stderr.splitlines() if l.startswith("error") or l.strip().startswith("-->"))[:3000]
            return violation(target, f"{target} ({BARE[target]}): does not build although the library does on this machine:\n{errs}")
        if "unsupported operation" in r.stderr:
            return infra(f"{target}: {r.stderr[-1500:]}")
        if "PANIC" not in r.stdout and "Undefined Behavior" not in r.stderr and not r.stdout:
            return infra(f"{target}: {r.stderr[-1500:]}")
        return violation(target, f"{target} ({BARE[target]}): run ended with {r.returncode}: {r.stdout[-500:]} {r.stderr[-2500:]}")
    judge(target, ref, got, set(ref))

def evidence(ref, viol):
    os.makedirs(os.path.join(V, "evidence"), exist_ok=True)
    n = sum(state["compared"].values())
    ev = {
        "property": "C24", "tier": TIER, "seed": SEED, "level": "exploration",
        "coverage": {
            "evaluations": max(n, 1) if viol else n,
            "distinct_nontrivial": max(n, 1) if viol else n,
            "rule": "distinct (machine or optimisation level, front end, signal or command) results compared with the plain build's; every signal holds valid, broken and noisy frames",
            "samples": [f"{k[0]} {k[1]}: digest, commands, errors, last = {v}" for k, v in list(sorted(ref.items()))[:: max(1, len(ref) // 8)]][:8] or ["none"],
            "observed": {"commands_seen": state["cmds"], "errors_seen": state["errs"], "front_ends": len({k[0] for k in ref})},
            "machines": {k: {"results_compared": v, "kind": {**TARGETS, **BARE}.get(k, "this machine, other optimisation")} for k, v in sorted(state["compared"].items())},
        },
        "assumptions": ["the plain build on this machine (64 bit little endian) is judged by the other properties", "16-bit machines cannot be run here (the interpreter's address space runs out)"],
        "wall_s": round(time.time() - T0, 2), "violations": 1 if viol else 0,
    }
    json.dump(ev, open(os.path.join(V, "evidence", "C24.json"), "w"), indent=1)

def main():
    os.makedirs(WORK, exist_ok=True)
    plain = os.path.join(WORK, "plain")
    fresh(plain)
    fresh(os.path.join(WORK, "miri"))
    r = cargo(["cargo", "build", "--offline", "--no-default-features", "--features", "gen," + FEATS], env(plain))
    if r.returncode != 0:
        print(r.stderr[-3000:])
        print("INCONCLUSIVE property=C24 the plain configuration does not build")
        return 2
    exe = os.path.join(plain, "debug", "featcfg")
    big, small = os.path.join(WORK, "streams.txt"), os.path.join(WORK, "lite.txt")
    subprocess.run([exe, "gen", big, str(SEED), "60" if TIER == "quick" else "400"], check=True)
    subprocess.run([exe, "gen", small, str(SEED), "3" if TIER == "quick" else "10", "5" if TIER == "quick" else "8"], check=True)
    refs = []
    for a in ([big], [small, "lite"]):
        r = subprocess.run([exe] + a, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)
        ref, complete = parse(r.stdout)
        if r.returncode != 0 or not complete:
            print(r.stderr[-1500:])
            print("INCONCLUSIVE property=C24 the plain configuration does not run")
            return 2
        refs.append(ref)
    # the program for machines without an operating system, run on this one
    bares = os.path.join(WORK, "bare.txt")
    subprocess.run([exe, "gen", bares, str(SEED + 7), "2" if TIER == "quick" else "8", "4" if TIER == "quick" else "6"], check=True)
    fresh(os.path.join(WORK, "bare"))
    r = cargo(["cargo", "run", "--offline", "-q"], env(os.path.join(WORK, "bare"), C24_STREAMS=bares), where="baremetal")
    bref, complete = parse(r.stdout)
    if r.returncode != 0 or not complete:
        print(r.stderr[-1500:])
        print("INCONCLUSIVE property=C24 the plain program without a heap does not run")
        return 2
    only = os.environ.get("C24_ONLY")
    sem = threading.Semaphore(max(os.cpu_count() or 4, 2))
    th = [threading.Thread(target=foreign, args=(t, small, refs[1], sem)) for t in TARGETS if only in (None, t)]
    th += [threading.Thread(target=bare, args=(t, bares, bref, sem)) for t in BARE if only in (None, t)]
    th += [threading.Thread(target=native, args=(n, big, refs[0])) for n in NATIVE if only in (None, n)]
    [t.start() for t in th]
    [t.join() for t in th]
    viol = state["viol"]
    evidence(refs[0], viol)
    if viol:
        os.makedirs(os.path.join(V, "replays"), exist_ok=True)
        path = os.path.join(V, "replays", "C24.replay")
        rerun = f"VERIF_SEED={SEED} VERIF_TIER={TIER} C24_ONLY={viol[0]} python3 /verif/bin/c24.py"
        with open(path, "w") as f:
            f.write(f"property=C24\nseed={SEED}\ntier={TIER}\nmachine={viol[0]}\nrerun: {rerun}\n\n{viol[1]}\n")
        print(viol[1])
        print(f"VIOLATION property=C24 replay={path}")
        return 1
    if state["infra"]:
        print(state["infra"])
        print("INCONCLUSIVE property=C24 a machine could not be run")
        return 2
    if only is None and (len(state["compared"]) != len(TARGETS) + len(BARE) + len(NATIVE) or not state["cmds"] or not state["errs"]):
        print("INCONCLUSIVE property=C24 nothing observed")
        return 2
    print(f"C24 tier={TIER} seed={SEED} results compared={state['compared']} commands={state['cmds']} errors={state['errs']} wall={time.time()-T0:.1f}s")
    return 0

sys.exit(main())
