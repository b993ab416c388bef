#!/usr/bin/env python3
"""C20: run the real host tool (examples/vcd-parser) on generated captures and
compare its output, line by line, with what was put on the wire."""
import json, os, random, shutil, subprocess, sys, time
from concurrent.futures import ThreadPoolExecutor

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TIER = "thorough" if os.environ.get("VERIF_TIER") == "thorough" else "quick"
try:
    SEED = int(os.environ.get("VERIF_SEED", "1"))
except ValueError:
    SEED = sum(map(ord, os.environ["VERIF_SEED"]))
WORK = os.path.join(V, "target", "c20")
T0 = time.time()

# Samsung NEC: rise to rise times in us and tolerance in percent
SYM = {"S": (9000, 7), "R": (6750, 7), "0": (1120, 25), "1": (2250, 12)}

def window(sym, unit):
    """Ticks of `unit` us surely in tolerance, and those perhaps: the two differ only
    where length and tolerance are no whole numbers of ticks"""
    us, tol = SYM[sym]
    base = us // unit
    t = base * tol // 100
    m = 0 if us % unit == 0 and base * tol % 100 == 0 else 2
    return base, (base - t + m, base + t - m), (base - t - m, base + t + m)

def pick(r, sym, unit):
    """In tolerance"""
    base, (lo, hi), _ = window(sym, unit)
    k = r.random()
    if k < 0.3:
        return base
    if k < 0.4:
        return lo
    if k < 0.5:
        return hi
    return r.randint(lo, hi)

def outside(r, unit):
    """In no window"""
    w = [window(s, unit)[2] for s in SYM]
    while True:
        if r.random() < 0.3:
            lo, hi = r.choice(w)
            x = r.choice([lo - 1, hi + 1])
        else:
            x = r.choice([r.randint(1, 40), r.randint(1500, 1800), r.randint(2700, 5800), r.randint(7400, 8200), r.randint(10000, 30000)]) // unit
        x = max(x, 2)
        if all(not lo <= x <= hi for lo, hi in w):
            return x

def capture(seed):
    """Returns vcd text, wire name, expected output lines"""
    r = random.Random(seed)
    unit = r.choice([1, 1, 1, 10])
    rate = 1_000_000 // unit
    wire = r.choice(["ir", "ir", "rx", "data_in"])
    t = r.choice([0, 0, 17, 40_000, 2**31 - 300_000, 2**32 - 500_000, 2**32 - 30_000, 2**40 + 5]) // unit
    changes = []           # (time, value)
    want = []
    last = None
    stats = {"frames": 0, "repeats": 0, "silent_repeats": 0, "broken": 0, "foreign": 0}

    def quiet():
        nonlocal t
        t += r.choice([12_000, 40_000, 100_000, r.randint(12_000, 500_000)]) // unit
        if r.random() < 0.01:
            # a very long pause; one whose low 32 bits look like a pulse
            t += r.choice([2**31, 2**32, 2**32 + 9_000 // unit, 2**33 + 12, 2**45, r.randint(2**32, 2**40)])

    def emit(ivs):
        """rise, then for each rise-to-rise interval a mark, a space and the next rise"""
        nonlocal t
        changes.append((t, 1))
        for iv in ivs:
            m = r.randint(1, iv - 1) if r.random() < 0.3 else min(max(1, 560 // unit), iv - 1)
            changes.append((t + m, 0))
            t += iv
            changes.append((t, 1))
        t += max(1, 560 // unit)
        changes.append((t, 0))

    t += 20_000 // unit
    pending_error = False
    n = r.randint(1, 14)
    k = r.random()
    if k < 0.004:
        n = r.randint(400, 2000)  # a long recording
    elif k < 0.02:
        n = r.randint(30, 300)
    stats["long"] = int(n >= 30)
    # the same frame again and again
    stuck = r.random() < 0.1
    fixed = (r.randrange(256), r.randrange(256))
    for _ in range(n):
        quiet()
        if pending_error:
            want.append("Infrared Receiver Error: Data")
            pending_error = False
        k = r.random()
        addr, cmd = fixed if stuck and r.random() < 0.9 else (r.randrange(256), r.randrange(256))
        word = addr | addr << 8 | cmd << 16 | (cmd ^ 0xFF) << 24
        syms = "S" + "".join("1" if word >> i & 1 else "0" for i in range(32))
        if k < 0.55:
            emit([pick(r, s, unit) for s in syms])
            want.append(f"Cmd: SamsungNecCommand {{ addr: {addr}, cmd: {cmd}, repeat: false }}")
            last = (addr, cmd)
            stats["frames"] += 1
        elif k < 0.8:
            emit([pick(r, "R", unit)])
            if last:
                want.append(f"Cmd: SamsungNecCommand {{ addr: {last[0]}, cmd: {last[1]}, repeat: true }}")
                stats["repeats"] += 1
            else:
                stats["silent_repeats"] += 1
        elif k < 0.9:
            # one interval after the header is wrong
            ivs = [pick(r, s, unit) for s in syms]
            ivs[r.randint(1, 32)] = outside(r, unit)
            emit(ivs)
            want.append("Infrared Receiver Error: Data")
            last = None
            stats["broken"] += 1
        elif k < 0.96:
            # cut short after the header: noticed when the next signal starts
            ivs = [pick(r, s, unit) for s in syms[: r.randint(1, 32)]]
            emit(ivs)
            pending_error = True
            last = None
            stats["broken"] += 1
        else:
            # something else: no header
            emit([outside(r, unit) for _ in range(r.randint(1, 20))])
            stats["foreign"] += 1
    if pending_error:
        quiet()
        want.append("Infrared Receiver Error: Data")
        changes.append((t, 1))
    # another wire with unrelated changes
    other = []
    if r.random() < 0.6:
        for _ in range(r.randint(1, 200)):
            other.append((r.randint(changes[0][0], changes[-1][0]), r.randint(0, 1)))
    evs = sorted([(a, 0, v) for a, v in changes] + [(a, 1, v) for a, v in other], key=lambda e: (e[0], e[1]))
    ids = r.choice([("!", '"'), ("#", "!"), ("ab", "a")])
    head = "$date today $end\n$version gen $end\n" if r.random() < 0.5 else ""
    vars_ = [f"$var wire 1 {ids[0]} {wire} $end", f"$var wire 1 {ids[1]} other $end"]
    if r.random() < 0.5:
        vars_.reverse()
    out = [head + f"$timescale {unit} us $end\n$scope module top $end\n" + "\n".join(vars_) + "\n$upscope $end\n$enddefinitions $end"]
    if r.random() < 0.5:
        out.append(f"#0\n$dumpvars\n0{ids[0]}\n0{ids[1]}\n$end")
    cur = None
    for a, w, v in evs:
        if a != cur:
            out.append(f"#{a}")
            cur = a
        out.append(f"{v}{ids[w]}")
    return "\n".join(out) + "\n", wire, [f"Samples captured at: {rate} Hz"] + want, stats

def one(exe, seed):
    txt, wire, want, stats = capture(seed)
    d = os.path.join(WORK, "cap")
    path = os.path.join(d, f"{seed}.vcd")
    with open(path, "w") as f:
        f.write(txt)
    try:
        r = subprocess.run([exe, path, wire], stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=120)
    except subprocess.TimeoutExpired:
        return seed, f"no result after 120 s", stats, want
    got = r.stdout.splitlines()
    if r.returncode != 0:
        return seed, f"the tool ended with {r.returncode}: {r.stderr[:800]}", stats, want
    if got != want:
        i = next((i for i, (a, b) in enumerate(zip(got + [None], want + [None])) if a != b), min(len(got), len(want)))
        return seed, (f"line {i + 1}: printed {got[i] if i < len(got) else '(nothing)'}, on the wire was {want[i] if i < len(want) else '(nothing)'}; "
                      f"{len(got)} lines printed, {len(want)} expected"), stats, want
    os.remove(path)
    return seed, None, stats, want

def main():
    os.makedirs(os.path.join(WORK, "cap"), exist_ok=True)
    fp = os.path.join(WORK, "debug", ".fingerprint")
    if os.path.isdir(fp):
        for d in os.listdir(fp):
            if d.startswith(("infrared-", "vcdtool-")):
                shutil.rmtree(os.path.join(fp, d), ignore_errors=True)
    env = dict(os.environ, CARGO_TARGET_DIR=WORK, CARGO_TERM_COLOR="never")
    b = subprocess.run(["cargo", "build", "--offline"], cwd=os.path.join(V, "vcdtool"), env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if b.returncode != 0:
        print(b.stdout[-3000:])
        print("INCONCLUSIVE property=C20 the host tool does not build")
        return 2
    exe = os.path.join(WORK, "debug", "vcdtool")
    n = 6000 if TIER == "quick" else 60000
    only = os.environ.get("C20_ONLY")
    seeds = [int(only)] if only else [SEED * 1_000_003 + i for i in range(n)]
    tot = {}
    samples, bad, done, lines = [], None, 0, 0
    with ThreadPoolExecutor(os.cpu_count() or 4) as ex:
        for a in range(0, len(seeds), 500):
            for seed, err, stats, want in ex.map(lambda s: one(exe, s), seeds[a:a + 500]):
                done += 1
                lines += len(want)
                for k, v in stats.items():
                    tot[k] = tot.get(k, 0) + v
                if len(samples) < 4:
                    samples.append(f"capture {seed}: {want[:4]}")
                if err and bad is None:
                    bad = (seed, err)
            if bad:
                break
    os.makedirs(os.path.join(V, "evidence"), exist_ok=True)
    json.dump({
        "property": "C20", "tier": TIER, "seed": SEED, "level": "exploration",
        "coverage": {"evaluations": done, "distinct_nontrivial": done,
                     "rule": "distinct generated captures (seeded), each with frames, repeats, broken frames or foreign signals, run through the real host tool and compared line by line",
                     "samples": samples, "observed": dict(tot, output_lines_compared=lines)},
        "assumptions": ["timescales of 1 us and 10 us, two wires per capture"],
        "wall_s": round(time.time() - T0, 2), "violations": 1 if bad else 0}, open(os.path.join(V, "evidence", "C20.json"), "w"), indent=1)
    if bad:
        os.makedirs(os.path.join(V, "replays"), exist_ok=True)
        path = os.path.join(V, "replays", "C20.replay")
        with open(path, "w") as f:
            f.write(f"property=C20\nrerun: C20_ONLY={bad[0]} python3 /verif/bin/c20.py\ncapture: {WORK}/cap/{bad[0]}.vcd\n\n{bad[1]}\n\n{capture(bad[0])[0]}")
        print(f"capture {bad[0]}: {bad[1]}")
        print(f"VIOLATION property=C20 replay={path}")
        return 1
    if not only and any(tot.get(k, 0) == 0 for k in ("frames", "repeats", "broken", "foreign")):
        print("INCONCLUSIVE property=C20 nothing observed")
        return 2
    print(f"C20 tier={TIER} seed={SEED} captures={done} {tot} wall={time.time()-T0:.1f}s")
    return 0

sys.exit(main())
