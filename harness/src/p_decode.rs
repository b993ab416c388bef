//! C02, C03, C04, C05, C18: decoding of signals by one receiver.

use crate::fail;
use crate::fw::*;
use crate::gen::*;
use crate::spec::*;
use crate::sut::*;

pub fn props() -> Vec<Property> {
    vec![c02(), c03(), c04(), c05(), c18()]
}

/// The outputs for a frame: nothing but the command at `done`
fn expect_exact(o: &[Out], done: usize, k: &K, first_err_ok: bool) -> Result<(), String> {
    for (i, x) in o.iter().enumerate() {
        let want = if i == done { Out::Cmd(*k) } else { Out::None };
        if *x != want {
            if i == 0 && first_err_ok && matches!(x, Out::Err(_)) {
                continue;
            }
            return Err(format!("edge {i} of the frame: got {x:?}, expected {want:?}"));
        }
    }
    Ok(())
}

fn lead(w: &Wins, rng: &mut Rng) -> u64 {
    if rng.chance(1, 3) {
        0
    } else {
        pause(w, rng)
    }
}

const JITS: [Jit; 3] = [Jit::Nominal, Jit::Any, Jit::Extreme];

// ------------------------------------------------------------------ C02

fn c02() -> Property {
    Property {
        id: "C02",
        rule: "distinct (protocol, tick frequency, payload, interval assignment) frames built from the protocol definition with every interval inside the protocol tolerance, fed to a new receiver; each is distinct by the hash of its event list or by enumeration",
        assumptions: &[
            "tick rounding: intervals closer than about one tick to a tolerance limit are not used",
            "frames are what the protocol definition in spec.rs says",
        ],
        required: &["commands", "window_points", "repeats", "words"],
        workloads: vec![
            Workload { name: "payloads", quick: 2600, thorough: 20000, f: c02_payloads },
            Workload { name: "words", quick: 6656, thorough: 66_560, f: c02_words },
            Workload { name: "windows", quick: 9 * 60, thorough: 9 * 600, f: c02_windows },
            Workload { name: "jitter", quick: 800_000, thorough: 18_000_000, f: c02_jitter },
            Workload { name: "repeats", quick: 5 * 200, thorough: 5 * 4000, f: c02_repeats },
            Workload { name: "frontends", quick: 80_000, thorough: 800_000, f: c02_frontends },
        ],
    }
}

fn one_frame(c: &mut Case, fr: &Frame, f: u32, w: &Wins, j: Jit, m: Marks) -> Res {
    let g = lead(w, &mut c.rng);
    let (ev, done) = play_frame(fr, w, g, j, m, &mut c.rng);
    let mut r = rx_any(fr.p, f, c);
    let o = feed(&mut *r, &ev);
    if let Err(e) = expect_exact(&o, done, &fr.k, false) {
        fail!("{} at {f} Hz, {:?}: {e}\nevents: {}", fr.p.name(), fr.k, show(&ev));
    }
    c.count("commands", 1);
    c.count("edges", ev.len() as u64);
    Ok(())
}

/// Every payload of the small protocols, patterns of the large ones
fn c02_payloads(c: &mut Case) -> Res {
    let which = c.idx % 9;
    let block = c.idx / 9;
    let p = ALL[which as usize];
    let n = 256u64;
    for i in 0..n {
        let v = block * n + i;
        let fr = match p {
            P::Nec | P::Sam => frame_of(&K { p, addr: (v >> 8 & 0xff) as u32, cmd: (v & 0xff) as u32, aux: 0, rep: false }),
            P::Rc6 => frame_of(&K { p, addr: (v >> 9 & 0xff) as u32, cmd: (v >> 1 & 0xff) as u32, aux: 0, rep: v & 1 == 1 }),
            P::Rc5 => frame_of(&K {
                p,
                addr: (v >> 8 & 31) as u32,
                cmd: (v >> 2 & 63) as u32,
                aux: 2 + (v & 1),
                rep: v >> 1 & 1 == 1,
            }),
            _ => random_frame(p, &mut c.rng),
        };
        let f = random_freq(p, &mut c.rng);
        let w = Wins::new(p, f);
        let j = *c.rng.pick(&JITS);
        let m = *c.rng.pick(&[Marks::Nominal, Marks::Any]);
        one_frame(c, &fr, f, &w, j, m)?;
        match p {
            P::Nec | P::Sam if v < 65536 => c.enumerated(1),
            P::Rc6 if v < 131072 => c.enumerated(1),
            P::Rc5 if v < 8192 => c.enumerated(1),
            _ => c.distinct(hash64(&[fr.k.w(), f as u64])),
        }
    }
    c.evals(n - 1);
    Ok(())
}

/// All RC6 and Apple payloads; every value of every 16 bit part of the longer ones
fn c02_words(c: &mut Case) -> Res {
    let b = c.idx % 6656;
    for i in 0..256u64 {
        // block within the part, 16 bit value in it
        let v = |from: u64| (b - from) * 256 + i;
        let r = c.rng.next();
        let fr = match b {
            0..512 => {
                let v = v(0);
                frame_of(&K { p: P::Rc6, addr: (v >> 9) as u32, cmd: (v >> 1 & 0xff) as u32, aux: 0, rep: v & 1 == 1 })
            }
            512..768 => frame_of(&K { p: P::Nec16, addr: v(512) as u32, cmd: (r & 0xff) as u32, aux: 0, rep: false }),
            768..1024 => frame_of(&K { p: P::Dbg, addr: 0, cmd: 0, aux: v(768) | (r & 0xffff_0000), rep: false }),
            1024..1280 => frame_of(&K { p: P::Dbg, addr: 0, cmd: 0, aux: v(1024) << 16 | (r & 0xffff), rep: false }),
            1280..5376 => {
                let v = v(1280);
                frame_of(&K { p: P::Apple, addr: (v >> 12) as u32, cmd: (v >> 5 & 0x7f) as u32, aux: v & 0x1f, rep: false })
            }
            5376..5632 => sbp_frame(v(5376) as u16, (r & 0xfffff) as u32),
            5632..5888 => sbp_frame((r & 0xffff) as u16, (v(5632) << 4 | r >> 60) as u32),
            5888..6144 => denon_frame(v(5888) | (r & 0xffff_ffff_0000)),
            6144..6400 => denon_frame(v(6144) << 16 | (r & 0xffff_0000_ffff)),
            _ => denon_frame(v(6400) << 32 | (r & 0xffff_ffff)),
        };
        let f = random_freq(fr.p, &mut c.rng);
        let w = Wins::new(fr.p, f);
        let j = *c.rng.pick(&JITS);
        one_frame(c, &fr, f, &w, j, Marks::Nominal)?;
    }
    c.count("words", 256);
    c.enumerated(256);
    c.evals(255);
    Ok(())
}

/// Every tick (or the ends and samples) of one interval's window, at every position
fn c02_windows(c: &mut Case) -> Res {
    let p = ALL[(c.idx % 9) as usize];
    let round = (c.idx / 9) as usize;
    let f = if round < FREQS.len() { FREQS[round] } else { random_freq(p, &mut c.rng) };
    let w = Wins::new(p, f);
    if !w.supported() {
        c.count("unsupported_resolution", 1);
        return Ok(());
    }
    let alpha = p.alphabet();
    let fr = random_frame(p, &mut c.rng);
    for pos in 0..fr.syms.len() {
        let s = fr.syms[pos] as usize;
        let (a, b) = w.w[s].acc;
        let pts: Vec<u64> = if b - a < 24 {
            (a..=b).collect()
        } else {
            let mut v: Vec<u64> = vec![a, a + 1, a + 2, b - 2, b - 1, b];
            for _ in 0..10 {
                v.push(c.rng.range(a, b));
            }
            v
        };
        for x in pts {
            // all others nominal
            let g = lead(&w, &mut c.rng);
            let (mut ev, done) = play_frame(&fr, &w, g, Jit::Nominal, Marks::Nominal, &mut c.rng);
            match p.style() {
                Style::Pd => {
                    let mk = split_mark(x, &w.w[s], &alpha[s], Marks::Any, &mut c.rng);
                    ev[2 * pos + 1].0 = mk;
                    ev[2 * pos + 2].0 = x - mk;
                }
                Style::Bi => ev[pos + 1].0 = x,
            }
            let mut r = rx_any(p, f, c);
            let o = feed(&mut *r, &ev);
            if let Err(e) = expect_exact(&o, done, &fr.k, false) {
                fail!(
                    "{} at {f} Hz: interval {pos} of {x} ticks (nominal {} us, tolerance {} %): {e}\n{:?}\nevents: {}",
                    p.name(), alpha[s].us, alpha[s].tol, fr.k, show(&ev)
                );
            }
            c.count("window_points", 1);
            c.count("commands", 1);
            c.evals(1);
            c.distinct(hash_events(&ev));
        }
    }
    Ok(())
}

fn c02_jitter(c: &mut Case) -> Res {
    let p = ALL[(c.idx % 9) as usize];
    let f = random_freq(p, &mut c.rng);
    let w = Wins::new(p, f);
    let fr = random_frame(p, &mut c.rng);
    let j = *c.rng.pick(&JITS);
    let m = *c.rng.pick(&[Marks::Nominal, Marks::Any]);
    c.distinct(hash64(&[fr.k.w(), f as u64, c.idx]));
    c.sample(|| format!("{} frame {:?} at {f} Hz, {j:?} jitter: decoded at its last bit", p.name(), fr.k));
    one_frame(c, &fr, f, &w, j, m)
}

/// Repeat codes over their whole window
fn c02_repeats(c: &mut Case) -> Res {
    let p = NECS[(c.idx % 5) as usize];
    let round = (c.idx / 5) as usize;
    let f = if round < FREQS.len() { FREQS[round] } else { random_freq(p, &mut c.rng) };
    let w = Wins::new(p, f);
    if !w.supported() {
        return Ok(());
    }
    let mut r = rx_any(p, f, c);
    let fr = random_frame(p, &mut c.rng);
    let g = pause(&w, &mut c.rng);
    let (ev, done) = play_frame(&fr, &w, g, Jit::Any, Marks::Any, &mut c.rng);
    let o = feed(&mut *r, &ev);
    if let Err(e) = expect_exact(&o, done, &fr.k, false) {
        fail!("{} at {f} Hz, {:?}: {e}\nevents: {}", p.name(), fr.k, show(&ev));
    }
    let rep = nec_repeat(p)[0] as usize;
    let (a, b) = w.w[rep].acc;
    let want = K { rep: p != P::Dbg, ..fr.k };
    let mut pts = vec![a, a + 1, (a + b) / 2, b - 1, b];
    for _ in 0..20 {
        pts.push(c.rng.range(a, b));
    }
    for x in pts {
        let mk = split_mark(x, &w.w[rep], &p.alphabet()[rep], Marks::Any, &mut c.rng);
        let ev = vec![(pause(&w, &mut c.rng), true), (mk, false), (x - mk, true), (w.f as u64 * 560 / 1_000_000, false)];
        let o = feed(&mut *r, &ev);
        if let Err(e) = expect_exact(&o, 2, &want, false) {
            fail!("{} at {f} Hz, repeat code of {x} ticks (window {a} to {b}): {e}\nevents: {}", p.name(), show(&ev));
        }
        c.count("repeats", 1);
        c.distinct(hash_events(&ev));
    }
    Ok(())
}

/// The same through the other front ends and time types
fn c02_frontends(c: &mut Case) -> Res {
    let p = ALL[(c.idx % 9) as usize];
    let fr = random_frame(p, &mut c.rng);
    let f = *c.rng.pick(&[32_768u32, 40_000, 44_100, 100_000, 250_000, 1_000_000]);
    let w = Wins::new(p, f);
    if !w.supported() {
        return Ok(());
    }
    let kind = if c.rng.bool() { *c.rng.pick(&FRONTS) } else { *c.rng.pick(&EVFRONTS) };
    let polled = matches!(kind, Front::Poll | Front::PollPin);
    let g = if polled { short_pause(&w, &mut c.rng) } else { pause(&w, &mut c.rng) };
    let (ev, done) = play_frame(&fr, &w, g, Jit::Any, Marks::Nominal, &mut c.rng);
    let mut r = front(p, f, kind);
    let o = feed(&mut *r, &ev);
    if let Err(e) = expect_exact(&o, done, &fr.k, false) {
        fail!("{} at {f} Hz through {kind:?}: {e}\n{:?}\nevents: {}", p.name(), fr.k, show(&ev));
    }
    c.count("commands", 1);
    c.distinct(hash64(&[hash_events(&ev), kind as u64]));
    Ok(())
}

// ------------------------------------------------------------------ C03

fn c03() -> Property {
    Property {
        id: "C03",
        rule: "distinct event streams (hash of all edges and intervals): mixtures of whole, truncated, corrupted frames, repeats, symbol soup and noise; plus every (protocol, position) of a single corrupted or missing interval",
        assumptions: &[
            "intervals within about one tick of a tolerance limit are not used",
            "bi-phase code violations made of in-tolerance intervals are not judged (RC5/RC6)",
        ],
        required: &["commands_judged", "errors_judged", "corrupted_frames", "truncated_frames", "streaks"],
        workloads: vec![
            Workload { name: "mixed", quick: 150_000, thorough: 7_500_000, f: c03_mixed },
            Workload { name: "corrupt", quick: 8_100, thorough: 216_000, f: c03_corrupt },
            Workload { name: "truncate", quick: 10_800, thorough: 270_000, f: c03_truncate },
            Workload { name: "noise", quick: 200_000, thorough: 3_200_000, f: c03_noise },
            Workload { name: "streaks", quick: 54, thorough: 540, f: c03_streaks },
        ],
    }
}

/// Does the run of classes ending at `i` justify command `k` (pulse distance)?
fn pd_justified(p: P, cl: &[Option<usize>], i: usize, k: &K) -> bool {
    let bit = |j: usize, zero: usize, one: usize| -> Option<bool> {
        match cl[j] {
            Some(x) if x == zero => Some(false),
            Some(x) if x == one => Some(true),
            _ => None,
        }
    };
    if p.is_nec() {
        if cl[i] == Some(1) && (k.rep || p == P::Dbg) {
            return true;
        }
        if k.rep || i < 32 || cl[i - 32] != Some(0) {
            return false;
        }
        let mut w = 0u32;
        for b in 0..32 {
            match bit(i - 31 + b, 2, 3) {
                Some(v) => w |= (v as u32) << b,
                None => return false,
            }
        }
        return nec_fields(p, w, false) == *k && (p != P::Apple || apple_ok(w));
    }
    if p == P::Sbp {
        if i < 37 || cl[i - 37] != Some(0) || cl[i - 20] != Some(1) {
            return false;
        }
        let (mut a, mut d) = (0u16, 0u32);
        for b in 0..16 {
            match bit(i - 36 + b, 2, 3) {
                Some(v) => a |= (v as u16) << b,
                None => return false,
            }
        }
        for b in 0..20 {
            match bit(i - 19 + b, 2, 3) {
                Some(v) => d |= (v as u32) << b,
                None => return false,
            }
        }
        return sbp_fields(a, d) == *k;
    }
    // Denon
    if i < 48 || cl[i - 48] != Some(0) {
        return false;
    }
    let mut w = 0u64;
    for b in 0..48 {
        match bit(i - 47 + b, 1, 2) {
            Some(v) => w |= (v as u64) << b,
            None => return false,
        }
    }
    k.aux == w
}

/// Decode a run of bi-phase intervals that starts with the rising edge `s`
/// (`cl[j]` is the interval that ends with edge j; even edges rise)
fn bi_run(p: P, cl: &[Option<usize>], s: usize) -> Option<(usize, K)> {
    let rising = |j: usize| j % 2 == 0;
    if p == P::Rc5 {
        let mut clock = 0;
        let mut bits = 1u32;
        let mut n = 0;
        for j in s + 1..cl.len() {
            clock += cl[j]? + 1;
            if clock % 2 == 0 {
                bits = bits << 1 | rising(j) as u32;
                n += 1;
                if n == 13 {
                    return Some((
                        j,
                        K { p, addr: bits >> 6 & 31, cmd: bits & 63, aux: (bits >> 12 & 3) as u64, rep: bits >> 11 & 1 == 1 },
                    ));
                }
            }
        }
        return None;
    }
    // RC6
    let t = |j: usize| cl.get(j).copied().flatten().map(|v| v + 1);
    if t(s + 1)? != 6 || t(s + 2)? != 2 {
        return None;
    }
    let mut clock = 8;
    let mut j = s + 3;
    let mut n = 0;
    loop {
        clock += t(j)?;
        if clock % 2 == 1 {
            n += 1;
        }
        j += 1;
        if n == 4 {
            break;
        }
    }
    let toggle = loop {
        let ticks = t(j)?;
        clock += ticks;
        j += 1;
        match (rising(j - 1), ticks) {
            (false, 3) => break true,
            (true, 2) => break false,
            (false, 1) => {}
            _ => return None,
        }
    };
    let mut bits = 0u32;
    let mut m = 0;
    loop {
        clock += t(j)?;
        if clock % 2 == 1 {
            bits = bits << 1 | !rising(j) as u32;
            m += 1;
            if m == 16 {
                return Some((j, K { p, addr: bits >> 8, cmd: bits & 0xff, aux: 0, rep: toggle }));
            }
        }
        j += 1;
    }
}

/// Offline checker: every output of an alternating stream is justified.
/// Returns (commands, errors) seen.
fn judge(p: P, w: &Wins, ev: &[Ev], o: &[Out]) -> Result<(u64, u64), String> {
    let (mut ncmd, mut nerr) = (0, 0);
    if p.style() == Style::Pd {
        // rise to rise intervals; the first one counts from the start
        let mut cl: Vec<Option<usize>> = vec![];
        let mut acc = 0u64;
        let mut at: Vec<usize> = vec![];
        for (i, (d, e)) in ev.iter().enumerate() {
            if *e {
                let x = if cl.is_empty() { *d } else { acc + d };
                match w.class(x) {
                    Some(c) => cl.push(c),
                    None => return Err(format!("HARNESS ambiguous interval {x}")),
                }
                at.push(i);
                acc = 0;
            } else {
                acc = *d;
                match o[i] {
                    Out::None => {}
                    x => return Err(format!("output {x:?} at falling edge {i}")),
                }
            }
        }
        // possible states: None idle, Some(n) n symbols received
        let nsym = match p {
            P::Sbp => 38,
            P::Denon => 49,
            _ => 33,
        };
        let fits = |n: usize, c: Option<usize>| -> bool {
            match (p, c) {
                (P::Sbp, Some(1)) => n == 17,
                (P::Sbp, Some(2 | 3)) => n != 17,
                (P::Denon, Some(1 | 2)) => true,
                (P::Denon, _) => false,
                (_, Some(2 | 3)) => true,
                _ => false,
            }
        };
        let reports = p != P::Denon;
        let mut st: Vec<Option<usize>> = vec![None];
        for (i, c) in cl.iter().enumerate() {
            let out = o[at[i]];
            let mut next: Vec<Option<usize>> = vec![];
            let (mut may_err, mut must_err) = (false, true);
            for s in &st {
                match s {
                    None => {
                        must_err = false;
                        next.push(if *c == Some(0) { Some(1) } else { None });
                    }
                    Some(n) if fits(*n, *c) => {
                        must_err = false;
                        next.push(if n + 1 == nsym { None } else { Some(n + 1) });
                    }
                    Some(_) => {
                        may_err = true;
                        next.push(None);
                        if *c == Some(0) {
                            next.push(Some(1));
                        }
                    }
                }
            }
            next.sort();
            next.dedup();
            match out {
                Out::Cmd(k) => {
                    ncmd += 1;
                    if !pd_justified(p, &cl, i, &k) {
                        return Err(format!(
                            "command {k:?} at edge {} (interval {i}) is not justified; classes before: {:?}",
                            at[i], &cl[i.saturating_sub(50)..=i]
                        ));
                    }
                }
                Out::Err(e) => {
                    nerr += 1;
                    if !may_err {
                        return Err(format!("error {e:?} at edge {} although no frame was broken there", at[i]));
                    }
                }
                Out::None => {
                    if must_err && reports {
                        return Err(format!("no error at edge {} which breaks a frame", at[i]));
                    }
                }
                x => return Err(format!("unexpected {x:?}")),
            }
            st = next;
        }
    } else {
        let mut cl = vec![];
        for (d, _) in ev {
            match w.class(*d) {
                Some(c) => cl.push(c),
                None => return Err(format!("HARNESS ambiguous interval {d}")),
            }
        }
        let mut dones: Vec<usize> = vec![];
        for (i, x) in o.iter().enumerate() {
            match x {
                Out::None => {}
                Out::Cmd(k) => {
                    ncmd += 1;
                    let mut ok = false;
                    for s in (0..i).rev() {
                        if s % 2 == 1 {
                            continue;
                        }
                        if s + 1 < i && cl[s + 1].is_none() {
                            break;
                        }
                        let start_ok = p == P::Rc6
                            || s == 0
                            || cl[s].is_none()
                            || cl[s - 1].is_none()
                            || dones.iter().any(|d| *d < s && s - d <= 2);
                        if start_ok && bi_run(p, &cl, s) == Some((i, *k)) {
                            ok = true;
                            break;
                        }
                    }
                    if !ok {
                        return Err(format!(
                            "command {k:?} at edge {i} is not justified; classes before: {:?}",
                            &cl[i.saturating_sub(45)..=i]
                        ));
                    }
                    dones.push(i);
                }
                Out::Err(e) => {
                    nerr += 1;
                    // idle: just reset by an out of tolerance interval, or just done
                    let idle = i == 0
                        || (cl[i - 1].is_none() && i % 2 == 0)
                        || dones.last().map_or(false, |d| d + 1 == i);
                    if idle {
                        return Err(format!("error {e:?} at edge {i} while idle"));
                    }
                }
                x => return Err(format!("unexpected {x:?}")),
            }
        }
    }
    Ok((ncmd, nerr))
}

fn judged(c: &mut Case, p: P, f: u32, w: &Wins, ev: &[Ev], o: &[Out], what: &str) -> Res {
    match judge(p, w, ev, o) {
        Ok((a, b)) => {
            c.count("commands_judged", a);
            c.count("errors_judged", b);
            c.count("edges", ev.len() as u64);
            Ok(())
        }
        Err(e) if e.starts_with("HARNESS") => panic!("{e}"),
        Err(e) => fail!("{} at {f} Hz, {what}: {e}\nevents: {}", p.name(), show(ev)),
    }
}

fn c03_mixed(c: &mut Case) -> Res {
    let p = ALL[(c.idx % 9) as usize];
    let f = random_freq(p, &mut c.rng);
    let w = Wins::new(p, f);
    let segs = c.rng.range(2, 12);
    let t = tokens(p, &w, segs, &mut c.rng, true);
    let ev = to_events(p, &w, &t, if c.rng.bool() { 0 } else { w.quiet() }, false, &mut c.rng);
    let mut r = rx_any(p, f, c);
    let o = feed(&mut *r, &ev);
    c.distinct(hash_events(&ev));
    c.sample(|| format!("{} at {f} Hz: {} edges, {} commands, all justified", p.name(), ev.len(), commands(&o).len()));
    judged(c, p, f, &w, &ev, &o, "mixed stream")
}

/// Symbols in random order only, so that accidental runs are frequent
fn c03_noise(c: &mut Case) -> Res {
    let p = ALL[(c.idx % 9) as usize];
    let f = random_freq(p, &mut c.rng);
    let w = Wins::new(p, f);
    let n = c.rng.range(20, 300);
    // bias towards data symbols, headers at random places
    let mut t = vec![];
    let bad = c.rng.range(1, 60);
    for _ in 0..n {
        let s = match p {
            P::Rc5 => c.rng.below(2) as usize,
            P::Rc6 => *c.rng.pick(&[0usize, 0, 0, 1, 1, 2, 5]),
            P::Denon => {
                if c.rng.chance(1, 50) {
                    0
                } else {
                    1 + c.rng.below(2) as usize
                }
            }
            _ => {
                if c.rng.chance(1, 30) {
                    c.rng.below(2) as usize
                } else {
                    2 + c.rng.below(2) as usize
                }
            }
        };
        if c.rng.below(60) < bad && c.rng.chance(1, 8) {
            t.push(outside(&w, &mut c.rng));
        } else {
            t.push(pick_ticks(&w.w[s], Jit::Any, &mut c.rng));
        }
    }
    for x in t.iter_mut() {
        while w.class(*x).is_none() {
            *x = clear_ticks(&w, &mut c.rng);
        }
    }
    let ev = to_events(p, &w, &t, 0, false, &mut c.rng);
    let mut r = rx_any(p, f, c);
    let o = feed(&mut *r, &ev);
    c.distinct(hash_events(&ev));
    judged(c, p, f, &w, &ev, &o, "symbol noise")
}

/// One interval of a frame outside every window: no command, one error
fn c03_corrupt(c: &mut Case) -> Res {
    let p = ALL[(c.idx % 9) as usize];
    let f = random_freq(p, &mut c.rng);
    let w = Wins::new(p, f);
    let fr = random_frame(p, &mut c.rng);
    for pos in 0..fr.syms.len() {
        if p.style() == Style::Bi && pos == fr.syms.len() - 1 && fr.tail {
            // the mark after the last bit was recognised
            continue;
        }
        let bad = outside(&w, &mut c.rng);
        let (mut ev, done) = play_frame(&fr, &w, lead(&w, &mut c.rng), *c.rng.pick(&JITS), Marks::Nominal, &mut c.rng);
        let at = match p.style() {
            Style::Pd => {
                let m = c.rng.range(0, bad);
                ev[2 * pos + 1].0 = m;
                ev[2 * pos + 2].0 = bad - m;
                2 * pos + 2
            }
            Style::Bi => {
                ev[pos + 1].0 = bad;
                pos + 1
            }
        };
        if p.style() == Style::Bi && ev.len() % 2 == 1 {
            // line ends high: let it fall, still outside
            ev.push((outside(&w, &mut c.rng), false));
        }
        // a second, intact frame after a pause
        let fr2 = random_frame(p, &mut c.rng);
        let n = ev.len();
        let (ev2, done2) = play_frame(&fr2, &w, pause(&w, &mut c.rng), Jit::Any, Marks::Nominal, &mut c.rng);
        ev.extend(ev2);
        let mut r = rx_any(p, f, c);
        let o = feed(&mut *r, &ev);
        let mut errs = 0;
        for (i, x) in o.iter().enumerate() {
            match x {
                Out::Cmd(k) if i == n + done2 && *k == fr2.k => {}
                Out::None if i == n + done2 => {
                    fail!("{} at {f} Hz: frame {:?} after a corrupted one is not reported\nevents: {}", p.name(), fr2.k, show(&ev))
                }
                Out::None => {}
                Out::Cmd(k) => fail!(
                    "{} at {f} Hz: {k:?} reported at edge {i}; interval {pos} of the frame (edges 0 to {done}) was {bad} ticks, outside every window\nevents: {}",
                    p.name(), show(&ev)
                ),
                Out::Err(e) => {
                    errs += 1;
                    if i != at && i != n {
                        fail!("{} at {f} Hz: error {e:?} at edge {i}, the bad interval ends at {at}\nevents: {}", p.name(), show(&ev));
                    }
                }
                x => fail!("unexpected {x:?}"),
            }
        }
        if p.is_nec() || p == P::Sbp {
            let want = if pos == 0 { 0 } else { 1 };
            if errs != want {
                fail!(
                    "{} at {f} Hz: {errs} errors reported instead of {want} for a frame whose interval {pos} was {bad} ticks\nevents: {}",
                    p.name(), show(&ev)
                );
            }
        }
        c.count("corrupted_frames", 1);
        c.count("errors_judged", errs);
        c.evals(1);
        c.distinct(hash_events(&ev));
    }
    Ok(())
}

fn c03_truncate(c: &mut Case) -> Res {
    let p = ALL[(c.idx % 9) as usize];
    let f = random_freq(p, &mut c.rng);
    let w = Wins::new(p, f);
    let fr = random_frame(p, &mut c.rng);
    let n = fr.syms.len() - (p.style() == Style::Bi && fr.tail) as usize;
    for keep in 0..n {
        let (mut ev, _) = play(p, &fr.syms[..keep], false, &w, lead(&w, &mut c.rng), *c.rng.pick(&JITS), Marks::Nominal, &mut c.rng);
        let hdr = keep > 0;
        if ev.last().unwrap().1 {
            // let the line go idle
            ev.push((outside(&w, &mut c.rng), false));
        }
        let m = ev.len();
        let fr2 = random_frame(p, &mut c.rng);
        let (ev2, done2) = play_frame(&fr2, &w, pause(&w, &mut c.rng), Jit::Any, Marks::Nominal, &mut c.rng);
        ev.extend(ev2);
        let mut r = rx_any(p, f, c);
        let o = feed(&mut *r, &ev);
        let mut errs = 0;
        for (i, x) in o.iter().enumerate() {
            match x {
                Out::Cmd(k) if i == m + done2 && *k == fr2.k => {}
                Out::Cmd(k) => fail!(
                    "{} at {f} Hz: {k:?} reported at edge {i}, after a frame cut after {keep} intervals\nevents: {}",
                    p.name(), show(&ev)
                ),
                Out::Err(e) => {
                    errs += 1;
                    if i > m {
                        fail!("{} at {f} Hz: error {e:?} at edge {i} of the intact frame\nevents: {}", p.name(), show(&ev));
                    }
                }
                Out::None if i == m + done2 => {
                    fail!("{} at {f} Hz: intact frame after a truncated one is not reported\nevents: {}", p.name(), show(&ev))
                }
                Out::None => {}
                x => fail!("unexpected {x:?}"),
            }
        }
        if (p.is_nec() || p == P::Sbp) && errs != hdr as u64 {
            fail!(
                "{} at {f} Hz: {errs} errors for a frame cut after {keep} intervals\nevents: {}",
                p.name(), show(&ev)
            );
        }
        c.count("truncated_frames", 1);
        c.evals(1);
        c.distinct(hash_events(&ev));
    }
    Ok(())
}

/// Broken frame that the line has recovered from; number of errors it must cause (NEC family and
/// Samsung Blu-ray), now or when the next signal starts
fn broken(p: P, w: &Wins, at: Option<usize>, cut: bool, rng: &mut Rng) -> (Vec<Ev>, u64) {
    let fr = random_frame(p, rng);
    let n = fr.syms.len() - (p.style() == Style::Bi && fr.tail) as usize;
    let pos = at.map(|a| a % n).unwrap_or_else(|| rng.below(n as u64) as usize);
    let keep = if cut { pos } else { pos + 1 };
    let (mut ev, _) = play(p, &fr.syms[..keep], false, w, pause(w, rng), Jit::Any, Marks::Nominal, rng);
    if !cut {
        let bad = outside(w, rng);
        match p.style() {
            Style::Pd => {
                let m = rng.range(0, bad);
                ev[2 * pos + 1].0 = m;
                ev[2 * pos + 2].0 = bad - m;
            }
            Style::Bi => ev[pos + 1].0 = bad,
        }
    }
    if ev.last().unwrap().1 {
        ev.push((outside(w, rng), false));
    }
    (ev, (pos > 0) as u64)
}

/// Long streaks of broken frames without a single good one in between, then a good one, all on
/// one receiver
fn streaks(c: &mut Case, errors: bool) -> Res {
    let p = ALL[(c.idx % 9) as usize];
    let f = random_freq(p, &mut c.rng);
    let w = Wins::new(p, f);
    let kind = if errors { Front::Event } else { *c.rng.pick(&EVFRONTS) };
    let mut r = front(p, f, kind);
    let judge = errors && (p.is_nec() || p == P::Sbp);
    let mut round = 0;
    let mut total = 0u64;
    while total < 70_000 {
        let n = match round {
            0 => c.rng.range(1, 40),
            1 => c.rng.range(250, 300),
            2 => c.rng.range(1000, 1100),
            3 => 66_000,
            _ => c.rng.range(1, 600),
        };
        round += 1;
        let at = if c.rng.bool() { Some(c.rng.below(60) as usize) } else { None };
        let style = c.rng.below(if errors { 3 } else { 5 });
        let (mut errs, mut want) = (0u64, 0u64);
        for i in 0..n {
            let (ev, e) = match style {
                0 => broken(p, &w, at, true, &mut c.rng),
                1 => broken(p, &w, at, false, &mut c.rng),
                2 => {
                    let cut = c.rng.bool();
                    broken(p, &w, at, cut, &mut c.rng)
                }
                3 => (chaos(7, f, &mut c.rng), 0),
                _ => {
                    let d = c.rng.next();
                    (vec![(outside(&w, &mut c.rng), d & 1 == 1), (outside(&w, &mut c.rng), d & 2 == 2)], 0)
                }
            };
            for (d, edge) in &ev {
                match r.ev(*d, *edge) {
                    Out::None => {}
                    Out::Err(_) => errs += 1,
                    Out::Cmd(k) if errors => fail!("{} at {f} Hz: {k:?} reported in a streak of broken frames ({i} before)\nevents: {}", p.name(), show(&ev)),
                    Out::Cmd(_) => {}
                    x => fail!("unexpected {x:?}"),
                }
            }
            want += e;
            // the error of the last one may still be due
            if judge && (errs > want || errs + 1 < want) {
                fail!("{} at {f} Hz: {errs} errors for {want} broken frames in a row\nlast: {}", p.name(), show(&ev));
            }
        }
        if style >= 3 {
            // the line falls
            r.ev(w.quiet(), false);
        }
        let fr = random_frame(p, &mut c.rng);
        let (ev, done) = play_frame(&fr, &w, pause(&w, &mut c.rng), *c.rng.pick(&JITS), Marks::Nominal, &mut c.rng);
        let o = feed(&mut *r, &ev);
        if let Err(e) = expect_exact(&o, done, &fr.k, true) {
            fail!("{} at {f} Hz ({kind:?}): after {n} broken signals in a row (style {style}, at {at:?}): {e}\n{:?}\nevents: {}", p.name(), fr.k, show(&ev));
        }
        errs += matches!(o[0], Out::Err(_)) as u64;
        if judge && errs != want {
            fail!("{} at {f} Hz: {errs} errors for {want} broken frames in a row", p.name());
        }
        total += n;
        c.count("streaks", 1);
        c.count("streak_signals", n);
        c.evals(1);
        c.distinct(hash64(&[hash_events(&ev), n, style]));
    }
    Ok(())
}

fn c03_streaks(c: &mut Case) -> Res {
    streaks(c, true)
}

fn c04_streaks(c: &mut Case) -> Res {
    streaks(c, false)
}

// ------------------------------------------------------------------ C04

fn c04() -> Property {
    Property {
        id: "C04",
        rule: "distinct (history, frame) pairs by hash of the whole event list: histories of arbitrary edges and intervals, broken frames cut or corrupted at every position, foreign and valid frames; then a pause and a frame",
        assumptions: &["the line is idle (last edge falling) during the pause"],
        required: &["frames_after_history", "histories_broken_frame", "histories_chaos", "histories_foreign", "polled", "streaks"],
        workloads: vec![
            Workload { name: "cut", quick: 18_720, thorough: 270_000, f: c04_cut },
            Workload { name: "history", quick: 1_200_000, thorough: 24_000_000, f: c04_history },
            Workload { name: "polled", quick: 24_000, thorough: 320_000, f: c04_polled },
            Workload { name: "streaks", quick: 54, thorough: 540, f: c04_streaks },
        ],
    }
}

fn after_history(c: &mut Case, p: P, f: u32, w: &Wins, kind: Front, hist: &[Ev], what: &str) -> Res {
    let fr = random_frame(p, &mut c.rng);
    let (mut ev, done) = play_frame(&fr, w, pause(w, &mut c.rng), *c.rng.pick(&JITS), *c.rng.pick(&[Marks::Nominal, Marks::Any]), &mut c.rng);
    let mut r = front(p, f, kind);
    let _ = feed(&mut *r, hist);
    let o = feed(&mut *r, &ev);
    if let Err(e) = expect_exact(&o, done, &fr.k, true) {
        let mut all = hist.to_vec();
        all.append(&mut ev);
        fail!("{} at {f} Hz ({kind:?}) after {what}: {e}\n{:?}\nevents ({} of history): {}", p.name(), fr.k, hist.len(), show(&all));
    }
    c.count("frames_after_history", 1);
    c.count("history_edges", hist.len() as u64);
    c.distinct(hash64(&[hash_events(hist), hash_events(&ev)]));
    Ok(())
}


fn c04_cut(c: &mut Case) -> Res {
    let p = ALL[(c.idx % 9) as usize];
    let f = random_freq(p, &mut c.rng);
    let w = Wins::new(p, f);
    let fr = random_frame(p, &mut c.rng);
    let kind = *c.rng.pick(&EVFRONTS);
    for keep in 0..=fr.syms.len() {
        let (mut ev, _) = play(p, &fr.syms[..keep], false, &w, lead(&w, &mut c.rng), Jit::Any, Marks::Nominal, &mut c.rng);
        if c.rng.chance(1, 3) && keep > 0 {
            // corrupt rather than cut
            let n = ev.len();
            ev[n - 1].0 = outside(&w, &mut c.rng);
        }
        if c.rng.chance(1, 2) || ev.last().unwrap().1 {
            let e = if ev.last().unwrap().1 { false } else { true };
            ev.push((c.rng.below(2 * w.quiet()), e));
            if e {
                ev.push((c.rng.below(2 * w.quiet()), false));
            }
        }
        c.evals(1);
        c.count("histories_broken_frame", 1);
        after_history(c, p, f, &w, kind, &ev, "a broken frame")?;
    }
    Ok(())
}

fn c04_history(c: &mut Case) -> Res {
    let p = ALL[(c.idx % 9) as usize];
    let f = random_freq(p, &mut c.rng);
    let w = Wins::new(p, f);
    let kind = *c.rng.pick(&EVFRONTS);
    let mut hist: Vec<Ev> = vec![];
    let parts = c.rng.range(1, 5);
    let mut names = String::new();
    for _ in 0..parts {
        match c.rng.below(4) {
            0 => {
                let n = c.rng.range(1, 120);
                hist.extend(chaos(n, f, &mut c.rng));
                c.count("histories_chaos", 1);
                names.push_str("chaos ");
            }
            1 => {
                let segs = c.rng.range(1, 4);
                let t = tokens(p, &w, segs, &mut c.rng, true);
                let mut e = to_events(p, &w, &t, lead(&w, &mut c.rng), false, &mut c.rng);
                let n = c.rng.range(1, e.len() as u64) as usize;
                e.truncate(n);
                hist.extend(e);
                c.count("histories_broken_frame", 1);
                names.push_str("fragments ");
            }
            2 => {
                let q = *c.rng.pick(&ALL);
                let wq = Wins::new(q, f);
                if wq.supported() {
                    let fq = random_frame(q, &mut c.rng);
                    let (e, _) = play_frame(&fq, &wq, lead(&w, &mut c.rng), Jit::Any, Marks::Nominal, &mut c.rng);
                    hist.extend(e);
                    c.count("histories_foreign", 1);
                    names.push_str("foreign ");
                }
            }
            _ => {
                let fr = random_frame(p, &mut c.rng);
                let (mut e, _) = play_frame(&fr, &w, lead(&w, &mut c.rng), Jit::Any, Marks::Any, &mut c.rng);
                if c.rng.bool() {
                    // drop or repeat an edge
                    let i = c.rng.below(e.len() as u64) as usize;
                    if c.rng.bool() {
                        e.remove(i);
                    } else {
                        e.insert(i, e[i]);
                    }
                }
                hist.extend(e);
                names.push_str("frame ");
            }
        }
    }
    if hist.last().map_or(false, |e| e.1) {
        let n = c.rng.below(4 * w.quiet());
        hist.push((n, false));
    }
    c.sample(|| format!("{} at {f} Hz: history of {} edges ({names}), then a frame decoded exactly", p.name(), hist.len()));
    after_history(c, p, f, &w, kind, &hist, &names)
}

fn c04_polled(c: &mut Case) -> Res {
    let p = ALL[(c.idx % 9) as usize];
    let f = *c.rng.pick(&[32_768u32, 40_000, 48_000]);
    let w = Wins::new(p, f);
    if !w.supported() {
        return Ok(());
    }
    let kind = if c.rng.bool() { Front::Poll } else { Front::PollPin };
    let segs = c.rng.range(1, 4);
    let t = tokens(p, &w, segs, &mut c.rng, false);
    let mut hist = to_events(p, &w, &t, w.quiet(), true, &mut c.rng);
    let n = c.rng.range(1, hist.len() as u64) as usize;
    hist.truncate(n);
    for h in hist.iter_mut() {
        h.0 = h.0.clamp(1, 3 * w.quiet());
    }
    if hist.last().unwrap().1 {
        hist.push((1 + c.rng.below(100), false));
    }
    let fr = random_frame(p, &mut c.rng);
    let (ev, done) = play_frame(&fr, &w, short_pause(&w, &mut c.rng), Jit::Any, Marks::Nominal, &mut c.rng);
    let mut r = front(p, f, kind);
    let _ = feed(&mut *r, &hist);
    let o = feed(&mut *r, &ev);
    if let Err(e) = expect_exact(&o, done, &fr.k, true) {
        fail!("{} polled at {f} Hz after a history of {} edges: {e}\nhistory: {}\nevents: {}", p.name(), hist.len(), show(&hist), show(&ev));
    }
    c.count("polled", 1);
    c.count("frames_after_history", 1);
    c.distinct(hash64(&[hash_events(&hist), hash_events(&ev)]));
    Ok(())
}

// ------------------------------------------------------------------ C05

fn c05() -> Property {
    Property {
        id: "C05",
        rule: "distinct histories (hash of all edges) of frames, repeats, broken and invalid frames and idle noise for the five NEC variants",
        assumptions: &[
            "frames broken before their header is complete are not used",
            "only words with correct check bytes are sent as frames, except Apple (whose check the receiver applies)",
        ],
        required: &["repeats_reported", "repeats_silent", "frames", "broken_frames", "invalid_frames", "silent_runs"],
        workloads: vec![
            Workload { name: "histories", quick: 900_000, thorough: 18_000_000, f: c05_histories },
            Workload { name: "first", quick: 9_900, thorough: 82_500, f: c05_first },
            Workload { name: "many", quick: 10, thorough: 40, f: c05_many },
            Workload { name: "silent", quick: 20, thorough: 120, f: c05_silent },
        ],
    }
}

struct RepModel {
    last: Option<K>,
}

impl RepModel {
    fn repeat(&self) -> Out {
        match self.last {
            None => Out::None,
            Some(k) => Out::Cmd(K { rep: k.p != P::Dbg, ..k }),
        }
    }
}

fn c05_histories(c: &mut Case) -> Res {
    let p = NECS[(c.idx % 5) as usize];
    let f = random_freq(p, &mut c.rng);
    let w = Wins::new(p, f);
    let mut m = RepModel { last: None };
    let mut r: Box<dyn Rx> = front(p, f, *c.rng.pick(&EVFRONTS));
    let mut log: Vec<Ev> = vec![];
    let n = c.rng.range(2, 14);
    let mut trace = String::new();
    for _ in 0..n {
        let jit = *c.rng.pick(&JITS);
        let mk = *c.rng.pick(&[Marks::Nominal, Marks::Any]);
        let g = pause(&w, &mut c.rng);
        let (ev, at, want): (Vec<Ev>, usize, Out) = match c.rng.below(10) {
            0..=2 => {
                let fr = random_frame(p, &mut c.rng);
                let (ev, done) = play_frame(&fr, &w, g, jit, mk, &mut c.rng);
                m.last = Some(fr.k);
                c.count("frames", 1);
                trace.push_str("frame ");
                (ev, done, Out::Cmd(fr.k))
            }
            3..=6 => {
                let (ev, done) = play(p, &nec_repeat(p), true, &w, g, jit, mk, &mut c.rng);
                let want = m.repeat();
                c.count(if want == Out::None { "repeats_silent" } else { "repeats_reported" }, 1);
                trace.push_str("repeat ");
                (ev, done, want)
            }
            7 => {
                let fr = random_frame(p, &mut c.rng);
                let keep = c.rng.range(1, 32) as usize;
                let (mut ev, _) = play(p, &fr.syms[..keep], false, &w, g, jit, mk, &mut c.rng);
                ev.push((c.rng.below(w.quiet()), false));
                m.last = None;
                c.count("broken_frames", 1);
                trace.push_str("truncated ");
                let l = ev.len();
                (ev, l, Out::None)
            }
            8 => {
                let fr = random_frame(p, &mut c.rng);
                let pos = c.rng.range(1, 32) as usize;
                let (mut ev, _) = play_frame(&fr, &w, g, jit, mk, &mut c.rng);
                let bad = outside(&w, &mut c.rng);
                ev[2 * pos + 1].0 = bad / 2;
                ev[2 * pos + 2].0 = bad - bad / 2;
                m.last = None;
                c.count("broken_frames", 1);
                trace.push_str("corrupted ");
                let l = ev.len();
                (ev, l, Out::None)
            }
            _ => {
                if p == P::Apple {
                    let mut word = nec_word(&random_frame(p, &mut c.rng).k);
                    word ^= 1 << c.rng.range(0, 31);
                    let fr = nec_frame_word(p, word);
                    let (ev, _) = play_frame(&fr, &w, g, jit, mk, &mut c.rng);
                    m.last = None;
                    c.count("invalid_frames", 1);
                    trace.push_str("invalid ");
                    let l = ev.len();
                    (ev, l, Out::None)
                } else {
                    // noise while idle
                    let mut ev = vec![(g, true)];
                    for _ in 0..c.rng.range(1, 5) {
                        let x = outside(&w, &mut c.rng);
                        ev.push((x / 2, false));
                        ev.push((x - x / 2, true));
                    }
                    ev.push((3, false));
                    trace.push_str("noise ");
                    let l = ev.len();
                    (ev, l, Out::None)
                }
            }
        };
        let o = feed(&mut *r, &ev);
        log.extend(&ev);
        for (i, x) in o.iter().enumerate() {
            let exp = if i == at { want } else { Out::None };
            let ok = *x == exp || (exp == Out::None && matches!(x, Out::Err(_)));
            if !ok {
                fail!("{} at {f} Hz after [{trace}]: edge {i}: got {x:?}, expected {exp:?}\nevents: {}", p.name(), show(&log));
            }
        }
    }
    c.distinct(hash_events(&log));
    c.sample(|| format!("{} at {f} Hz: [{trace}] as the model says", p.name()));
    Ok(())
}

/// A repeat as the first thing heard, and after a frame cut at every bit
fn c05_first(c: &mut Case) -> Res {
    let p = NECS[(c.idx % 5) as usize];
    let cut = (c.idx / 5 % 33) as usize;
    let f = random_freq(p, &mut c.rng);
    let w = Wins::new(p, f);
    let mut r = rx_any(p, f, c);
    let mut log = vec![];
    if c.rng.bool() {
        let fr = random_frame(p, &mut c.rng);
        let (ev, _) = play_frame(&fr, &w, pause(&w, &mut c.rng), Jit::Any, Marks::Nominal, &mut c.rng);
        feed(&mut *r, &ev);
        log.extend(ev);
        if cut == 0 {
            return Ok(());
        }
    }
    if cut > 0 {
        let fr = random_frame(p, &mut c.rng);
        let (mut ev, _) = play(p, &fr.syms[..cut], false, &w, pause(&w, &mut c.rng), Jit::Any, Marks::Nominal, &mut c.rng);
        ev.push((5, false));
        feed(&mut *r, &ev);
        log.extend(ev);
        c.count("broken_frames", 1);
    }
    for i in 0..3 {
        let (ev, _) = play(p, &nec_repeat(p), true, &w, pause(&w, &mut c.rng), Jit::Any, Marks::Nominal, &mut c.rng);
        let o = feed(&mut *r, &ev);
        log.extend(&ev);
        if let Some(k) = commands(&o).first() {
            fail!("{} at {f} Hz: repeat {i} reports {k:?} though {}\nevents: {}", p.name(),
                if cut == 0 { "no frame was received" } else { "the last frame was cut" }, show(&log));
        }
        c.count("repeats_silent", 1);
    }
    // and a frame still works
    let fr = random_frame(p, &mut c.rng);
    let (ev, done) = play_frame(&fr, &w, pause(&w, &mut c.rng), Jit::Any, Marks::Nominal, &mut c.rng);
    let o = feed(&mut *r, &ev);
    log.extend(&ev);
    if let Err(e) = expect_exact(&o, done, &fr.k, true) {
        fail!("{} at {f} Hz: {e}\nevents: {}", p.name(), show(&log));
    }
    c.distinct(hash_events(&log));
    Ok(())
}

/// Very many repeats
fn c05_many(c: &mut Case) -> Res {
    let p = NECS[(c.idx % 5) as usize];
    let f = 40_000;
    let w = Wins::new(p, f);
    let mut r = rx_any(p, f, c);
    for _ in 0..2 {
        let fr = random_frame(p, &mut c.rng);
        let (ev, done) = play_frame(&fr, &w, pause(&w, &mut c.rng), Jit::Any, Marks::Nominal, &mut c.rng);
        let o = feed(&mut *r, &ev);
        if let Err(e) = expect_exact(&o, done, &fr.k, true) {
            fail!("{}: {e}", p.name());
        }
        let want = Out::Cmd(K { rep: p != P::Dbg, ..fr.k });
        for i in 0..70_000 {
            let (ev, done) = play(p, &nec_repeat(p), true, &w, short_pause(&w, &mut c.rng), Jit::Any, Marks::Nominal, &mut c.rng);
            let o = feed(&mut *r, &ev);
            for (j, x) in o.iter().enumerate() {
                let exp = if j == done { want } else { Out::None };
                if *x != exp {
                    fail!("{} at {f} Hz: repeat number {i} after {:?}: edge {j}: {x:?}, expected {exp:?}", p.name(), fr.k);
                }
            }
        }
        c.count("repeats_reported", 70_000);
    }
    c.enumerated(1);
    Ok(())
}

/// Very many repeats that refer to nothing (before any frame, or after broken frames), then a frame
/// and its repeats
fn c05_silent(c: &mut Case) -> Res {
    let p = NECS[(c.idx % 5) as usize];
    let f = 40_000;
    let w = Wins::new(p, f);
    let mut r = rx_any(p, f, c);
    for round in 0..3 {
        if round > 0 {
            for _ in 0..*c.rng.pick(&[1u64, 300, 66_000]) {
                let pos = c.rng.range(2, 32) as usize;
                let cut = c.rng.bool();
                for (d, e) in broken(p, &w, Some(pos), cut, &mut c.rng).0 {
                    if let Out::Cmd(k) = r.ev(d, e) {
                        fail!("{} at {f} Hz: {k:?} reported for a broken frame", p.name());
                    }
                }
            }
        }
        let n = *c.rng.pick(&[3u64, 300, 66_000]);
        for i in 0..n {
            let (ev, _) = play(p, &nec_repeat(p), true, &w, short_pause(&w, &mut c.rng), Jit::Any, Marks::Nominal, &mut c.rng);
            for (j, (d, e)) in ev.iter().enumerate() {
                match r.ev(*d, *e) {
                    Out::None => {}
                    // of the broken frame
                    Out::Err(_) if round > 0 && i == 0 && j == 0 => {}
                    x => fail!("{} at {f} Hz: repeat number {i} that refers to nothing (round {round}): edge {j}: {x:?}", p.name()),
                }
            }
        }
        c.count("repeats_silent", n);
        let fr = random_frame(p, &mut c.rng);
        let (ev, done) = play_frame(&fr, &w, pause(&w, &mut c.rng), Jit::Any, Marks::Nominal, &mut c.rng);
        let o = feed(&mut *r, &ev);
        if let Err(e) = expect_exact(&o, done, &fr.k, true) {
            fail!("{} at {f} Hz: after {n} repeats that refer to nothing: {e}", p.name());
        }
        let want = K { rep: p != P::Dbg, ..fr.k };
        for i in 0..4 {
            let (ev, done) = play(p, &nec_repeat(p), true, &w, pause(&w, &mut c.rng), Jit::Any, Marks::Nominal, &mut c.rng);
            let o = feed(&mut *r, &ev);
            if let Err(e) = expect_exact(&o, done, &want, false) {
                fail!("{} at {f} Hz: repeat {i} of {:?}: {e}", p.name(), fr.k);
            }
        }
        c.count("repeats_reported", 4);
        c.count("silent_runs", 1);
        c.distinct(hash64(&[c.idx, round, n, fr.k.w()]));
    }
    Ok(())
}

// ------------------------------------------------------------------ C18

fn c18() -> Property {
    Property {
        id: "C18",
        rule: "distinct (receiver, transmission sequence) runs: long sequences of random frames of the receiver's protocol mixed with frames of differently timed protocols; each transmitted frame counts once",
        assumptions: &[
            "foreign frames come from protocols with different timing (the NEC variants with standard timing share theirs)",
            "foreign frames use nominal mark lengths",
        ],
        required: &["own_frames", "foreign_frames", "polled_frames", "buffer_frames", "same_runs", "foreign_runs"],
        workloads: vec![
            Workload { name: "mixed", quick: 80_000, thorough: 1_500_000, f: c18_mixed },
            Workload { name: "soak", quick: 9, thorough: 72, f: c18_soak },
            Workload { name: "runs", quick: 54, thorough: 540, f: c18_runs },
            Workload { name: "pollsoak", quick: 9, thorough: 36, f: c18_pollsoak },
            Workload { name: "longbuffer", quick: 9, thorough: 90, f: c18_longbuffer },
            Workload { name: "polled", quick: 720, thorough: 7_200, f: c18_polled },
            Workload { name: "buffer", quick: 18_000, thorough: 240_000, f: c18_buffer },
        ],
    }
}

fn foreign_to(p: P, rng: &mut Rng) -> P {
    let std = [P::Nec, P::Nec16, P::Apple, P::Dbg];
    loop {
        let q = *rng.pick(&ALL);
        if q != p && !(std.contains(&p) && std.contains(&q)) {
            return q;
        }
    }
}

/// Transmit `n` frames, returning the events and the expected commands with their edge index
fn transmissions(p: P, f: u32, w: &Wins, n: u64, foreign: bool, small: bool, rng: &mut Rng) -> (Vec<Ev>, Vec<(usize, K)>, u64) {
    let mut ev: Vec<Ev> = vec![];
    let mut exp = vec![];
    let mut nf = 0;
    for _ in 0..n {
        let g = if small { short_pause(w, rng) } else { pause(w, rng) };
        if foreign && rng.chance(1, 3) {
            let q = foreign_to(p, rng);
            let wq = Wins::new(q, f);
            if !wq.supported() {
                continue;
            }
            let fr = random_frame(q, rng);
            let (e, _) = play_frame(&fr, &wq, g, if small { Jit::Nominal } else { Jit::Any }, Marks::Nominal, rng);
            ev.extend(e);
            nf += 1;
        } else {
            let fr = random_frame(p, rng);
            let (e, d) = play_frame(&fr, w, g, *rng.pick(&JITS), Marks::Nominal, rng);
            exp.push((ev.len() + d, fr.k));
            ev.extend(e);
        }
    }
    (ev, exp, nf)
}

fn check_seq(p: P, f: u32, ev: &[Ev], o: &[Out], exp: &[(usize, K)]) -> Res {
    let got: Vec<(usize, K)> = o
        .iter()
        .enumerate()
        .filter_map(|(i, x)| if let Out::Cmd(k) = x { Some((i, *k)) } else { None })
        .collect();
    for n in 0..got.len().max(exp.len()) {
        if got.get(n) != exp.get(n) {
            let at = got.get(n).map(|g| g.0).or(exp.get(n).map(|g| g.0)).unwrap();
            let lo = at.saturating_sub(220);
            fail!(
                "{} at {f} Hz: transmission {n}: reported {:?}, transmitted {:?}\nevents from {lo}: {}",
                p.name(), got.get(n), exp.get(n), show(&ev[lo..(at + 5).min(ev.len())])
            );
        }
    }
    Ok(())
}

fn c18_mixed(c: &mut Case) -> Res {
    let p = ALL[(c.idx % 9) as usize];
    let f = random_freq(p, &mut c.rng);
    let w = Wins::new(p, f);
    let n = c.rng.range(3, 40);
    let (ev, exp, nf) = transmissions(p, f, &w, n, true, false, &mut c.rng);
    let kind = *c.rng.pick(&EVFRONTS);
    let mut r = front(p, f, kind);
    let o = feed(&mut *r, &ev);
    check_seq(p, f, &ev, &o, &exp)?;
    c.count("own_frames", exp.len() as u64);
    c.count("foreign_frames", nf);
    c.distinct(hash_events(&ev));
    c.sample(|| format!("{} at {f} Hz through {kind:?}: {} own and {nf} foreign frames, own ones reported once each, in order", p.name(), exp.len()));
    Ok(())
}

fn c18_soak(c: &mut Case) -> Res {
    let p = ALL[(c.idx % 9) as usize];
    let f = *c.rng.pick(&[40_000u32, 100_000, 1_000_000]);
    let w = Wins::new(p, f);
    let kind = *c.rng.pick(&[Front::Event, Front::Instant, Front::PinInstant]);
    let mut r = front(p, f, kind);
    let total = if c.tier == Tier::Thorough { 1_100_000 } else { 140_000 };
    let mut done = 0u64;
    while done < total {
        let (ev, exp, nf) = transmissions(p, f, &w, 1000, true, false, &mut c.rng);
        let o = feed(&mut *r, &ev);
        check_seq(p, f, &ev, &o, &exp).map_err(|mut e| {
            e.msg = format!("after about {done} frames on one receiver: {}", e.msg);
            e
        })?;
        done += exp.len() as u64;
        c.count("own_frames", exp.len() as u64);
        c.count("foreign_frames", nf);
        c.evals(1);
        c.distinct(hash_events(&ev));
    }
    Ok(())
}

/// The very same transmission many times in a row; many foreign frames in a row
fn c18_runs(c: &mut Case) -> Res {
    let p = ALL[(c.idx % 9) as usize];
    let f = random_freq(p, &mut c.rng);
    let w = Wins::new(p, f);
    let kind = *c.rng.pick(&[Front::Event, Front::Instant, Front::Pin, Front::PinInstant]);
    let mut r = front(p, f, kind);
    let long = c.idx / 9 % 2;
    for round in 0..5u64 {
        let n = match round {
            1 => c.rng.range(250, 300),
            3 if long == 0 => 66_000,
            4 if long == 1 => 66_000,
            _ => c.rng.range(1, 1200),
        };
        if round % 2 == 1 {
            let fr = random_frame(p, &mut c.rng);
            let (ev, done) = play_frame(&fr, &w, pause(&w, &mut c.rng), *c.rng.pick(&JITS), Marks::Nominal, &mut c.rng);
            for i in 0..n {
                for (j, (d, e)) in ev.iter().enumerate() {
                    let x = r.ev(*d, *e);
                    let want = if j == done { Out::Cmd(fr.k) } else { Out::None };
                    if x != want {
                        fail!("{} at {f} Hz ({kind:?}): the same frame for the {i}. time in a row: edge {j}: {x:?}, expected {want:?}\nevents: {}", p.name(), show(&ev));
                    }
                }
            }
            c.count("own_frames", n);
            c.count("same_runs", 1);
        } else {
            let q = foreign_to(p, &mut c.rng);
            let wq = Wins::new(q, f);
            if !wq.supported() {
                continue;
            }
            for i in 0..n {
                let fr = random_frame(q, &mut c.rng);
                let (ev, _) = play_frame(&fr, &wq, pause(&w, &mut c.rng), Jit::Any, Marks::Nominal, &mut c.rng);
                for (d, e) in &ev {
                    if let Out::Cmd(k) = r.ev(*d, *e) {
                        fail!("{} at {f} Hz ({kind:?}): {k:?} reported for {} frame {:?} ({i} before it in a row)\nevents: {}", p.name(), q.name(), fr.k, show(&ev));
                    }
                }
            }
            let fr = random_frame(p, &mut c.rng);
            let (ev, done) = play_frame(&fr, &w, pause(&w, &mut c.rng), *c.rng.pick(&JITS), Marks::Nominal, &mut c.rng);
            let o = feed(&mut *r, &ev);
            if let Err(e) = expect_exact(&o, done, &fr.k, true) {
                fail!("{} at {f} Hz ({kind:?}): after {n} {} frames in a row: {e}\n{:?}\nevents: {}", p.name(), q.name(), fr.k, show(&ev));
            }
            c.count("foreign_frames", n);
            c.count("own_frames", 1);
            c.count("foreign_runs", 1);
        }
        c.distinct(hash64(&[c.idx, round, n]));
    }
    Ok(())
}

fn c18_polled(c: &mut Case) -> Res {
    let p = ALL[(c.idx % 9) as usize];
    let f = *c.rng.pick(&[32_768u32, 40_000, 48_000]);
    let w = Wins::new(p, f);
    if !w.supported() {
        return Ok(());
    }
    let kind = if c.rng.bool() { Front::Poll } else { Front::PollPin };
    let (ev, exp, nf) = transmissions(p, f, &w, 60, true, true, &mut c.rng);
    let mut r = front(p, f, kind);
    let o = feed(&mut *r, &ev);
    check_seq(p, f, &ev, &o, &exp)?;
    c.count("polled_frames", exp.len() as u64);
    c.count("foreign_frames", nf);
    c.distinct(hash_events(&ev));
    Ok(())
}

/// More than 2^16 frames on one polled receiver
fn c18_pollsoak(c: &mut Case) -> Res {
    let p = ALL[(c.idx % 9) as usize];
    let f = 32_768;
    let w = Wins::new(p, f);
    let mut r = front(p, f, if c.idx / 9 % 2 == 0 { Front::Poll } else { Front::PollPin });
    let total = if c.tier == Tier::Thorough { 300_000 } else { 66_500 };
    let mut done = 0u64;
    while done < total {
        let (ev, exp, nf) = transmissions(p, f, &w, 500, false, true, &mut c.rng);
        let o = feed(&mut *r, &ev);
        check_seq(p, f, &ev, &o, &exp).map_err(|mut e| {
            e.msg = format!("polled, after about {done} frames on one receiver: {}", e.msg);
            e
        })?;
        done += exp.len() as u64;
        c.count("polled_frames", exp.len() as u64);
        c.count("foreign_frames", nf);
        c.distinct(hash_events(&ev));
    }
    Ok(())
}

/// Buffers of more than 2^16 entries and of more than 2^16 frames
fn c18_longbuffer(c: &mut Case) -> Res {
    use infrared::BufferInputReceiver;
    let p = ALL[(c.idx % 9) as usize];
    let f = random_freq(p, &mut c.rng);
    let w = Wins::new(p, f);
    let (ev, exp, nf) = transmissions(p, f, &w, 100_000, true, false, &mut c.rng);
    let buf: Vec<u32> = ev.iter().map(|e| e.0 as u32).collect();
    let want: Vec<K> = exp.iter().map(|e| e.1).collect();
    let got: Vec<K> = with_proto!(p, T => {
        let mut r = BufferInputReceiver::<T>::with_frequenzy(f);
        r.iter(&buf).map(|k| k.canon()).collect()
    });
    if got != want {
        let i = (0..got.len().max(want.len())).find(|i| got.get(*i) != want.get(*i)).unwrap();
        fail!("{} buffer of {} entries at {f} Hz: command {i} is {:?}, transmitted {:?} ({} and {} in all)", p.name(), buf.len(), got.get(i), want.get(i), got.len(), want.len());
    }
    c.count("buffer_frames", exp.len() as u64);
    c.count("foreign_frames", nf);
    c.distinct(hash_events(&ev));
    Ok(())
}

fn c18_buffer(c: &mut Case) -> Res {
    use infrared::BufferInputReceiver;
    let p = ALL[(c.idx % 9) as usize];
    let f = random_freq(p, &mut c.rng);
    let w = Wins::new(p, f);
    let n = c.rng.range(1, 30);
    let (ev, exp, nf) = transmissions(p, f, &w, n, true, false, &mut c.rng);
    let buf: Vec<u32> = ev.iter().map(|e| e.0 as u32).collect();
    let got: Vec<K> = with_proto!(p, T => {
        let mut r = BufferInputReceiver::<T>::with_frequenzy(f);
        r.iter(&buf).map(|k| k.canon()).collect()
    });
    let want: Vec<K> = exp.iter().map(|e| e.1).collect();
    if got != want {
        fail!("{} buffer at {f} Hz: reported {got:?}, transmitted {want:?}\nevents: {}", p.name(), show(&ev));
    }
    c.count("buffer_frames", exp.len() as u64);
    c.count("foreign_frames", nf);
    c.distinct(hash_events(&ev));
    Ok(())
}
