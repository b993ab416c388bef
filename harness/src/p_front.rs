//! C06, C07, C10, C16, C19: front ends, time types, faults, builders, bare decoders.

use crate::fail;
use crate::fw::*;
use crate::gen::*;
use crate::spec::*;
use crate::sut::*;
use fugit::{TimerInstantU32, TimerInstantU64};
use infrared::receiver::{DecoderBuilder, NoPin, ProtocolDecoder, State};
use infrared::{BufferInputReceiver, PeriodicPoll, Receiver};

pub fn props() -> Vec<Property> {
    vec![c06(), c07(), c10(), c16(), c19()]
}

pub fn diff(a: &[Out], b: &[Out]) -> Option<usize> {
    (0..a.len().max(b.len())).find(|i| a.get(*i) != b.get(*i))
}

// ------------------------------------------------------------------ C06

fn c06() -> Property {
    Property {
        id: "C06",
        rule: "distinct signals (hash of the event list) run through every front end that accepts them, results compared edge by edge",
        assumptions: &["polled front ends see alternating edges at least one poll apart"],
        required: &["iterator_forms", "commands_compared", "errors_compared", "buffers", "polled_streams", "buffer_commands_after_error", "mark_at_first_poll", "long_poll_gaps"],
        workloads: vec![
            Workload { name: "polled", quick: 37_500, thorough: 480_000, f: c06_polled },
            Workload { name: "events", quick: 400_000, thorough: 6_000_000, f: c06_events },
            Workload { name: "buffer", quick: 240_000, thorough: 3_600_000, f: c06_buffer },
            Workload { name: "long", quick: 9, thorough: 90, f: c06_long },
        ],
    }
}

pub fn tally(c: &mut Case, o: &[Out]) {
    for x in o {
        match x {
            Out::Cmd(_) => c.count("commands_compared", 1),
            Out::Err(_) => c.count("errors_compared", 1),
            _ => {}
        }
    }
}

fn c06_polled(c: &mut Case) -> Res {
    let p = ALL[(c.idx % 9) as usize];
    let f = if c.rng.chance(1, 12) { *c.rng.pick(&[100_000u32, 250_000, 1_000_000]) } else { *c.rng.pick(&[20_000u32, 32_768, 40_000, 44_100]) };
    let w = Wins::new(p, f);
    let w = if w.supported() { w } else { Wins::new(p, 40_000) };
    let f = w.f;
    let segs = c.rng.range(1, 5);
    let t = tokens(p, &w, segs, &mut c.rng, false);
    // the very first poll may already see the mark
    let lead = if c.rng.chance(1, 3) { 1 } else { c.rng.range(1, 2 * w.quiet()) };
    let mut ev = to_events(p, &w, &t, lead, true, &mut c.rng);
    for e in ev.iter_mut() {
        e.0 = e.0.clamp(1, 3 * w.quiet());
    }
    if lead == 1 {
        c.count("mark_at_first_poll", 1);
    }
    if c.rng.chance(1, 12) {
        // longer than a narrow poll counter
        for _ in 0..c.rng.range(1, 2) {
            let i = c.rng.below(ev.len() as u64) as usize;
            ev[i].0 += match c.rng.below(400) {
                0 => 1 << 24,
                1..=40 => 1 << 20,
                _ => c.rng.range(1, 2) << 16,
            };
        }
        c.count("long_poll_gaps", 1);
    }
    let base = feed(&mut *front(p, f, Front::Event), &ev);
    for k in FRONTS {
        let o = feed(&mut *front(p, f, k), &ev);
        if let Some(i) = diff(&base, &o) {
            fail!("{} at {f} Hz: edge {i}: event receiver {:?}, {k:?} {:?}\nevents: {}", p.name(), base.get(i), o.get(i), show(&ev));
        }
    }
    tally(c, &base);
    c.count("polled_streams", 1);
    c.distinct(hash_events(&ev));
    Ok(())
}

fn c06_events(c: &mut Case) -> Res {
    let p = ALL[(c.idx % 9) as usize];
    let f = random_freq(p, &mut c.rng);
    let w = Wins::new(p, f);
    let mut ev = match c.rng.below(4) {
        0 => chaos(c.rng.range(1, 150), f, &mut c.rng),
        _ => {
            let segs = c.rng.range(1, 8);
            let t = tokens(p, &w, segs, &mut c.rng, true);
            to_events(p, &w, &t, pause(&w, &mut c.rng), false, &mut c.rng)
        }
    };
    if c.rng.chance(1, 4) {
        // repeated and lost edges
        for _ in 0..c.rng.range(1, 5) {
            let i = c.rng.below(ev.len() as u64) as usize;
            ev[i].1 = !ev[i].1;
        }
    }
    let base = feed(&mut *front(p, f, Front::Event), &ev);
    for k in FRONTS {
        if matches!(k, Front::Poll | Front::PollPin) {
            continue;
        }
        let o = feed(&mut *front(p, f, k), &ev);
        if let Some(i) = diff(&base, &o) {
            fail!("{} at {f} Hz: edge {i}: event receiver {:?}, {k:?} {:?}\nevents: {}", p.name(), base.get(i), o.get(i), show(&ev));
        }
    }
    tally(c, &base);
    c.distinct(hash_events(&ev));
    c.sample(|| format!("{} at {f} Hz: {} edges, same {} results from all event front ends", p.name(), ev.len(), base.iter().filter(|o| **o != Out::None).count()));
    Ok(())
}

/// A signal of more than 2^16 edges and frames through every front end
fn c06_long(c: &mut Case) -> Res {
    let p = ALL[(c.idx % 9) as usize];
    let f = 40_000;
    let w = Wins::new(p, f);
    let mut fronts: Vec<(Front, Box<dyn Rx>)> = FRONTS.iter().map(|k| (*k, front(p, f, *k))).collect();
    let mut whole: Vec<u32> = vec![];
    let mut want: Vec<K> = vec![];
    let mut n = 0u64;
    let mut low = true;
    while n < 70_000 {
        let t = tokens(p, &w, 6, &mut c.rng, false);
        let mut ev = to_events(p, &w, &t, w.quiet(), true, &mut c.rng);
        if !low {
            ev.insert(0, (1, false));
        }
        for e in ev.iter_mut() {
            e.0 = e.0.clamp(1, 3 * w.quiet());
        }
        low = !ev[ev.len() - 1].1;
        let mut base: Option<Vec<Out>> = None;
        for (k, r) in fronts.iter_mut() {
            let o = feed(&mut **r, &ev);
            match &base {
                None => base = Some(o),
                Some(b) => {
                    if let Some(i) = diff(b, &o) {
                        fail!("{} at {f} Hz, after {n} edges: edge {i}: event receiver {:?}, {k:?} {:?}\nevents: {}", p.name(), b.get(i), o.get(i), show(&ev));
                    }
                }
            }
        }
        let b = base.unwrap();
        want.extend(commands(&b));
        tally(c, &b);
        whole.extend(ev.iter().map(|e| e.0 as u32));
        n += ev.len() as u64;
    }
    let got: Vec<K> = with_proto!(p, T => {
        let mut r = BufferInputReceiver::<T>::with_frequenzy(f);
        r.iter(&whole).map(|k| k.canon()).collect()
    });
    if got != want {
        let i = (0..got.len().max(want.len())).find(|i| got.get(*i) != want.get(*i)).unwrap();
        fail!("{} buffer receiver at {f} Hz, {} entries: command {i} is {:?}, event receiver {:?} ({} and {} in all)", p.name(), whole.len(), got.get(i), want.get(i), got.len(), want.len());
    }
    c.count("long_edges", n);
    c.enumerated(1);
    Ok(())
}

fn c06_buffer(c: &mut Case) -> Res {
    let p = ALL[(c.idx % 9) as usize];
    let f = if c.rng.chance(1, 4) { 1_000_000 } else { random_freq(p, &mut c.rng) };
    let w = Wins::new(p, f);
    let segs = c.rng.range(1, 10);
    let t = tokens(p, &w, segs, &mut c.rng, true);
    let mut ev = to_events(p, &w, &t, if c.rng.bool() { 0 } else { pause(&w, &mut c.rng) }, false, &mut c.rng);
    if p == P::Apple && c.rng.bool() {
        // frames that are complete but not valid
        let mut word = nec_word(&random_frame(p, &mut c.rng).k);
        word ^= 1 << c.rng.range(0, 31);
        if ev.len() % 2 == 1 {
            ev.push((3, false));
        }
        let (e, _) = play_frame(&nec_frame_word(p, word), &w, pause(&w, &mut c.rng), Jit::Any, Marks::Nominal, &mut c.rng);
        ev.extend(e);
        let (e, _) = play_frame(&random_frame(p, &mut c.rng), &w, pause(&w, &mut c.rng), Jit::Any, Marks::Nominal, &mut c.rng);
        ev.extend(e);
    }
    let base = feed(&mut *front(p, f, Front::Event), &ev);
    let want = commands(&base);
    let b32: Vec<u32> = ev.iter().map(|e| e.0 as u32).collect();
    let b64: Vec<u64> = ev.iter().map(|e| e.0).collect();
    let mut got: Vec<(&str, Vec<K>)> = vec![];
    with_proto!(p, T => {
        let mut r = BufferInputReceiver::<T>::with_frequenzy(f);
        got.push(("iter", r.iter(&b32).map(|k| k.canon()).collect()));
        // a second pass over the same receiver
        got.push(("iter again", r.iter(&b32).map(|k| k.canon()).collect()));
        got.push(("iter_with", r.iter_with::<T, u32, _>(f, &b32).map(|k: <T as infrared::Protocol>::Cmd| k.canon()).collect()));
        let mut r = BufferInputReceiver::<T, u64>::with_frequenzy(f);
        got.push(("iter u64", r.iter(&b64).map(|k| k.canon()).collect()));
        if f == 1_000_000 {
            let mut r = BufferInputReceiver::<T>::new();
            got.push(("new", r.iter(&b32).map(|k| k.canon()).collect()));
            let mut r = BufferInputReceiver::<T>::default();
            got.push(("default", r.iter(&b32).map(|k| k.canon()).collect()));
        }
        // the iterator is fused at the end of the buffer
        let mut r = BufferInputReceiver::<T>::with_frequenzy(f);
        let mut it = r.iter(&b32);
        let n = it.by_ref().count();
        if n != want.len() || it.next().is_some() {
            fail!("{} buffer iterator: {n} commands or more after the end", p.name());
        }
        // left early, then another buffer: nothing is carried over
        let cut = c.rng.below(b32.len() as u64 + 1) as usize;
        {
            let mut it = r.iter(&b32[..cut]);
            it.next();
        }
        got.push(("after an abandoned pass", r.iter(&b32).map(|k| k.canon()).collect()));
        // the other ways through an iterator
        let n = c.rng.below(want.len() as u64 + 2) as usize;
        let mut it = r.iter(&b32);
        let x = it.nth(n).map(|k| k.canon());
        if x != want.get(n).cloned() {
            fail!("{} buffer iterator at {f} Hz: nth({n}) is {x:?}, of {want:?}\nevents: {}", p.name(), show(&ev));
        }
        let mut v: Vec<K> = want.iter().take(n + 1).cloned().collect();
        v.extend(it.map(|k| k.canon()));
        got.push(("after nth", v));
        let x = r.iter(&b32).last().map(|k| k.canon());
        if x != want.last().cloned() {
            fail!("{} buffer iterator at {f} Hz: last() is {x:?}, of {want:?}\nevents: {}", p.name(), show(&ev));
        }
        let mut it = r.iter(&b32);
        for left in (0..=want.len()).rev() {
            let (lo, hi) = it.size_hint();
            if lo > left || hi.map_or(false, |h| h < left) {
                fail!("{} buffer iterator at {f} Hz: size_hint {:?} with {left} commands left\nevents: {}", p.name(), (lo, hi), show(&ev));
            }
            it.next();
        }
        let mut v: Vec<K> = vec![];
        r.iter(&b32).for_each(|k| v.push(k.canon()));
        got.push(("for_each", v));
        c.count("iterator_forms", 1);
    });
    for (n, g) in got {
        if g != want {
            fail!("{} buffer receiver ({n}) at {f} Hz: {g:?}\nevent receiver: {want:?}\nevents: {}", p.name(), show(&ev));
        }
    }
    if let Some(e) = base.iter().position(|o| matches!(o, Out::Err(_))) {
        let after = base[e..].iter().filter(|o| matches!(o, Out::Cmd(_))).count() as u64;
        c.count("buffer_commands_after_error", after);
    }
    tally(c, &base);
    c.count("buffers", 1);
    c.distinct(hash_events(&ev));
    Ok(())
}

// ------------------------------------------------------------------ C07

fn c07() -> Property {
    Property {
        id: "C07",
        rule: "distinct (signal, time type, tick rate, start instant) runs by hash; start instants include every kind of position relative to a wrap of the 32-bit clock, and the poll counter is really driven past 2^32 polls",
        assumptions: &[
            "intervals within about one tick of a tolerance limit are not used when comparing fugit with plain ticks (the conversions round differently)",
            "with 32-bit clocks pauses are shorter than half the range of the clock; longer ones are used with 64-bit time",
        ],
        required: &["wraps_inside_frame", "commands_compared", "poll_wraps", "wide_intervals", "user_clocks", "user_clock_wraps", "backward_stamps"],
        workloads: vec![
            Workload { name: "types", quick: 180_000, thorough: 3_000_000, f: c07_types },
            Workload { name: "wrap", quick: 300_000, thorough: 6_000_000, f: c07_wrap },
            Workload { name: "wide", quick: 120_000, thorough: 2_500_000, f: c07_wide },
            Workload { name: "clocks", quick: 120_000, thorough: 2_500_000, f: crate::p_iso::c07_clocks },
            Workload { name: "backwards", quick: 120_000, thorough: 2_500_000, f: crate::p_iso::c07_backwards },
            Workload { name: "pollwrap", quick: 9, thorough: 18, f: c07_pollwrap },
        ],
    }
}

#[derive(Clone, Copy, Debug, PartialEq)]
enum Mode {
    Dur,
    Inst(u64),
    PinInst(u64),
}

fn run_m<T: DecoderBuilder<M>, M: Mono>(f: u32, ev: &[Ev], m: Mode) -> Vec<Out>
where
    T::Cmd: Canon,
{
    match m {
        Mode::Dur => feed(&mut ByEvent::<T, M>(Receiver::new(f)), ev),
        Mode::Inst(s) => feed(&mut ByInstant::<T, M>(Receiver::new(f), s), ev),
        Mode::PinInst(s) => {
            let pin = Pin::default();
            feed(&mut ByPinInstant::<T, M>(Receiver::with_pin(f, pin.clone()), pin, s), ev)
        }
    }
}

type Runs = Vec<(&'static str, Mode, Vec<Out>)>;

fn runs<const HZ: u32>(p: P, ev: &[Ev], modes: &[Mode]) -> Runs {
    let mut v = vec![];
    with_proto!(p, T => {
        for m in modes {
            v.push(("u32", *m, run_m::<T, u32>(HZ, ev, *m)));
            v.push(("u64", *m, run_m::<T, u64>(HZ, ev, *m)));
            v.push(("fugit u32", *m, run_m::<T, TimerInstantU32<HZ>>(HZ, ev, *m)));
            v.push(("fugit u64", *m, run_m::<T, TimerInstantU64<HZ>>(HZ, ev, *m)));
        }
        if HZ == 40_000 {
            // the same rate given as a period
            for m in modes {
                v.push(("fugit u32 period 25 us", *m, run_m::<T, fugit::Instant<u32, 25, 1_000_000>>(HZ, ev, *m)));
                v.push(("fugit u64 period 25 us", *m, run_m::<T, fugit::Instant<u64, 25, 1_000_000>>(HZ, ev, *m)));
            }
        }
    });
    v
}

const RATES: [(u32, fn(P, &[Ev], &[Mode]) -> Runs); 18] = [
    (20_000, runs::<20_000>),
    (44_100, runs::<44_100>),
    (76_923, runs::<76_923>),
    (3_276_800, runs::<3_276_800>),
    (125_000_000, runs::<125_000_000>),
    (32_768, runs::<32_768>),
    (40_000, runs::<40_000>),
    (48_000, runs::<48_000>),
    (100_000, runs::<100_000>),
    (250_000, runs::<250_000>),
    (333_333, runs::<333_333>),
    (1_000_000, runs::<1_000_000>),
    (1_843_200, runs::<1_843_200>),
    (2_000_000, runs::<2_000_000>),
    (8_000_000, runs::<8_000_000>),
    (16_000_000, runs::<16_000_000>),
    (72_000_000, runs::<72_000_000>),
    (168_000_000, runs::<168_000_000>),
];

pub fn c07_signal(c: &mut Case, p: P, w: &Wins) -> Vec<Ev> {
    let segs = c.rng.range(1, 6);
    let t = tokens(p, w, segs, &mut c.rng, true);
    to_events(p, w, &t, w.quiet(), false, &mut c.rng)
}

fn c07_compare(c: &mut Case, p: P, f: u32, ev: &[Ev], rs: &Runs) -> Res {
    let base = &rs[0].2;
    for (n, m, o) in rs {
        if let Some(i) = diff(base, o) {
            fail!(
                "{} at {f} Hz: edge {i}: u32 ticks by interval {:?}, {n} {m:?} {:?}\nevents: {}",
                p.name(), base.get(i), o.get(i), show(ev)
            );
        }
    }
    tally(c, base);
    Ok(())
}

fn c07_types(c: &mut Case) -> Res {
    let p = ALL[(c.idx % 9) as usize];
    let (f, run) = *c.rng.pick(&RATES);
    let w = Wins::new(p, f);
    if !w.supported() {
        return Ok(());
    }
    let ev = c07_signal(c, p, &w);
    let rs = run(p, &ev, &[Mode::Dur, Mode::Inst(0), Mode::PinInst(0)]);
    c.distinct(hash64(&[hash_events(&ev), f as u64]));
    c.sample(|| format!("{} at {f} Hz: {} edges, same results for u32, u64, fugit u32 and fugit u64", p.name(), ev.len()));
    c07_compare(c, p, f, &ev, &rs)
}

fn c07_wrap(c: &mut Case) -> Res {
    let p = ALL[(c.idx % 9) as usize];
    let (f, run) = *c.rng.pick(&RATES);
    let w = Wins::new(p, f);
    if !w.supported() {
        return Ok(());
    }
    // bring the clock to `start`, then send
    let mut ev = c07_signal(c, p, &w);
    let q = w.quiet();
    let total: u64 = ev.iter().map(|e| e.0.min(q)).sum();
    let start = match c.rng.below(4) {
        0 => c.rng.range(2 * q, (1 << 32) - 1),
        _ => (1u64 << 32) - c.rng.range(1, total + q).min((1 << 32) - 2 * q),
    };
    // first edge: at start (from instant 0 in at most half-range steps)
    let mut head: Vec<Ev> = vec![];
    let mut at = 0u64;
    while start - at > (1 << 31) - 1 {
        head.push(((1 << 31) - 1 - q, false));
        at += (1 << 31) - 1 - q;
    }
    head.push((start - at, false));
    if start - at < q {
        // keep intervals unambiguous
        let n = head.len();
        head[n - 1].0 += q;
    }
    head.extend(ev.iter());
    ev = head;
    // does the 32-bit clock wrap inside a frame
    let mut t = 0u64;
    for (d, _) in &ev {
        let a = t >> 32;
        t += d;
        if t >> 32 != a && *d < q {
            c.count("wraps_inside_frame", 1);
        }
    }
    let rs = run(p, &ev, &[Mode::Dur, Mode::Inst(0), Mode::PinInst(0)]);
    c.distinct(hash64(&[hash_events(&ev), f as u64]));
    c07_compare(c, p, f, &ev, &rs)
}

fn wides<const HZ: u32>(p: P, ev: &[Ev], start: u64) -> Runs {
    let mut v = vec![];
    with_proto!(p, T => {
        for m in [Mode::Dur, Mode::Inst(start), Mode::PinInst(start)] {
            v.push(("u64", m, run_m::<T, u64>(HZ, ev, m)));
            v.push(("fugit u64", m, run_m::<T, TimerInstantU64<HZ>>(HZ, ev, m)));
        }
    });
    v
}

const WIDES: [(u32, fn(P, &[Ev], u64) -> Runs); 5] = [
    (40_000, wides::<40_000>),
    (100_000, wides::<100_000>),
    (1_000_000, wides::<1_000_000>),
    (2_000_000, wides::<2_000_000>),
    (48_000_000, wides::<48_000_000>),
];

/// 64-bit time: intervals and clocks far beyond 32 bits. Any such interval is
/// just a long one: the same as the longest 32-bit one
fn c07_wide(c: &mut Case) -> Res {
    let p = ALL[(c.idx % 9) as usize];
    let (f, run) = *c.rng.pick(&WIDES);
    let w = Wins::new(p, f);
    if !w.supported() {
        return Ok(());
    }
    let mut ev = c07_signal(c, p, &w);
    let n = c.rng.range(1, 4);
    for _ in 0..n {
        let i = if c.rng.bool() {
            // a pause, or any interval of a frame
            let v: Vec<usize> = (0..ev.len()).filter(|i| ev[*i].0 >= w.quiet()).collect();
            if v.is_empty() { 0 } else { *c.rng.pick(&v) }
        } else {
            c.rng.below(ev.len() as u64) as usize
        };
        let k = 1u64 << c.rng.below(8);
        ev[i].0 = match c.rng.below(4) {
            // the low half looks like a pulse
            0 => ev[i].0 + (k << 32),
            1 => pick_ticks(&w.w[c.rng.below(w.w.len() as u64) as usize], Jit::Any, &mut c.rng) + (k << 32),
            2 => k << 32,
            _ => c.rng.range(1 << 32, 1 << 40),
        };
        c.count("wide_intervals", 1);
    }
    let start = match c.rng.below(4) {
        0 => 0,
        1 => (1u64 << 32) * c.rng.range(1, 1000),
        2 => c.rng.range(0, 1 << 60),
        _ => (1u64 << 62) - c.rng.below(1 << 33),
    };
    let cut: Vec<Ev> = ev.iter().map(|(d, e)| ((*d).min(u32::MAX as u64), *e)).collect();
    let base = with_proto!(p, T => feed(&mut ByEvent::<T, u32>(Receiver::new(f)), &cut));
    // the first interval by timestamp is the start of the clock: only there the runs may differ
    let mut rs: Runs = vec![("u32", Mode::Dur, base)];
    rs.extend(run(p, &ev, start));
    c.distinct(hash64(&[hash_events(&ev), f as u64, start]));
    c07_compare(c, p, f, &ev, &rs)
}

/// Drive the poll counter past 2^32
fn c07_pollwrap(c: &mut Case) -> Res {
    let p = ALL[(c.idx % 9) as usize];
    let f = *c.rng.pick(&[32_768u32, 40_000]);
    let w = Wins::new(p, f);
    let fr = random_frame(p, &mut c.rng);
    let (ev, done) = play_frame(&fr, &w, w.quiet(), Jit::Any, Marks::Nominal, &mut c.rng);
    let total: u64 = ev.iter().map(|e| e.0).sum();
    let before = (1u64 << 32) - c.rng.range(w.quiet() + 1, total - 1);
    with_proto!(p, T => {
        let mut r = PeriodicPoll::<T>::new(f);
        for _ in 0..before {
            if !matches!(r.poll(false), Ok(None)) {
                fail!("{} polled: a result while idle", p.name());
            }
        }
        let mut b = ByPoll(r, false);
        let o = feed(&mut b, &ev);
        let want: Vec<Out> = (0..ev.len()).map(|i| if i == done { Out::Cmd(fr.k) } else { Out::None }).collect();
        if let Some(i) = diff(&want, &o) {
            fail!("{} polled at {f} Hz, counter wrapping {} polls into the frame: edge {i}: {:?}, expected {:?}\nevents: {}",
                p.name(), (1u64 << 32) - before, o.get(i), want.get(i), show(&ev));
        }
    });
    c.count("poll_wraps", 1);
    c.count("polls", 1 << 32);
    c.distinct(hash_events(&ev));
    Ok(())
}

// ------------------------------------------------------------------ C10

fn c10() -> Property {
    Property {
        id: "C10",
        rule: "distinct (signal, failure pattern) runs by hash: failing reads inserted between or replacing calls, singly and in bursts, at every kind of position, in every front end that owns a pin",
        assumptions: &["a failed call is one whose pin read returns an error"],
        required: &["pin_failures", "commands_compared", "poll_failures", "multi_failures"],
        workloads: vec![
            Workload { name: "event", quick: 450_000, thorough: 9_000_000, f: c10_event },
            Workload { name: "poll", quick: 37_500, thorough: 480_000, f: c10_poll },
            Workload { name: "remote", quick: 90_000, thorough: 1_200_000, f: c10_builder },
            Workload { name: "multi", quick: 60_000, thorough: 1_500_000, f: crate::p_multi::c10_multi },
        ],
    }
}

/// Calls: Ok(event) or a failing call with that dt and level
fn with_faults(c: &mut Case, ev: &[Ev]) -> Vec<Result<Ev, (Ev, u32)>> {
    let mut v = vec![];
    let rate = *c.rng.pick(&[1u64, 3, 10, 40]);
    let replace = c.rng.bool();
    let burst_at = c.rng.below(ev.len() as u64) as usize;
    let burst = match c.rng.below(100_000) {
        0 => 70_000,
        1..=300 => c.rng.range(250, 1100),
        301..=5000 => c.rng.range(12, 70),
        _ => c.rng.range(1, 12),
    };
    for (i, e) in ev.iter().enumerate() {
        let n = if i == burst_at { burst } else { c.rng.chance(rate, 40) as u64 };
        for _ in 0..n {
            let d = match c.rng.below(4) {
                0 => 0,
                1 => e.0,
                2 => c.rng.next() & 0xffff_ffff,
                _ => e.0 / 2,
            };
            v.push(Err(((d, c.rng.bool()), c.rng.u32())));
        }
        if replace && c.rng.chance(1, 60) {
            v.push(Err((*e, c.rng.u32())));
        } else {
            v.push(Ok(*e));
        }
    }
    v
}

fn c10_event(c: &mut Case) -> Res {
    let p = ALL[(c.idx % 9) as usize];
    let f = random_freq(p, &mut c.rng);
    let w = Wins::new(p, f);
    let segs = c.rng.range(1, 5);
    let t = tokens(p, &w, segs, &mut c.rng, true);
    let ev = to_events(p, &w, &t, w.quiet(), false, &mut c.rng);
    let calls = with_faults(c, &ev);
    let seen: Vec<Ev> = calls.iter().filter_map(|x| x.ok()).collect();
    let instant = c.rng.bool();
    let (mut nf, mut ncmd) = (0, 0);
    with_proto!(p, T => {
        let pin = Pin::default();
        let mut r: Receiver<T, Pin> = Receiver::with_pin(f, pin.clone());
        let mut want = ByEvent::<T, u32>(Receiver::new(f));
        let mut clock = 0u32;
        let mut done: Vec<Ev> = vec![];
        for (i, call) in calls.iter().enumerate() {
            match call {
                Ok((d, e)) => {
                    pin.fail.set(None);
                    pin.mark.set(*e);
                    clock = clock.wrapping_add(*d as u32);
                    let o = out_pin(if instant { r.event_instant(clock) } else { r.event(*d as u32) });
                    let x = want.ev(*d, *e);
                    done.push((*d, *e));
                    if matches!(x, Out::Cmd(_)) { ncmd += 1; }
                    if o != x {
                        fail!("{} at {f} Hz: call {i}: {o:?}, but without the failed calls {x:?}\ncalls that succeeded: {}\n{} failed before", p.name(), show(&done), nf);
                    }
                }
                Err(((d, e), n)) => {
                    pin.fail.set(Some(*n));
                    pin.mark.set(*e);
                    let t = clock.wrapping_add(*d as u32);
                    let o = out_pin(if instant { r.event_instant(t) } else { r.event(*d as u32) });
                    nf += 1;
                    if o != Out::Pin(*n) {
                        fail!("{} at {f} Hz: call {i}: pin failed with {n}, got {o:?}", p.name());
                    }
                }
            }
        }
    });
    c.count("pin_failures", nf);
    c.count("commands_compared", ncmd);
    c.distinct(hash64(&[hash_events(&seen), nf, c.idx]));
    c.sample(|| format!("{} at {f} Hz: {nf} failed reads among {} calls, {ncmd} commands as without them", p.name(), calls.len()));
    Ok(())
}

fn c10_poll(c: &mut Case) -> Res {
    let p = ALL[(c.idx % 9) as usize];
    let f = *c.rng.pick(&[32_768u32, 40_000]);
    let w = Wins::new(p, f);
    let segs = c.rng.range(1, 3);
    let t = tokens(p, &w, segs, &mut c.rng, false);
    let mut ev = to_events(p, &w, &t, 50, true, &mut c.rng);
    for e in ev.iter_mut() {
        e.0 = e.0.clamp(1, 2 * w.quiet());
    }
    // extra failing polls and replaced polls
    let burst_at = c.rng.below(ev.len() as u64) as usize;
    let burst = match c.rng.below(5000) {
        0 => 70_000,
        1..=100 => c.rng.range(250, 1100),
        101..=1000 => c.rng.range(10, 70),
        _ => 0,
    };
    let rate = *c.rng.pick(&[2u64, 20, 300]);
    let (mut nf, mut ncmd) = (0, 0);
    with_proto!(p, T => {
        let pin = Pin::default();
        let mut r: PeriodicPoll<T, Pin> = PeriodicPoll::with_pin(f, pin.clone());
        let mut want = PeriodicPoll::<T>::new(f);
        let mut level = false;
        for (n, (d, e)) in ev.iter().enumerate() {
            for i in 0..*d {
                let last = i + 1 == *d;
                let l = if last { *e } else { level };
                let fails = if n == burst_at && i == 0 { burst } else { (c.rng.chance(1, rate) || (last && c.rng.chance(1, 20))) as u64 };
                for _ in 0..fails {
                    let code = c.rng.u32();
                    pin.fail.set(Some(code));
                    pin.mark.set(c.rng.bool());
                    let o = out_pin(r.poll());
                    nf += 1;
                    if o != Out::Pin(code) {
                        fail!("{} polled: pin failed with {code}, got {o:?}", p.name());
                    }
                }
                pin.fail.set(None);
                pin.mark.set(l);
                let a = out_pin(r.poll());
                let b = out(want.poll(l));
                if matches!(b, Out::Cmd(_)) { ncmd += 1; }
                if a != b {
                    fail!("{} polled at {f} Hz: edge {n}: {a:?}, but without the {nf} failed polls {b:?}\nevents: {}", p.name(), show(&ev));
                }
            }
            level = *e;
        }
    });
    c.count("poll_failures", nf);
    c.count("pin_failures", nf);
    c.count("commands_compared", ncmd);
    c.distinct(hash64(&[hash_events(&ev), c.idx]));
    Ok(())
}

/// Fugit time, remote control commands
fn c10_builder(c: &mut Case) -> Res {
    use infrared::protocol::SamsungNec;
    use infrared::remotecontrol::nec::SamsungTv;
    use infrared::remotecontrol::Button;
    let p = P::Sam;
    let w = Wins::new(p, 1_000_000);
    let segs = c.rng.range(1, 4);
    let t = tokens(p, &w, segs, &mut c.rng, true);
    let ev = to_events(p, &w, &t, w.quiet(), false, &mut c.rng);
    let calls = with_faults(c, &ev);
    let pin = Pin::default();
    type T32 = TimerInstantU32<1_000_000>;
    let mut r: Receiver<SamsungNec, Pin, T32, Button<SamsungTv>> = Receiver::with_fugit(pin.clone());
    let mut want: Receiver<SamsungNec, NoPin, T32, Button<SamsungTv>> = Receiver::new(1_000_000);
    let mut clock = 0u64;
    let mut nf = 0;
    for call in &calls {
        match call {
            Ok((d, e)) => {
                pin.fail.set(None);
                pin.mark.set(*e);
                clock += d;
                let a = r.event_instant(<T32 as Mono>::inst(clock));
                let b = want.event_instant(<T32 as Mono>::inst(clock), *e);
                let a = format!("{a:?}");
                let b = match b {
                    Ok(x) => format!("Ok({x:?})"),
                    Err(e) => format!("Err({e:?})"),
                };
                if a.contains("cmd:") {
                    c.count("commands_compared", 1);
                }
                if a != b {
                    fail!("samsung with remote control: {a}, but without the failed calls {b}\nevents: {}", show(&ev));
                }
            }
            Err(((d, e), n)) => {
                pin.fail.set(Some(*n));
                pin.mark.set(*e);
                nf += 1;
                let a = r.event_instant(<T32 as Mono>::inst(clock + d));
                if !matches!(a, Err(infrared::receiver::Error::Hal(x)) if x == *n) {
                    fail!("pin failed with {n}, got {a:?}");
                }
            }
        }
    }
    c.count("pin_failures", nf);
    c.distinct(hash64(&[hash_events(&ev), c.idx]));
    Ok(())
}

// ------------------------------------------------------------------ C16

fn c16() -> Property {
    Property {
        id: "C16",
        rule: "distinct (builder chain, protocol, frequency, signal) combinations; the chains are all orders of the settings",
        assumptions: &["a remote control is chosen after its protocol"],
        required: &["chains", "commands_compared", "polled_chains", "remote_chains", "pins_released"],
        workloads: vec![
            Workload { name: "orders", quick: 90_000, thorough: 1_200_000, f: c16_orders },
            Workload { name: "named", quick: 90_000, thorough: 1_200_000, f: c16_named },
            Workload { name: "polled", quick: 5_400, thorough: 120_000, f: c16_polled },
            Workload { name: "remote", quick: 80_000, thorough: 800_000, f: c16_remote },
            Workload { name: "pins", quick: 40_000, thorough: 400_000, f: c16_pins },
        ],
    }
}

fn c16_signal(c: &mut Case, p: P, f: u32) -> Vec<Ev> {
    let w = Wins::new(p, f);
    let segs = c.rng.range(2, 6);
    let t = tokens(p, &w, segs, &mut c.rng, true);
    to_events(p, &w, &t, w.quiet(), false, &mut c.rng)
}

macro_rules! chains {
    ($f:ident, $pin:ident, $M:ty, $T:ty; $($name:literal : $($m:ident)+ ;)*) => {{
        let mut v: Vec<(&'static str, Receiver<$T, Pin, $M>, Pin)> = vec![];
        $(
            let $pin = Pin::default();
            let b = infrared::receiver();
            $( let b = chains!(@ $m b $f $pin $M, $T); )+
            let r: Receiver<$T, Pin, $M> = b.build();
            v.push(($name, r, $pin));
        )*
        v
    }};
    (@ freq $b:ident $f:ident $pin:ident $M:ty, $T:ty) => { $b.frequency($f) };
    (@ wrong $b:ident $f:ident $pin:ident $M:ty, $T:ty) => { $b.frequency(7_777) };
    (@ proto $b:ident $f:ident $pin:ident $M:ty, $T:ty) => { $b.protocol::<$T>() };
    (@ other $b:ident $f:ident $pin:ident $M:ty, $T:ty) => { $b.denon() };
    (@ mono $b:ident $f:ident $pin:ident $M:ty, $T:ty) => { $b.monotonic::<$M>() };
    (@ mono2 $b:ident $f:ident $pin:ident $M:ty, $T:ty) => { $b.monotonic::<u64>() };
    (@ pin $b:ident $f:ident $pin:ident $M:ty, $T:ty) => { $b.pin($pin.clone()) };
    (@ pin2 $b:ident $f:ident $pin:ident $M:ty, $T:ty) => { $b.pin(Pin::default()) };
}

fn order_chains<T: DecoderBuilder<M>, M: Mono>(f: u32) -> Vec<(&'static str, Receiver<T, Pin, M>, Pin)> {
    chains! { f, pin, M, T;
        "freq proto mono pin": freq proto mono pin;
        "freq proto pin mono": freq proto pin mono;
        "freq mono proto pin": freq mono proto pin;
        "freq mono pin proto": freq mono pin proto;
        "freq pin proto mono": freq pin proto mono;
        "freq pin mono proto": freq pin mono proto;
        "proto freq mono pin": proto freq mono pin;
        "proto freq pin mono": proto freq pin mono;
        "proto mono freq pin": proto mono freq pin;
        "proto mono pin freq": proto mono pin freq;
        "proto pin freq mono": proto pin freq mono;
        "proto pin mono freq": proto pin mono freq;
        "mono freq proto pin": mono freq proto pin;
        "mono freq pin proto": mono freq pin proto;
        "mono proto freq pin": mono proto freq pin;
        "mono proto pin freq": mono proto pin freq;
        "mono pin freq proto": mono pin freq proto;
        "mono pin proto freq": mono pin proto freq;
        "pin freq proto mono": pin freq proto mono;
        "pin freq mono proto": pin freq mono proto;
        "pin proto freq mono": pin proto freq mono;
        "pin proto mono freq": pin proto mono freq;
        "pin mono freq proto": pin mono freq proto;
        "pin mono proto freq": pin mono proto freq;
        "set twice": wrong other mono2 pin2 freq proto mono pin;
        "set twice, other order": pin2 mono2 other wrong pin mono proto freq;
    }
}

fn orders_for<T: DecoderBuilder<M>, M: Mono>(c: &mut Case, p: P, f: u32, ev: &[Ev]) -> Res
where
    T::Cmd: Canon,
{
    let want = feed(&mut ByEvent::<T, M>(Receiver::new(f)), ev);
    for (name, r, pin) in order_chains::<T, M>(f) {
        let mut x = ByPin(r, pin);
        let o = feed(&mut x, ev);
        if let Some(i) = diff(&want, &o) {
            fail!("{} ({}) built by [{name}] at {f} Hz: edge {i}: {:?}, constructed directly: {:?}\nevents: {}", p.name(), M::NAME, o.get(i), want.get(i), show(ev));
        }
        c.count("chains", 1);
        c.evals(1);
    }
    tally(c, &want);
    Ok(())
}

fn c16_orders(c: &mut Case) -> Res {
    let p = ALL[(c.idx % 9) as usize];
    let mono = c.rng.below(4);
    let f = if mono >= 2 { 100_000 } else { random_freq(p, &mut c.rng) };
    let ev = c16_signal(c, p, f);
    c.distinct(hash64(&[hash_events(&ev), f as u64, mono]));
    with_proto!(p, T => match mono {
        0 => orders_for::<T, u32>(c, p, f, &ev),
        1 => orders_for::<T, u64>(c, p, f, &ev),
        2 => orders_for::<T, TimerInstantU32<100_000>>(c, p, f, &ev),
        _ => orders_for::<T, TimerInstantU64<100_000>>(c, p, f, &ev),
    })
}

/// The protocol methods, default frequency, and direct constructors
fn c16_named(c: &mut Case) -> Res {
    let p = ALL[(c.idx % 9) as usize];
    let f = if c.rng.chance(1, 3) { 1_000_000 } else { random_freq(p, &mut c.rng) };
    let ev = c16_signal(c, p, f);
    let base = feed(&mut *rx(p, f), &ev);
    let mut got: Vec<(&'static str, Vec<Out>)> = vec![];
    macro_rules! named {
        ($T:ty, $m:ident) => {{
            let r: Receiver<$T, NoPin> = infrared::receiver().$m().frequency(f).build();
            got.push(("named, freq", feed(&mut ByEvent::<$T, u32>(r), &ev)));
            let r: Receiver<$T, NoPin> = infrared::receiver().frequency(f).$m().build();
            got.push(("freq, named", feed(&mut ByEvent::<$T, u32>(r), &ev)));
            let r: Receiver<$T, NoPin, u64> = infrared::receiver().frequency(f).$m().monotonic::<u64>().build();
            got.push(("freq, named, mono", feed(&mut ByEvent::<$T, u64>(r), &ev)));
            let r: Receiver<$T, NoPin, u64> = infrared::receiver().monotonic::<u64>().$m().frequency(f).build();
            got.push(("mono, named, freq", feed(&mut ByInstant::<$T, u64>(r, 0), &ev)));
            let r: Receiver<$T, NoPin> = infrared::receiver().frequency(3).$m().frequency(f).build();
            got.push(("freq twice", feed(&mut ByEvent::<$T, u32>(r), &ev)));
            if f == 1_000_000 {
                let r: Receiver<$T, NoPin> = infrared::receiver().$m().build();
                got.push(("default frequency", feed(&mut ByEvent::<$T, u32>(r), &ev)));
                let r: Receiver<$T, NoPin> = infrared::receiver::Builder::default().$m().build();
                got.push(("Builder::default", feed(&mut ByEvent::<$T, u32>(r), &ev)));
            }
        }};
    }
    use infrared::protocol::*;
    match p {
        P::Nec => named!(Nec, nec),
        P::Nec16 => named!(Nec16, nec16),
        P::Sam => named!(SamsungNec, nec_samsung),
        P::Apple => named!(AppleNec, nec_apple),
        P::Rc5 => named!(Rc5, rc5),
        P::Rc6 => named!(Rc6, rc6),
        P::Sbp => named!(Sbp, samsung_bluray),
        P::Denon => named!(Denon, denon),
        P::Dbg => {
            let r: Receiver<NecDebug, NoPin> = infrared::receiver().protocol::<NecDebug>().frequency(f).build();
            got.push(("protocol", feed(&mut ByEvent::<NecDebug, u32>(r), &ev)));
        }
    }
    with_proto!(p, T => {
        let pin = Pin::default();
        got.push(("with_input", feed(&mut ByPin::<T, u32>(Receiver::with_input(f, pin.clone()), pin), &ev)));
        let pin = Pin::default();
        got.push(("with_pin", feed(&mut ByPin::<T, u32>(Receiver::with_pin(f, pin.clone()), pin), &ev)));
        if f == 1_000_000 {
            let pin = Pin::default();
            got.push(("with_fugit", feed(&mut ByPin::<T, TimerInstantU32<1_000_000>>(Receiver::with_fugit(pin.clone()), pin), &ev)));
            let pin = Pin::default();
            got.push(("with_fugit64", feed(&mut ByPin::<T, TimerInstantU64<1_000_000>>(Receiver::with_fugit64(pin.clone()), pin), &ev)));
        }
    });
    for (n, o) in got {
        if let Some(i) = diff(&base, &o) {
            fail!("{} at {f} Hz built by [{n}]: edge {i}: {:?}, constructed directly: {:?}\nevents: {}", p.name(), o.get(i), base.get(i), show(&ev));
        }
        c.count("chains", 1);
    }
    tally(c, &base);
    c.distinct(hash64(&[hash_events(&ev), f as u64]));
    c.sample(|| format!("{} at {f} Hz: builder chains and constructors agree on {} edges", p.name(), ev.len()));
    Ok(())
}

fn c16_polled(c: &mut Case) -> Res {
    let p = ALL[(c.idx % 9) as usize];
    let f = match c.rng.below(4) {
        0 => *c.rng.pick(&[32_768u32, 40_000, 44_100, 100_000]),
        1 => c.rng.range(40_000, 3_000_000) as u32,
        // the default
        _ => 1_000_000,
    };
    let w = Wins::new(p, f);
    let t = tokens(p, &w, 2, &mut c.rng, false);
    let mut ev = to_events(p, &w, &t, 50, true, &mut c.rng);
    for e in ev.iter_mut() {
        e.0 = e.0.clamp(1, 2 * w.quiet());
    }
    let base = feed(&mut *rx(p, f), &ev);
    let mut got: Vec<(&'static str, Vec<Out>)> = vec![];
    with_proto!(p, T => {
        let r: PeriodicPoll<T> = infrared::receiver().protocol::<T>().frequency(f).build_polled();
        got.push(("proto freq", feed(&mut ByPoll(r, false), &ev)));
        let r: PeriodicPoll<T> = infrared::receiver().frequency(f).protocol::<T>().build_polled();
        got.push(("freq proto", feed(&mut ByPoll(r, false), &ev)));
        let r: PeriodicPoll<T> = infrared::receiver().frequency(f).monotonic::<u64>().protocol::<T>().build_polled();
        got.push(("freq mono proto", feed(&mut ByPoll(r, false), &ev)));
        let pin = Pin::default();
        let r: PeriodicPoll<T, Pin> = infrared::receiver().pin(pin.clone()).frequency(f).protocol::<T>().build_polled();
        got.push(("pin freq proto", feed(&mut ByPollPin(r, pin), &ev)));
        let pin = Pin::default();
        let r: PeriodicPoll<T, Pin> = infrared::receiver().protocol::<T>().frequency(1).frequency(f).pin(Pin::default()).pin(pin.clone()).build_polled();
        got.push(("proto freq freq pin pin", feed(&mut ByPollPin(r, pin), &ev)));
        if f == 1_000_000 {
            let r: PeriodicPoll<T> = infrared::receiver().protocol::<T>().build_polled();
            got.push(("default frequency", feed(&mut ByPoll(r, false), &ev)));
            let pin = Pin::default();
            let r: PeriodicPoll<T, Pin> = infrared::receiver().pin(pin.clone()).protocol::<T>().build_polled();
            got.push(("default frequency, pin", feed(&mut ByPollPin(r, pin), &ev)));
        }
        let pin = Pin::default();
        let r: PeriodicPoll<T, Pin> = PeriodicPoll::with_input(f, pin.clone());
        got.push(("with_input", feed(&mut ByPollPin(r, pin), &ev)));
        let pin = Pin::default();
        let r: PeriodicPoll<T, Pin> = PeriodicPoll::with_pin(f, pin.clone());
        got.push(("with_pin", feed(&mut ByPollPin(r, pin), &ev)));
    });
    for (n, o) in got {
        if let Some(i) = diff(&base, &o) {
            fail!("{} polled at {f} Hz built by [{n}]: edge {i}: {:?}, event receiver: {:?}\nevents: {}", p.name(), o.get(i), base.get(i), show(&ev));
        }
        c.count("polled_chains", 1);
    }
    tally(c, &base);
    c.distinct(hash64(&[hash_events(&ev), f as u64]));
    Ok(())
}

fn c16_remote(c: &mut Case) -> Res {
    use infrared::cmd::AddressCommand;
    use infrared::protocol::*;
    use infrared::remotecontrol::{nec, rc5, sbp, Button, RemoteControlModel};
    fn go<T, R>(c: &mut Case, p: P, mk: fn() -> R, known: &[(u32, u32)]) -> Res
    where
        R: RemoteControlModel<Cmd = T::Cmd>,
        T: DecoderBuilder<u32>,
        T::Cmd: Canon + AddressCommand,
    {
        let f = random_freq(p, &mut c.rng);
        let w = Wins::new(p, f);
        let mut ev = vec![];
        for _ in 0..c.rng.range(1, 4) {
            let mut fr = random_frame(p, &mut c.rng);
            if c.rng.bool() {
                let (a, k) = *c.rng.pick(known);
                fr = frame_of(&K { p, addr: a, cmd: k, aux: if p == P::Rc5 { 3 } else { 0 }, rep: false });
            }
            let (e, _) = play_frame(&fr, &w, pause(&w, &mut c.rng), Jit::Any, Marks::Nominal, &mut c.rng);
            ev.extend(e);
        }
        let pins: Vec<Pin> = (0..4).map(|_| Pin::default()).collect();
        let mut rs: Vec<Receiver<T, Pin, u32, Button<R>>> = vec![
            infrared::receiver().protocol::<T>().remotecontrol(mk()).frequency(f).pin(pins[0].clone()).build(),
            infrared::receiver().frequency(f).pin(pins[1].clone()).protocol::<T>().remotecontrol(mk()).build(),
            infrared::receiver().pin(pins[2].clone()).protocol::<T>().frequency(f).remotecontrol(mk()).monotonic::<u32>().build(),
            Receiver::with_pin(f, pins[3].clone()),
        ];
        let mut base: Receiver<T, NoPin> = Receiver::new(f);
        for (i, (d, e)) in ev.iter().enumerate() {
            let b = base.event(*d as u32, *e);
            let want = match b {
                Ok(Some(k)) => {
                    let act = R::decode(&k);
                    c.count("commands_compared", 1);
                    Some((k.canon(), act))
                }
                _ => None,
            };
            for (n, r) in rs.iter_mut().enumerate() {
                pins[n].mark.set(*e);
                let o = match r.event(*d as u32) {
                    Ok(Some(b)) => Some((b.command().canon(), b.action())),
                    _ => None,
                };
                if o != want {
                    fail!("{} with remote control (chain {n}) at {f} Hz: edge {i}: {o:?}, expected {want:?}\nevents: {}", p.name(), show(&ev));
                }
            }
        }
        c.count("remote_chains", rs.len() as u64);
        c.distinct(hash64(&[hash_events(&ev), f as u64]));
        Ok(())
    }
    match c.idx % 5 {
        0 => go::<Rc5, rc5::CdPlayer>(c, P::Rc5, || rc5::CdPlayer, &[(20, 1), (20, 53), (20, 54)]),
        1 => go::<SamsungNec, nec::SamsungTv>(c, P::Sam, || nec::SamsungTv, &[(7, 2), (7, 72), (7, 108)]),
        2 => go::<Nec, nec::SpecialForMp3>(c, P::Nec, || nec::SpecialForMp3, &[(0, 69), (0, 74), (0, 7)]),
        3 => go::<AppleNec, nec::Apple2009>(c, P::Apple, || nec::Apple2009, &[(1, 3), (77, 7)]),
        _ => go::<Sbp, sbp::SamsungBluRayPlayer>(c, P::Sbp, || sbp::SamsungBluRayPlayer, &[(32, 2), (32, 10)]),
    }
}

fn c16_pins(c: &mut Case) -> Res {
    let p = ALL[(c.idx % 9) as usize];
    let f = random_freq(p, &mut c.rng);
    let ev = c16_signal(c, p, f);
    let id = c.rng.u32();
    with_proto!(p, T => {
        for how in 0..3 {
            let pin = Pin { id, ..Pin::default() };
            let decoy = Pin { id: id ^ 1, ..Pin::default() };
            let mut r: Receiver<T, Pin> = match how {
                0 => infrared::receiver().protocol::<T>().pin(pin.clone()).frequency(f).build(),
                1 => Receiver::with_pin(f, pin.clone()),
                _ => infrared::receiver().pin(decoy.clone()).frequency(f).pin(pin.clone()).protocol::<T>().build(),
            };
            if r.pin().id != id || r.pin_mut().id != id {
                fail!("pin() is not the pin given");
            }
            let mut reads = 0;
            for (d, e) in &ev {
                pin.mark.set(*e);
                let before = pin.reads.get();
                let _ = r.event(*d as u32);
                if pin.reads.get() == before {
                    fail!("{}: event() did not read the pin given", p.name());
                }
                reads += 1;
            }
            if decoy.reads.get() != 0 {
                fail!("{}: replaced pin was read", p.name());
            }
            let back = r.release();
            if back.id != id || !std::rc::Rc::ptr_eq(&back.mark, &pin.mark) || back.reads.get() != pin.reads.get() {
                fail!("release() did not return the pin given");
            }
            c.count("pin_reads", reads);
            c.count("pins_released", 1);
        }
    });
    c.distinct(hash64(&[hash_events(&ev), f as u64]));
    Ok(())
}

// ------------------------------------------------------------------ C19

fn c19() -> Property {
    Property {
        id: "C19",
        rule: "distinct (history, reset point, following signal) runs on bare decoders by hash; state, command() and combined results are observed after every event",
        assumptions: &["signals after a reset contain no NEC repeat codes (they refer to earlier frames)"],
        required: &["done_states", "idle_states", "receiving_states", "resets", "command_offers", "no_command_offers"],
        workloads: vec![
            Workload { name: "contract", quick: 400_000, thorough: 10_000_000, f: c19_contract },
            Workload { name: "reset", quick: 240_000, thorough: 8_000_000, f: c19_reset },
            Workload { name: "stepwise", quick: 6_480, thorough: 108_000, f: c19_stepwise },
            Workload { name: "states", quick: 180_000, thorough: 4_000_000, f: c19_states },
        ],
    }
}

fn c19_stream(c: &mut Case, p: P, f: u32, w: &Wins) -> Vec<Ev> {
    match c.rng.below(4) {
        0 => {
            let n = c.rng.range(1, 150);
            chaos(n, f, &mut c.rng)
        }
        _ => {
            let segs = c.rng.range(1, 5);
            let t = tokens(p, w, segs, &mut c.rng, true);
            let mut ev = to_events(p, w, &t, if c.rng.bool() { 0 } else { w.quiet() }, false, &mut c.rng);
            if c.rng.chance(1, 4) {
                let i = c.rng.below(ev.len() as u64) as usize;
                ev[i].1 = !ev[i].1;
            }
            ev
        }
    }
}

fn c19_contract(c: &mut Case) -> Res {
    let p = ALL[(c.idx % 9) as usize];
    let f = random_freq(p, &mut c.rng);
    let w = Wins::new(p, f);
    let ev = c19_stream(c, p, f, &w);
    let sticky = c.rng.chance(1, 4);
    with_proto!(p, T => {
        let mut hand = <T as DecoderBuilder<u32>>::build(f);
        let mut total = <T as DecoderBuilder<u32>>::build(f);
        if hand.command().is_some() {
            fail!("{}: a new decoder offers {:?}", p.name(), hand.command().map(|k| k.canon()));
        }
        let mut together = true;
        for (i, (d, e)) in ev.iter().enumerate() {
            let s = hand.event(*e, *d as u32);
            let k = hand.command().map(|k| k.canon());
            if k.is_some() && s != State::Done {
                fail!("{} at {f} Hz: edge {i}: state {s:?} but command() is {k:?}\nevents: {}", p.name(), show(&ev[..=i]));
            }
            if s == State::Done && k.is_none() && !p.is_nec() {
                // (NEC repeats may have nothing to refer to, Apple words may be invalid)
                fail!("{} at {f} Hz: edge {i}: completion reported but there is no command\nevents: {}", p.name(), show(&ev[..=i]));
            }
            if s == State::Done {
                c.count("done_states", 1);
                c.count("command_offers", k.is_some() as u64);
                let again = hand.command().map(|k| k.canon());
                if again != k {
                    fail!("{}: command() changes from {k:?} to {again:?}", p.name());
                }
            } else {
                c.count("no_command_offers", 1);
            }
            let mut want = Out::None;
            if !sticky || !matches!(s, State::Done | State::Error(_)) {
                match s {
                    State::Done => {
                        want = k.map(Out::Cmd).unwrap_or(Out::None);
                        hand.reset();
                    }
                    State::Error(x) => {
                        want = Out::Err(x);
                        hand.reset();
                    }
                    _ => {}
                }
                if matches!(s, State::Done | State::Error(_)) {
                    c.count("resets", 1);
                    if let Some(k) = hand.command() {
                        fail!("{}: command() is {:?} after reset", p.name(), k.canon());
                    }
                }
            } else {
                together = false;
            }
            if together {
                let got = out(total.event_total(*e, *d as u32));
                if got != want {
                    fail!("{} at {f} Hz: edge {i}: event_total gives {got:?}, by hand {want:?}\nevents: {}", p.name(), show(&ev[..=i]));
                }
                if let Some(k) = total.command() {
                    fail!("{}: command() is {:?} after event_total", p.name(), k.canon());
                }
            }
        }
    });
    c.distinct(hash_events(&ev));
    Ok(())
}

fn reset_run(c: &mut Case, p: P, f: u32, w: &Wins, hist: &[Ev], follow: &[Ev]) -> Res {
    let _ = w;
    with_proto!(p, T => {
        let mut a = <T as DecoderBuilder<u32>>::build(f);
        let mut b = <T as DecoderBuilder<u32>>::build(f);
        for (d, e) in hist {
            let _ = a.event(*e, *d as u32);
        }
        a.reset();
        if c.rng.chance(1, 4) {
            a.reset();
        }
        c.count("resets", 1);
        if let Some(k) = a.command() {
            fail!("{} at {f} Hz: command() is {:?} after reset\nevents: {}", p.name(), k.canon(), show(hist));
        }
        for (i, (d, e)) in follow.iter().enumerate() {
            let x = a.event(*e, *d as u32);
            let y = b.event(*e, *d as u32);
            let (k, l) = (a.command().map(|k| k.canon()), b.command().map(|k| k.canon()));
            if x != y || k != l {
                fail!("{} at {f} Hz: edge {i} after a reset: {x:?} {k:?}, a new decoder: {y:?} {l:?}\nhistory: {}\nevents: {}", p.name(), show(hist), show(follow));
            }
            if x == State::Done {
                c.count("done_states", 1);
                c.count("command_offers", k.is_some() as u64);
            } else {
                c.count("no_command_offers", 1);
            }
            if matches!(x, State::Done | State::Error(_)) {
                a.reset();
                b.reset();
            }
        }
    });
    c.distinct(hash64(&[hash_events(hist), hash_events(follow)]));
    Ok(())
}

fn no_repeats(p: P, w: &Wins, ev: &mut [Ev]) {
    // keep rise-to-rise intervals away from the repeat window
    if !p.is_nec() {
        return;
    }
    let mut save = 0;
    for e in ev.iter_mut() {
        if e.1 {
            if w.possible(1, save + e.0) || w.possible(1, e.0) {
                e.0 = 0;
                if w.possible(1, save) {
                    e.0 = w.quiet();
                }
            }
            save = 0;
        } else {
            save = e.0;
        }
    }
}

fn c19_reset(c: &mut Case) -> Res {
    let p = ALL[(c.idx % 9) as usize];
    let f = random_freq(p, &mut c.rng);
    let w = Wins::new(p, f);
    let mut hist = c19_stream(c, p, f, &w);
    let n = c.rng.below(hist.len() as u64 + 1) as usize;
    hist.truncate(n);
    let mut follow = c19_stream(c, p, f, &w);
    if c.rng.bool() {
        // start as if in the middle of something
        let n = c.rng.below(follow.len() as u64) as usize;
        follow.drain(..n);
    }
    no_repeats(p, &w, &mut follow);
    c.sample(|| format!("{} at {f} Hz: reset after {} edges, then {} edges as a new decoder", p.name(), hist.len(), follow.len()));
    reset_run(c, p, f, &w, &hist, &follow)
}

/// Reset at every edge of a frame, then a frame (with and without pause)
fn c19_stepwise(c: &mut Case) -> Res {
    let p = ALL[(c.idx % 9) as usize];
    let f = random_freq(p, &mut c.rng);
    let w = Wins::new(p, f);
    let fr = random_frame(p, &mut c.rng);
    let (ev, _) = play_frame(&fr, &w, 0, Jit::Any, Marks::Nominal, &mut c.rng);
    for n in 0..=ev.len() {
        let fr2 = random_frame(p, &mut c.rng);
        let g = *c.rng.pick(&[0, w.quiet(), 1]);
        let (mut e2, _) = play_frame(&fr2, &w, g, Jit::Any, Marks::Nominal, &mut c.rng);
        if c.rng.chance(1, 4) {
            e2 = ev[n.min(ev.len() - 1)..].to_vec();
        }
        no_repeats(p, &w, &mut e2);
        reset_run(c, p, f, &w, &ev[..n], &e2)?;
        c.evals(1);
    }
    Ok(())
}

/// What a decoder says about itself: idle while there is nothing to receive,
/// receiving inside of a frame, done at its last bit
fn c19_states(c: &mut Case) -> Res {
    let p = ALL[(c.idx % 9) as usize];
    let f = random_freq(p, &mut c.rng);
    let w = Wins::new(p, f);
    with_proto!(p, T => {
        let mut d = <T as DecoderBuilder<u32>>::build(f);
        for round in 0..c.rng.range(1, 4) {
            // nothing that could be a frame: falling edges, and for pulse distance any
            // rise which does not follow the last one by a header's length
            let mut seen = vec![];
            for _ in 0..c.rng.below(8) {
                let e = p.style() == Style::Pd && c.rng.bool();
                let t = if p.style() == Style::Pd { outside(&w, &mut c.rng) } else { clear_ticks(&w, &mut c.rng) };
                if e {
                    // a zero length mark before it, so that the rise to rise time is clear
                    seen.push((0, false));
                    let s = d.event(false, 0);
                    if s != State::Idle {
                        fail!("{} at {f} Hz: {s:?} with nothing to receive\nevents: {}", p.name(), show(&seen));
                    }
                }
                seen.push((t, e));
                let s = d.event(e, t as u32);
                if s != State::Idle {
                    fail!("{} at {f} Hz: {s:?} with nothing to receive\nevents: {}", p.name(), show(&seen));
                }
                c.count("idle_states", 1);
            }
            let fr = random_frame(p, &mut c.rng);
            let (ev, done) = play_frame(&fr, &w, pause(&w, &mut c.rng), Jit::Any, Marks::Any, &mut c.rng);
            let from = if p.style() == Style::Pd { 2 } else { 1 };
            for (i, (t, e)) in ev.iter().enumerate().take(done + 1) {
                let s = d.event(*e, *t as u32);
                let want = if i == done { State::Done } else { State::Receiving };
                if i >= from && s != want {
                    fail!("{} at {f} Hz, frame {round}: edge {i} of {}: {s:?}\nevents: {}", p.name(), ev.len(), show(&ev));
                }
                c.count("receiving_states", (i >= from) as u64);
            }
            d.reset();
            c.distinct(hash64(&[hash_events(&ev), hash_events(&seen)]));
        }
    });
    Ok(())
}
