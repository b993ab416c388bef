//! C25: what a call costs is bounded: no heap, constant work and stack, whatever
//! it is given and whatever happened before. Built with coverage instrumentation,
//! see bin/check.sh.
#![allow(dead_code)]

#[path = "../../harness/src/fw.rs"]
mod fw;
#[path = "../../harness/src/gen.rs"]
mod gen;
#[path = "../../harness/src/spec.rs"]
mod spec;
#[path = "../../harness/src/sut.rs"]
#[macro_use]
mod sut;
#[macro_use]
mod p_send;
mod meter;

use fw::*;
use gen::*;
use infrared::cmd::{AddressCommand, AnyCommand};
use infrared::protocol::nec::*;
use infrared::protocol::rc5::Rc5Command;
use infrared::protocol::rc6::Rc6Command;
use infrared::protocol::sbp::SbpCommand;
use infrared::protocol::*;
use infrared::receiver::time::PulseSpans;
use infrared::receiver::{BufferInputReceiver, DecoderBuilder, MultiReceiver, NoPin, ProtocolDecoder};
use infrared::remotecontrol::nec::*;
use infrared::remotecontrol::rc5::*;
use infrared::remotecontrol::sbp::*;
use infrared::remotecontrol::{Action, Button, RemoteControlModel};
use infrared::sender::{ProtocolEncoder, PulsedataSender, Sender};
use infrared::{PeriodicPoll, Protocol, Receiver};
use meter::*;
use p_send::{Pwm, SENDABLE};
use spec::*;
use std::collections::HashMap;
use std::hint::black_box;
use std::sync::Mutex;
use sut::*;

/// Basic blocks after which a call that handles one thing is taken to be endless
const LIM: u64 = 1_000_000;

fn main() {
    let args: Vec<String> = std::env::args().collect();
    let env = |k: &str, d: &str| std::env::var(k).unwrap_or_else(|_| d.to_string());
    let mut o = Opts {
        tier: if env("VERIF_TIER", "quick") == "thorough" { Tier::Thorough } else { Tier::Quick },
        seed: env("VERIF_SEED", "1").trim().parse().unwrap_or_else(|_| fw::hash_str(&env("VERIF_SEED", "1"))),
        verif: env("VERIF_DIR", "/verif"),
        threads: env("VERIF_THREADS", "0").parse().unwrap_or(0),
        only_workload: None,
        only_case: None,
        scale_pct: env("VERIF_SCALE", "100").parse().unwrap_or(100),
        max_cases: env("VERIF_MAXCASES", "").parse().unwrap_or(u64::MAX),
    };
    if o.threads == 0 {
        o.threads = std::thread::available_parallelism().map(|n| n.get()).unwrap_or(4).min(16);
    }
    let mut i = 2;
    while i < args.len() {
        match args[i].as_str() {
            "--workload" => o.only_workload = args.get(i + 1).cloned(),
            "--case" => o.only_case = args.get(i + 1).and_then(|s| s.parse().ok()),
            _ => {}
        }
        i += 2;
    }
    fw::install_panic_hook();
    // Is the meter connected at all?
    let mut v = 0u64;
    let (_, c) = measure("self test", 0, || {
        for i in 0..black_box(1000u64) {
            v = black_box(v.wrapping_add(i));
        }
        black_box(vec![1u8; black_box(10)]);
    });
    if c.blocks < 1000 || c.heap == 0 || c.stack == 0 {
        println!("INCONCLUSIVE property=C25 the meter does not count: {c:?}");
        std::process::exit(2);
    }
    std::process::exit(fw::run_property(
        &Property {
            id: "C25",
            rule: "distinct (object, rate, call sequence) runs by hash; each call is metered (basic blocks executed, stack used, heap requests) and compared with the dearest such call of fresh objects on ordinary signals",
            assumptions: &[
                "work is counted in basic blocks of unoptimised code instrumented by the compiler; calls into the precompiled core library (memcpy and the like) count as part of the block they are in",
                "bounds are 4 times the dearest ordinary call plus 1000 blocks, and 2 times its stack plus 8 KiB",
            ],
            required: &["calls", "polls", "history_calls", "buffer_intervals", "multi_calls", "loads", "ticks", "builds", "values"],
            workloads: vec![
                Workload { name: "calls", quick: 48_000, thorough: 1_200_000, f: calls },
                Workload { name: "polls", quick: 3_200, thorough: 64_000, f: polls },
                Workload { name: "history", quick: 36, thorough: 108, f: history },
                Workload { name: "buffer", quick: 7_200, thorough: 144_000, f: buffer },
                Workload { name: "multi", quick: 6_400, thorough: 128_000, f: multi },
                Workload { name: "send", quick: 4_800, thorough: 72_000, f: send },
                Workload { name: "build", quick: 40_000, thorough: 800_000, f: build },
                Workload { name: "values", quick: 32_000, thorough: 320_000, f: values },
            ],
        },
        &o,
    ));
}

// ---------------------------------------------------------------- references

type Key = (&'static str, u64, u64);
static REFS: Mutex<Option<HashMap<Key, Cost>>> = Mutex::new(None);

/// The bound for a kind of call, from the dearest one on ordinary input
fn bound(key: Key, f: impl FnOnce() -> Cost) -> Cost {
    if let Some(c) = REFS.lock().unwrap().get_or_insert_with(HashMap::new).get(&key) {
        return c.bound();
    }
    let c = f();
    REFS.lock().unwrap().as_mut().unwrap().insert(key, c);
    c.bound()
}

/// Ordinary signals: good frames, and frames broken off or with one bad interval,
/// each for a fresh object
fn ordinary(p: P, f: u32) -> Vec<Vec<Ev>> {
    let mut rng = Rng::new(77);
    let w = Wins::new(p, f);
    let mut v = vec![];
    for i in 0..60 {
        let ivs = if i % 2 == 0 {
            let fr = random_frame(p, &mut rng);
            fr.syms.iter().map(|s| pick_ticks(&w.w[*s as usize], Jit::Any, &mut rng)).collect()
        } else {
            tokens(p, &w, 3, &mut rng, false)
        };
        let mut ev = to_events(p, &w, &ivs, w.quiet(), true, &mut rng);
        let e = ev.last().map(|e| !e.1).unwrap_or(true);
        ev.push((w.quiet(), e));
        ev.truncate(250);
        v.push(ev);
    }
    v
}

fn dear(what: &str, n: usize, c: Cost, b: Cost) -> String {
    format!("{what}: call {n} executed {} basic blocks, used {} bytes of stack and made {} heap requests; ordinary calls keep within {} blocks, {} bytes and no heap", c.blocks, c.stack, c.heap, b.blocks, b.stack)
}

fn front_bound(p: P, fr: Front) -> Cost {
    bound(("event", p as u64, fr as u64), || {
        let mut m = Cost::default();
        for ev in ordinary(p, 1_000_000) {
            let mut r = front(p, 1_000_000, fr);
            for (d, e) in ev {
                m = m.max(measure("an event", LIM, || r.ev(d, e)).1);
            }
        }
        m
    })
}

fn any_rate(rng: &mut Rng) -> u32 {
    match rng.below(6) {
        0 => *rng.pick(&[40_000u32, 100_000, 1_000_000, 48_000_000]),
        1 => rng.range(20_000, 2_000_000) as u32,
        2 => 1 << rng.below(32),
        3 => u32::MAX - rng.below(10) as u32,
        4 => rng.below(20_000) as u32,
        _ => rng.u32(),
    }
}

/// Rates for which windows make sense
fn sane_rate(p: P, rng: &mut Rng) -> u32 {
    match rng.below(3) {
        0 => *rng.pick(&[40_000u32, 100_000, 1_000_000]),
        _ => random_freq(p, rng),
    }
}

/// Hostile edges
fn hostile(p: P, f: u32, n: u64, rng: &mut Rng) -> Vec<Ev> {
    let mut w = Wins::new(p, f);
    if !w.supported() {
        // too coarse a rate for the protocol, or none at all
        w = Wins::new(p, 1_000_000);
    }
    let mut ev = vec![];
    while (ev.len() as u64) < n {
        match rng.below(5) {
            0 => ev.extend(chaos(rng.range(1, 200), f, rng)),
            1 | 2 => {
                let big = rng.bool();
                let ivs = tokens(p, &w, 4, rng, big);
                let lead = pause(&w, rng);
                ev.extend(to_events(p, &w, &ivs, lead, false, rng));
            }
            3 => {
                // the same edge over and over
                let (d, e) = (chaos(1, f, rng)[0].0, rng.bool());
                let k = rng.range(1, 300);
                ev.extend((0..k).map(|_| (d, e)));
            }
            _ => {
                // one symbol over and over, alternating
                let v = *rng.pick(&w.w);
                if v.acc.0 <= v.acc.1 {
                    let x = rng.range(v.acc.0, v.acc.1);
                    let k = rng.range(1, 300);
                    ev.extend((0..k).map(|i| (x, i % 2 == 0)));
                }
            }
        }
    }
    ev.truncate(n as usize);
    if rng.chance(1, 3) {
        // for the wider time types
        for e in ev.iter_mut() {
            if rng.chance(1, 30) {
                e.0 <<= rng.below(31);
            }
        }
    }
    ev
}

// ---------------------------------------------------------------- receivers

fn calls(c: &mut Case) -> Res {
    ctx("calls", c.idx);
    let p = ALL[(c.idx % 9) as usize];
    let fr = EVFRONTS[(c.idx / 9 % 11) as usize];
    let b = front_bound(p, fr);
    let wild = c.rng.chance(1, 3);
    let f = if wild { any_rate(&mut c.rng) } else { sane_rate(p, &mut c.rng) };
    let n = *c.rng.pick(&[60u64, 300, 1500]);
    let ev = hostile(p, f.max(1000), n, &mut c.rng);
    c.note = format!("[{} receiver at {f} Hz through {fr:?}]", p.name());
    let mut r = front(p, f, fr);
    let mut m = Cost::default();
    for (i, (d, e)) in ev.iter().enumerate() {
        let (_, k) = measure("an event", LIM, || r.ev(*d, *e));
        m = m.max(k);
        if !k.within(b) {
            fail!("{}\nevents: {}", dear("receiver", i, k, b), show(&ev[i.saturating_sub(80)..=i]));
        }
    }
    c.count("calls", ev.len() as u64);
    c.count("blocks_of_dearest_calls", m.blocks);
    c.sample(|| format!("{} receiver at {f} Hz through {fr:?}, {} events: dearest {m:?}, bound {b:?}", p.name(), ev.len()));
    c.distinct(hash64(&[hash_events(&ev), p as u64, f as u64, fr as u64]));
    Ok(())
}

trait Polled {
    fn poll(&mut self, e: bool, fail: bool);
}
struct PlainPoll<T: DecoderBuilder<u32>>(PeriodicPoll<T>);
impl<T: DecoderBuilder<u32>> Polled for PlainPoll<T> {
    fn poll(&mut self, e: bool, _: bool) {
        let _ = black_box(self.0.poll(e));
    }
}
struct PinPoll<T: DecoderBuilder<u32>>(PeriodicPoll<T, Pin>, Pin);
impl<T: DecoderBuilder<u32>> Polled for PinPoll<T> {
    fn poll(&mut self, e: bool, fail: bool) {
        self.1.mark.set(e);
        self.1.fail.set(fail.then_some(3));
        let _ = black_box(self.0.poll());
    }
}
/// Event receiver with a failing pin
struct PinEvents<T: DecoderBuilder<u32>>(Receiver<T, Pin>, Pin, u32);
impl<T: DecoderBuilder<u32>> Polled for PinEvents<T> {
    fn poll(&mut self, e: bool, fail: bool) {
        self.1.mark.set(e);
        self.1.fail.set(fail.then_some(3));
        self.2 = self.2.wrapping_add(300);
        let _ = black_box(self.0.event_instant(self.2));
    }
}

fn polled(p: P, f: u32, kind: u64) -> Box<dyn Polled> {
    let pin = Pin::default();
    with_proto!(p, T => match kind {
        0 => Box::new(PlainPoll::<T>(PeriodicPoll::new(f))) as Box<dyn Polled>,
        1 => Box::new(PinPoll::<T>(PeriodicPoll::with_pin(f, pin.clone()), pin)),
        _ => Box::new(PinEvents::<T>(Receiver::with_pin(f, pin.clone()), pin, 0)),
    })
}

fn polls(c: &mut Case) -> Res {
    ctx("polls", c.idx);
    let p = ALL[(c.idx % 9) as usize];
    let kind = c.idx / 9 % 3;
    let b = bound(("poll", p as u64, kind), || {
        let mut m = Cost::default();
        for ev in ordinary(p, 40_000) {
            let mut r = polled(p, 40_000, kind);
            let mut lv = false;
            for (d, e) in ev {
                for _ in 1..d {
                    m = m.max(measure("a poll", LIM, || r.poll(lv, false)).1);
                }
                lv = e;
                m = m.max(measure("a poll", LIM, || r.poll(e, false)).1);
            }
            m = m.max(measure("a poll", LIM, || r.poll(lv, true)).1);
        }
        m
    });
    let f = if c.rng.chance(1, 4) { any_rate(&mut c.rng) } else { c.rng.range(20_000, 50_000) as u32 };
    let faults = c.rng.bool();
    let ev = hostile(p, f.max(1000), 200, &mut c.rng);
    c.note = format!("[{} polled at {f} Hz]", p.name());
    let mut r = polled(p, f, kind);
    let (mut n, mut lv) = (0usize, false);
    let mut left = *c.rng.pick(&[5_000u64, 20_000, 60_000]);
    for (d, e) in &ev {
        // sometimes a very long wait
        let d = (*d).min(if c.rng.chance(1, 40) { 40_000 } else { 500 }).max(1);
        for i in 0..d {
            if i + 1 == d {
                lv = *e;
            }
            let fl = faults && c.rng.chance(1, 30);
            let (_, k) = measure("a poll", LIM, || r.poll(lv, fl));
            n += 1;
            if !k.within(b) {
                fail!("{}", dear("polled receiver", n, k, b));
            }
        }
        left = left.saturating_sub(d);
        if left == 0 {
            break;
        }
    }
    c.count("polls", n as u64);
    c.distinct(hash64(&[hash_events(&ev), p as u64, f as u64, kind]));
    Ok(())
}

/// The cost does not grow with the calls made before
fn history(c: &mut Case) -> Res {
    ctx("history", c.idx);
    let p = ALL[(c.idx % 9) as usize];
    let fr = EVFRONTS[(c.idx / 9 * 3 % 11) as usize];
    let b = front_bound(p, fr);
    let f = *c.rng.pick(&[40_000u32, 100_000, 1_000_000]);
    let w = Wins::new(p, f);
    let mut r = front(p, f, fr);
    c.note = format!("[{} receiver at {f} Hz through {fr:?}]", p.name());
    let total = if c.tier == Tier::Quick { 2_000_000 } else { 20_000_000 };
    let mut n = 0u64;
    while n < total {
        let ivs = tokens(p, &w, 8, &mut c.rng, true);
        let lead = pause(&w, &mut c.rng);
        for (d, e) in to_events(p, &w, &ivs, lead, false, &mut c.rng) {
            let (_, k) = measure("an event", LIM, || r.ev(d, e));
            n += 1;
            if !k.within(b) {
                fail!("{} (on one receiver)", dear("receiver", n as usize, k, b));
            }
        }
    }
    c.count("history_calls", n);
    c.distinct(hash64(&[p as u64, fr as u64, c.idx]));
    Ok(())
}

// ---------------------------------------------------------------- buffers

fn buf_run<T: DecoderBuilder<M>, M: Mono>(f: u32, buf: &[u64], how: u64, lim: u64) -> (u64, Cost) {
    let v: Vec<M::Duration> = buf.iter().map(|d| M::dur(*d)).collect();
    let mut r = BufferInputReceiver::<T, M>::with_frequenzy(f);
    match how {
        0 => measure("a pass over a buffer", lim, || r.iter(&v).count() as u64),
        1 => measure("a pass over a buffer", lim, || {
            let mut n = 0;
            for x in r.iter(&v) {
                black_box(&x);
                n += 1;
            }
            n
        }),
        2 => measure("a pass over a buffer", lim, || r.iter_with::<T, M, T::Cmd>(f, &v).last().is_some() as u64),
        // the first command only: must not look at the rest
        _ => measure("the first command of a buffer", lim, || r.iter(&v).next().is_some() as u64),
    }
}

fn buf_any(p: P, f: u32, buf: &[u64], how: u64, wide: bool, lim: u64) -> (u64, Cost) {
    with_proto!(p, T => if wide { buf_run::<T, u64>(f, buf, how, lim) } else { buf_run::<T, u32>(f, buf, how, lim) })
}

fn buffer(c: &mut Case) -> Res {
    ctx("buffer", c.idx);
    let p = ALL[(c.idx % 9) as usize];
    let wide = c.rng.bool();
    let f = sane_rate(p, &mut c.rng);
    let b = bound(("buffer", p as u64, wide as u64), || {
        let mut m = front_bound_raw(p, if wide { Front::U64 } else { Front::Event });
        // the cost of setting up and ending the iteration
        for ev in ordinary(p, 1_000_000) {
            let v: Vec<u64> = ev.iter().map(|e| e.0).collect();
            for how in 0..4 {
                let k = buf_any(p, 1_000_000, &v, how, wide, 400_000_000).1;
                m.stack = m.stack.max(k.stack);
                m.heap = m.heap.max(k.heap);
                m.blocks = m.blocks.max(k.blocks / (v.len() as u64 + 1) + 200);
            }
        }
        m
    });
    let n = *c.rng.pick(&[0u64, 1, 10, 100, 1000, 5000, 20_000]);
    let mut v: Vec<u64> = hostile(p, f, n, &mut c.rng).iter().map(|e| e.0).collect();
    let how = c.rng.below(4);
    let mut seen = v.len() as u64;
    if how == 3 {
        // a good frame first; the rest of the buffer is of no concern then
        let w = Wins::new(p, f);
        let fr = random_frame(p, &mut c.rng);
        let ivs: Vec<u64> = fr.syms.iter().map(|s| pick_ticks(&w.w[*s as usize], Jit::Nominal, &mut c.rng)).collect();
        let mut ev = to_events(p, &w, &ivs, w.quiet(), true, &mut c.rng);
        let e = ev.last().map(|e| !e.1).unwrap();
        ev.push((w.quiet(), e));
        let mut first: Vec<u64> = ev.iter().map(|e| e.0).collect();
        let done = buf_any(p, f, &first, 0, wide, 400_000_000).0 > 0;
        if done {
            seen = first.len() as u64;
        } else {
            seen += first.len() as u64;
        }
        first.extend(&v);
        v = first;
    }
    c.note = format!("[{} buffer of {} intervals at {f} Hz]", p.name(), v.len());
    let max = Cost { blocks: b.blocks * (seen + 4), ..b };
    let (_, k) = buf_any(p, f, &v, how, wide, max.blocks * 2);
    if !k.within(max) {
        fail!("{}", dear(&format!("buffer receiver, {seen} intervals (form {how})"), 0, k, max));
    }
    c.count("buffer_intervals", seen);
    c.distinct(hash64(&[hash64(&v), p as u64, f as u64, how]));
    Ok(())
}

fn front_bound_raw(p: P, fr: Front) -> Cost {
    front_bound(p, fr);
    REFS.lock().unwrap().as_ref().unwrap()[&("event", p as u64, fr as u64)]
}

// ---------------------------------------------------------------- multi receiver

trait Multi {
    fn ev(&mut self, d: u64, e: bool, fail: bool);
}
struct M6(MultiReceiver<6, (Nec, Rc5, Rc6, Sbp, Denon, AppleNec), Pin>, Pin, u64);
impl Multi for M6 {
    fn ev(&mut self, d: u64, e: bool, fail: bool) {
        self.1.mark.set(e);
        self.1.fail.set(fail.then_some(1));
        match self.2 {
            0 => {
                let _ = black_box(self.0.event(d as u32));
            }
            1 => {
                if let Ok(it) = self.0.event_iter(d as u32) {
                    black_box(it.count());
                }
            }
            _ => {
                black_box(self.0.event_generic_iter(d as u32, e).count());
            }
        }
    }
}
struct M2(MultiReceiver<2, (SamsungNec, Nec), NoPin>);
impl Multi for M2 {
    fn ev(&mut self, d: u64, e: bool, _: bool) {
        black_box(self.0.event_generic(d as u32, e));
    }
}
struct M4(MultiReceiver<4, (Rc6, Denon, AppleNec, Rc5), NoPin, u64>);
impl Multi for M4 {
    fn ev(&mut self, d: u64, e: bool, _: bool) {
        black_box(self.0.event_generic(d, e));
    }
}

fn mk_multi(f: u32, kind: u64) -> Box<dyn Multi> {
    let pin = Pin::default();
    match kind {
        0..=2 => Box::new(M6(MultiReceiver::new(f, pin.clone()), pin, kind)),
        3 => Box::new(M2(MultiReceiver::new(f, NoPin))),
        _ => Box::new(M4(MultiReceiver::new(f, NoPin))),
    }
}

fn multi(c: &mut Case) -> Res {
    ctx("multi", c.idx);
    let kind = c.idx % 5;
    let b = bound(("multi", kind, 0), || {
        let mut m = Cost::default();
        for p in ALL {
            for ev in ordinary(p, 1_000_000) {
                let mut r = mk_multi(1_000_000, kind);
                for (d, e) in ev {
                    m = m.max(measure("a multi receiver event", LIM, || r.ev(d, e, false)).1);
                }
                m = m.max(measure("a multi receiver event", LIM, || r.ev(1, true, true)).1);
            }
        }
        m
    });
    let p = *c.rng.pick(&ALL);
    let f = if c.rng.chance(1, 3) { any_rate(&mut c.rng) } else { sane_rate(p, &mut c.rng) };
    let ev = hostile(p, f.max(1000), 1000, &mut c.rng);
    let mut r = mk_multi(f, kind);
    c.note = format!("[multi receiver (form {kind}) at {f} Hz]");
    for (i, (d, e)) in ev.iter().enumerate() {
        let fl = c.rng.chance(1, 20);
        let (_, k) = measure("a multi receiver event", LIM, || r.ev(*d, *e, fl));
        if !k.within(b) {
            fail!("{}\nevents: {}", dear("multi receiver", i, k, b), show(&ev[i.saturating_sub(80)..=i]));
        }
    }
    c.count("multi_calls", ev.len() as u64);
    c.distinct(hash64(&[hash_events(&ev), f as u64, kind]));
    Ok(())
}

// ---------------------------------------------------------------- sending

/// A protocol of a user, with trains of any length
struct Long;
impl Protocol for Long {
    type Cmd = Vec<u32>;
}
impl<const F: u32> ProtocolEncoder<F> for Long {
    type EncoderData = ();
    const DATA: () = ();
    fn encode(c: &Vec<u32>, b: &mut [u32]) -> usize {
        b[..c.len()].copy_from_slice(c);
        c.len()
    }
}

trait Send0 {
    fn load(&mut self, k: &K);
    fn long(&mut self, v: &Vec<u32>);
    fn tick(&mut self, t: u32);
    fn len(&self) -> usize;
}
struct S1<const F: u32, const S: usize>(PulsedataSender<S>);
impl<const F: u32, const S: usize> Send0 for S1<F, S> {
    fn load(&mut self, k: &K) {
        with_sendable!(k, T, cmd => self.0.load_command::<T, F>(&cmd))
    }
    fn long(&mut self, v: &Vec<u32>) {
        self.0.load_command::<Long, F>(v)
    }
    fn tick(&mut self, t: u32) {
        black_box(self.0.tick(t));
    }
    fn len(&self) -> usize {
        self.0.buffer().len()
    }
}
struct S2<const F: u32, const S: usize>(Sender<Pwm, F, S>);
impl<const F: u32, const S: usize> Send0 for S2<F, S> {
    fn load(&mut self, k: &K) {
        with_sendable!(k, T, cmd => self.0.load::<T>(&cmd))
    }
    fn long(&mut self, v: &Vec<u32>) {
        self.0.load::<Long>(v)
    }
    fn tick(&mut self, _: u32) {
        self.0.tick();
    }
    fn len(&self) -> usize {
        self.0.buffer().len()
    }
}

fn mk<const F: u32>(kind: u64) -> Box<dyn Send0> {
    match kind {
        0 => Box::new(S1::<F, 96>(PulsedataSender::new())),
        1 => Box::new(S2::<F, 96>(Sender::new(Pwm::default()))),
        2 => Box::new(S1::<F, 4100>(PulsedataSender::new())),
        _ => Box::new(S2::<F, 4100>(Sender::new(Pwm::default()))),
    }
}
const SENDERS: &[(u32, fn(u64) -> Box<dyn Send0>)] = &[
    (38_000, mk::<38_000>),
    (1_000_000, mk::<1_000_000>),
    (20_000, mk::<20_000>),
    (48_000_000, mk::<48_000_000>),
    (1_000_000_000, mk::<1_000_000_000>),
    (u32::MAX, mk::<{ u32::MAX }>),
];

fn send(c: &mut Case) -> Res {
    ctx("send", c.idx);
    let kind = c.idx % 4;
    let lb = |p: P| {
        bound(("load", kind, p as u64), || {
            let mut m = Cost::default();
            let mut rng = Rng::new(5);
            for i in 0..60 {
                let mut s = mk::<38_000>(kind);
                let mut k = random_frame(p, &mut rng).k;
                k.rep = i % 2 == 1;
                m = m.max(measure("loading a command", LIM, || s.load(&k)).1);
                m = m.max(measure("loading a command", LIM, || s.load(&k)).1);
            }
            m
        })
    };
    let tb = bound(("tick", kind, 0), || {
        let mut m = Cost::default();
        for p in SENDABLE {
            let mut s = mk::<38_000>(kind);
            m = m.max(measure("a tick", LIM, || s.tick(0)).1);
            s.load(&random_frame(p, &mut Rng::new(5)).k);
            for t in 0..6000 {
                m = m.max(measure("a tick", LIM, || s.tick(t)).1);
            }
        }
        m
    });
    let (f, new) = SENDERS[(c.idx / 4) as usize % SENDERS.len()];
    c.note = format!("[sender (form {kind}) at {f} Hz]");
    let mut s = new(kind);
    let mut t = if c.rng.bool() { 0 } else { c.rng.u32() };
    let mut n = 0u64;
    let mut step = 1;
    for _ in 0..c.rng.range(1, 6) {
        if kind >= 2 && c.rng.bool() {
            // short marks, so that all of it is sent
            let len = *c.rng.pick(&[1u64, 100, 1000, 4096]);
            let v: Vec<u32> = (0..len).map(|_| c.rng.below(3) as u32).collect();
            let (_, k) = measure("loading a command", 10 * LIM, || s.long(&v));
            // copying is up to the user's encoder; what it writes may be looked at once more
            let max = Cost { blocks: tb.blocks + 50 * len, ..tb };
            if !k.within(max) {
                fail!("{}", dear(&format!("loading a train of {len}"), 0, k, max));
            }
        } else {
            let p = *c.rng.pick(&SENDABLE);
            let b = lb(p);
            let mut k = random_frame(p, &mut c.rng).k;
            if c.rng.bool() {
                k = K { p, addr: c.rng.u32() & 0xffff, cmd: c.rng.u32() & 0xff, aux: c.rng.next() & 0xffff_ffff, rep: c.rng.bool() };
            }
            let (_, m) = measure("loading a command", LIM, || s.load(&k));
            if !m.within(b) {
                fail!("{}", dear(&format!("loading {k:?}"), 0, m, b));
            }
        }
        c.count("loads", 1);
        let ticks = *c.rng.pick(&[10u64, 500, 5000, 12_000]);
        for _ in 0..ticks {
            if c.rng.chance(1, 300) {
                step = *c.rng.pick(&[0u32, 1, 1, 1, 7, 1000, 1 << 20, u32::MAX, 1 << 31]);
            }
            t = t.wrapping_add(step);
            let (_, m) = measure("a tick", LIM, || s.tick(t));
            n += 1;
            if !m.within(tb) {
                fail!("{} with {} pulses loaded", dear("sender", n as usize, m, tb), s.len());
            }
        }
    }
    c.count("ticks", n);
    c.distinct(hash64(&[c.idx, f as u64, kind, n]));
    Ok(())
}

// ---------------------------------------------------------------- building, tables, values

struct NoPwm;
impl embedded_hal::PwmPin for NoPwm {
    type Duty = u16;
    fn disable(&mut self) {}
    fn enable(&mut self) {}
    fn get_duty(&self) -> u16 {
        0
    }
    fn get_max_duty(&self) -> u16 {
        1
    }
    fn set_duty(&mut self, _: u16) {}
}

fn build(c: &mut Case) -> Res {
    ctx("build", c.idx);
    let p = ALL[(c.idx % 9) as usize];
    fn all(p: P, f: u32) -> Cost {
        with_proto!(p, T => {
            let mut m = measure("building a receiver", LIM, || { black_box(Receiver::<T>::new(f)); }).1;
            m = m.max(measure("building a decoder", LIM, || { let mut d = <T as DecoderBuilder<u64>>::build(f); d.reset(); black_box(d.command().is_some()); }).1);
            m = m.max(measure("building a polled receiver", LIM, || { black_box(PeriodicPoll::<T>::new(f)); }).1);
            m = m.max(measure("building a receiver", LIM, || {
                let b = infrared::receiver().protocol::<T>().frequency(f).monotonic::<u64>();
                black_box(b.build());
            }).1);
            m = m.max(measure("building a multi receiver", LIM, || { black_box(MultiReceiver::<2, (Nec, Rc6), NoPin>::new(f, NoPin)); }).1);
            m = m.max(measure("building a sender", LIM, || { black_box(Sender::<NoPwm, 40_000, 96>::new(NoPwm)); }).1);
            m = m.max(measure("building a sender", LIM, || { black_box(PulsedataSender::<96>::new()); }).1);
            m.max(measure("building a buffer receiver", LIM, || { black_box(BufferInputReceiver::<T>::with_frequenzy(f)); }).1)
        })
    }
    fn table(f: u32, pulse: &[u32; 8], tol: &[u32; 8], d: u64) -> Cost {
        fn one<M: Mono>(f: u32, pulse: &[u32; 8], tol: &[u32; 8], d: u64) -> Cost {
            let (s, mut m) = measure("building a pulse table", LIM, || PulseSpans::<M>::new(f, pulse, tol));
            m = m.max(measure("the overlap check", LIM, || black_box(s.check_overlaps())).1);
            m.max(measure("classifying a duration", LIM, || black_box(s.get::<usize>(M::dur(d)))).1)
        }
        one::<u32>(f, pulse, tol, d).max(one::<u64>(f, pulse, tol, d)).max(one::<fugit::TimerInstantU32<1_000_000>>(f, pulse, tol, d))
    }
    let b = bound(("build", p as u64, 0), || all(p, 1_000_000).max(all(p, 38_000)));
    let tb = bound(("table", 0, 0), || {
        table(1_000_000, &[1, 2, 3, 4, 5, 6, 7, 8].map(|x| x * 1000), &[5; 8], 8000).max(table(40_000, &[1000, 0, 0, 0, 0, 0, 0, 0], &[5, 0, 0, 0, 0, 0, 0, 0], 80))
    });
    let f = any_rate(&mut c.rng);
    let k = all(p, f);
    if !k.within(b) {
        fail!("{} at {f} Hz for {}", dear("building", 0, k, b), p.name());
    }
    let f = c.rng.range(1000, 4_000_000) as u32;
    let mut pulse = [0u32; 8];
    let mut tol = [0u32; 8];
    for i in 0..c.rng.below(9) as usize {
        pulse[i] = (pattern(&mut c.rng, 32) as u32 >> c.rng.below(20)) % 1_000_000;
        tol[i] = c.rng.below(101) as u32;
    }
    let d = pattern(&mut c.rng, 32);
    let k = table(f, &pulse, &tol, d);
    if !k.within(tb) {
        fail!("{} at {f} Hz for {pulse:?} {tol:?} {d}", dear("pulse table", 0, k, tb));
    }
    c.count("builds", 4);
    c.count("tables", 3);
    c.distinct(hash64(&[f as u64, c.idx, d]));
    Ok(())
}

fn values(c: &mut Case) -> Res {
    ctx("values", c.idx);
    fn all(w: u32, v: u32, rep: bool) -> Cost {
        let mut m = Cost::default();
        macro_rules! go {
            ($e:expr) => {
                m = m.max(measure("a conversion", LIM, || { black_box($e); }).1)
            };
        }
        macro_rules! neccmd {
            ($($T:ty),*) => { $(
                go!(<$T>::validate(w));
                go!(<$T>::unpack(w, rep).is_some());
            )* };
        }
        neccmd!(NecCommand, Nec16Command, SamsungNecCommand, AppleNecCommand, NecDebugCmd);
        let k = K { p: P::Nec, addr: w & 0xffff, cmd: v & 0xff, aux: w as u64, rep };
        go!(p_send::nec(&k).pack());
        go!(p_send::nec16(&k).pack());
        go!(p_send::sam(&k).pack());
        go!(p_send::dbg(&k).pack());
        go!(p_send::rc5(&k).pack());
        go!(Rc5Command::unpack(w as u16));
        go!(Rc6Command::from_bits(w as u16, rep));
        go!(SbpCommand::unpack(w as u16, v));
        macro_rules! gen {
            ($($T:ty),*) => { $(
                go!(<$T>::create(w, v).map(|x| (x.address(), x.command(), x.raw())));
                go!(<$T>::create(w, v).map(AnyCommand::from));
                go!(<$T>::create(w & 0xff, v & 0xff).map(AnyCommand::from));
            )* };
        }
        gen!(NecCommand, SamsungNecCommand, AppleNecCommand, Rc5Command, Rc6Command, SbpCommand);
        macro_rules! remote {
            ($($R:ty),*) => { $(
                let (a, x) = if rep { (<$R>::ADDRESS, v % 256) } else { (w, v) };
                if let Some(cmd) = <<$R as RemoteControlModel>::Cmd as AddressCommand>::create(a, x) {
                    go!(<$R>::decode(&cmd));
                    go!({ let b: Button<$R> = cmd.into(); (b.action(), b.is_repeat(), b.command().address()) });
                }
                let act = [Action::Power, Action::Seven, Action::Return, Action::Blue, Action::Stop, Action::Plus][(v % 6) as usize];
                go!(<$R>::encode(&act).is_some());
            )* };
        }
        remote!(SamsungTv, SpecialForMp3, Apple2009, CdPlayer, SamsungBluRayPlayer);
        go!(infrared::ProtocolId::from(w as u8));
        m
    }
    let b = bound(("values", 0, 0), || {
        let mut r = Rng::new(9);
        (0..40).fold(Cost::default(), |m, i| m.max(all(r.u32() & 0xffff, r.u32() & 0xff, i % 2 == 0)))
    });
    for _ in 0..20 {
        let (w, v, rep) = (pattern(&mut c.rng, 32) as u32, pattern(&mut c.rng, 32) as u32, c.rng.bool());
        let k = all(w, v, rep);
        if !k.within(b) {
            fail!("{} for {w:#x} {v:#x} {rep}", dear("conversion", 0, k, b));
        }
        c.distinct(hash64(&[w as u64, v as u64, rep as u64]));
    }
    c.count("values", 20);
    Ok(())
}
