//! C23: independence of receivers and senders. C07: clocks written by users,
//! timestamps that jump back.

use crate::fail;
use crate::fw::*;
use crate::gen::*;
use crate::p_front::{c07_signal, diff, tally};
use crate::p_send::{random_sendable, Tx, SENDABLE, TXS};
use crate::spec::*;
use crate::sut::*;
use core::ops::{Add, Sub};
use fugit::{TimerInstantU32, TimerInstantU64};
use infrared::cmd::AnyCommand;
use infrared::protocol::*;
use infrared::receiver::time::{InfraMonotonic, Span};
use infrared::receiver::{DecoderBuilder, MultiReceiver, NoPin};
use infrared::Receiver;
use std::sync::Barrier;

pub fn props() -> Vec<Property> {
    vec![c23()]
}

// ------------------------------------------------------------- C07: clocks of users

/// A 24-bit up counter
pub struct Up24;
impl InfraMonotonic for Up24 {
    type Instant = u32;
    type Duration = u32;
    const ZERO_INSTANT: u32 = 0;
    const ZERO_DURATION: u32 = 0;
    fn checked_sub(a: u32, b: u32) -> Option<u32> {
        Some(a.wrapping_sub(b) & 0xff_ffff)
    }
    fn create_span(freq: u32, p: u32, t: u32) -> Span<u32> {
        <u32 as InfraMonotonic>::create_span(freq, p, t)
    }
}
impl Mono for Up24 {
    const NAME: &'static str = "24-bit up counter";
    fn dur(t: u64) -> u32 {
        t as u32
    }
    fn inst(t: u64) -> u32 {
        t as u32 & 0xff_ffff
    }
    fn ticks(d: u32) -> u64 {
        d as u64
    }
}

/// A 32-bit down counter
pub struct Down;
impl InfraMonotonic for Down {
    type Instant = u32;
    type Duration = u32;
    const ZERO_INSTANT: u32 = 0;
    const ZERO_DURATION: u32 = 0;
    fn checked_sub(a: u32, b: u32) -> Option<u32> {
        Some(b.wrapping_sub(a))
    }
    fn create_span(freq: u32, p: u32, t: u32) -> Span<u32> {
        <u32 as InfraMonotonic>::create_span(freq, p, t)
    }
}
impl Mono for Down {
    const NAME: &'static str = "down counter";
    fn dur(t: u64) -> u32 {
        t as u32
    }
    fn inst(t: u64) -> u32 {
        0u32.wrapping_sub(t as u32)
    }
    fn ticks(d: u32) -> u64 {
        d as u64
    }
}

/// An instant of its own type, not starting at zero
#[derive(Clone, Copy, PartialEq, Eq, PartialOrd, Ord)]
pub struct At(u64);
const AT0: u64 = 0x1_0000_0123;
impl Add<u32> for At {
    type Output = At;
    fn add(self, d: u32) -> At {
        At(self.0 + d as u64)
    }
}
impl Sub<u32> for At {
    type Output = At;
    fn sub(self, d: u32) -> At {
        At(self.0 - d as u64)
    }
}
impl Sub<At> for At {
    type Output = u32;
    fn sub(self, o: At) -> u32 {
        (self.0 - o.0) as u32
    }
}

/// 64-bit instants, 32-bit durations in units of eight ticks of the frequency given
pub struct Mixed;
impl InfraMonotonic for Mixed {
    type Instant = At;
    type Duration = u32;
    const ZERO_INSTANT: At = At(AT0);
    const ZERO_DURATION: u32 = 0;
    fn checked_sub(a: At, b: At) -> Option<u32> {
        // none for no time at all, too
        a.0.checked_sub(b.0).filter(|d| *d > 0).map(|d| d.min(u32::MAX as u64) as u32)
    }
    fn create_span(freq: u32, p: u32, t: u32) -> Span<u32> {
        <u32 as InfraMonotonic>::create_span(freq / 8, p, t)
    }
}
impl Mono for Mixed {
    const NAME: &'static str = "64-bit instants, 32-bit durations";
    fn dur(t: u64) -> u32 {
        t.min(u32::MAX as u64) as u32
    }
    fn inst(t: u64) -> At {
        At(AT0 + t)
    }
    fn ticks(d: u32) -> u64 {
        d as u64
    }
}

fn run_clock<T: DecoderBuilder<M>, M: Mono>(f: u32, ev: &[Ev], start: u64) -> Vec<(&'static str, Vec<Out>)>
where
    T::Cmd: Canon,
{
    let pin = Pin::default();
    vec![
        ("by interval", feed(&mut ByEvent::<T, M>(Receiver::new(f)), ev)),
        ("by timestamp", feed(&mut ByInstant::<T, M>(Receiver::new(f), start), ev)),
        ("by pin and timestamp", feed(&mut ByPinInstant::<T, M>(Receiver::with_pin(f, pin.clone()), pin, start), ev)),
        ("bare decoder", feed(&mut ByTotal::<T, M>(<T as DecoderBuilder<M>>::build(f)), ev)),
    ]
}

/// Clocks written by users: whatever they count and wherever they wrap
pub fn c07_clocks(c: &mut Case) -> Res {
    let p = ALL[(c.idx % 9) as usize];
    let f = random_freq(p, &mut c.rng).min(400_000_000);
    let w = Wins::new(p, f);
    if !w.supported() {
        return Ok(());
    }
    let mut ev = c07_signal(c, p, &w);
    let kind = c.rng.below(3);
    if kind == 0 {
        if w.quiet() >= 1 << 23 {
            return Ok(());
        }
        // intervals this clock can tell apart
        for e in ev.iter_mut() {
            e.0 = e.0.min((1 << 24) - 1);
        }
    }
    // timestamps from zero, so that the first interval is the same in every form
    let total: u64 = ev.iter().map(|e| e.0).sum();
    let wraps = match kind {
        0 => total >> 24,
        1 => total >> 32,
        _ => 0,
    };
    let base = with_proto!(p, T => feed(&mut ByEvent::<T, u32>(Receiver::new(f)), &ev));
    let runs = with_proto!(p, T => match kind {
        0 => run_clock::<T, Up24>(f, &ev, 0),
        1 => run_clock::<T, Down>(f, &ev, 0),
        _ => run_clock::<T, Mixed>(f * 8, &ev, 0),
    });
    let name = [Up24::NAME, Down::NAME, Mixed::NAME][kind as usize];
    for (how, o) in &runs {
        if let Some(i) = diff(&base, o) {
            fail!(
                "{} at {f} Hz: edge {i}: u32 ticks {:?}, a user's clock ({name}) {how} {:?}\nevents: {}",
                p.name(), base.get(i), o.get(i), show(&ev)
            );
        }
    }
    tally(c, &base);
    c.count("user_clocks", 1);
    c.count("user_clock_wraps", wraps);
    c.distinct(hash64(&[hash_events(&ev), f as u64, kind]));
    c.sample(|| format!("{} at {f} Hz: {} edges timed by a {name} as by u32 ticks", p.name(), ev.len()));
    Ok(())
}

/// Clocks that jump back: no time has passed, and time goes on from there
fn back<M: Mono>(p: P, f: u32, stamps: &[(u64, bool)], pinned: bool) -> Vec<Out> {
    with_proto!(p, T => {
        if pinned {
            let pin = Pin::default();
            let mut r = Receiver::<T, Pin, M>::with_pin(f, pin.clone());
            stamps.iter().map(|(t, e)| { pin.mark.set(*e); out_pin(r.event_instant(M::inst(*t))) }).collect()
        } else {
            let mut r = Receiver::<T, NoPin, M>::new(f);
            stamps.iter().map(|(t, e)| out(r.event_instant(M::inst(*t), *e))).collect()
        }
    })
}

pub fn c07_backwards(c: &mut Case) -> Res {
    let p = ALL[(c.idx % 9) as usize];
    let f = *c.rng.pick(&[40_000u32, 100_000, 1_000_000]);
    let w = Wins::new(p, f);
    if !w.supported() {
        return Ok(());
    }
    let mut ev = c07_signal(c, p, &w);
    let jumps = c.rng.range(1, 4);
    let mut at: Vec<usize> = (0..jumps).map(|_| c.rng.below(ev.len() as u64) as usize).collect();
    at.sort();
    at.dedup();
    let mut stamps = vec![];
    let mut t = 1u64 << 61;
    // from the clock's zero to the first stamp
    let first = t + ev[0].0;
    for (i, (d, e)) in ev.iter_mut().enumerate() {
        if at.contains(&i) && i > 0 {
            t -= match c.rng.below(4) {
                0 => 1,
                1 => c.rng.range(1, w.quiet()),
                2 => c.rng.range(1, 1 << 40),
                _ => *c.rng.pick(&[1u64 << 16, 1 << 31, 1 << 32, (1 << 32) + 1]),
            };
            *d = 0;
            c.count("backward_stamps", 1);
        } else {
            t += *d;
        }
        stamps.push((t, *e));
    }
    ev[0].0 = first.min(u32::MAX as u64);
    let base = with_proto!(p, T => feed(&mut ByEvent::<T, u32>(Receiver::new(f)), &ev));
    let pinned = c.rng.bool();
    let runs = [
        ("u64", back::<u64>(p, f, &stamps, pinned)),
        (Mixed::NAME, {
            // this clock's unit is eight ticks
            with_proto!(p, T => {
                let mut r = Receiver::<T, NoPin, Mixed>::new(f * 8);
                stamps.iter().map(|(t, e)| out(r.event_instant(Mixed::inst(*t), *e))).collect()
            })
        }),
        ("fugit u64", match f {
            40_000 => back::<TimerInstantU64<40_000>>(p, f, &stamps, pinned),
            100_000 => back::<TimerInstantU64<100_000>>(p, f, &stamps, pinned),
            _ => back::<TimerInstantU64<1_000_000>>(p, f, &stamps, pinned),
        }),
    ];
    for (n, o) in &runs {
        if let Some(i) = diff(&base, o) {
            fail!(
                "{} at {f} Hz: edge {i}: with timestamps in {n} jumping back at edges {at:?}: {:?}, expected (no time passed there) {:?}\nevents: {}",
                p.name(), o.get(i), base.get(i), show(&ev)
            );
        }
    }
    tally(c, &base);
    c.distinct(hash64(&[hash_events(&ev), f as u64, at[0] as u64]));
    Ok(())
}

// ------------------------------------------------------------- C23

fn c23() -> Property {
    Property {
        id: "C23",
        rule: "distinct groups (by hash of all inputs and the schedule) of receivers, decoders, multi-receivers, buffer receivers and senders run interleaved or on several threads, every single result compared with the same object run alone",
        assumptions: &[
            "the runs alone happen in the same process, one after the other",
            "threads are scheduled by the operating system; the number of overlapping pairs is what the run produced",
        ],
        required: &["objects", "steps", "moves", "drops", "thread_objects", "thread_builds", "thread_handovers", "same_protocol_groups", "repeated_runs"],
        workloads: vec![
            Workload { name: "interleaved", quick: 150_000, thorough: 4_000_000, f: c23_interleaved },
            Workload { name: "builds", quick: 600, thorough: 12_000, f: c23_builds },
            Workload { name: "threads", quick: 12_000, thorough: 240_000, f: c23_threads },
        ],
    }
}

/// Something that takes one call after the other
trait Actor {
    fn step(&mut self, i: usize) -> Out;
    fn moved(self: Box<Self>) -> Box<dyn Actor>;
}
/// The same, allowed to change threads
trait ActorS: Send {
    fn step(&mut self, i: usize) -> Out;
}

struct RxA<R>(R, Vec<Ev>);
impl<R: Rx + 'static> Actor for RxA<R> {
    fn step(&mut self, i: usize) -> Out {
        let (d, e) = self.1[i];
        self.0.ev(d, e)
    }
    fn moved(self: Box<Self>) -> Box<dyn Actor> {
        Box::new(*self)
    }
}
impl<R: Rx + Send> ActorS for RxA<R> {
    fn step(&mut self, i: usize) -> Out {
        let (d, e) = self.1[i];
        self.0.ev(d, e)
    }
}

type Multi3 = (Nec, SamsungNec, Rc6);
struct MultiA(MultiReceiver<3, Multi3, NoPin>, Vec<Ev>);
fn fold(a: [Option<AnyCommand>; 3]) -> Out {
    let mut h = 0u64;
    for (i, s) in a.iter().enumerate() {
        if let Some(s) = s {
            h = hash64(&[h, i as u64 + 1, s.protocol as u64, s.raw, s.address as u64, s.command as u64, s.repeat as u64]);
        }
    }
    if h == 0 { Out::None } else { Out::Pin(h as u32) }
}
impl Actor for MultiA {
    fn step(&mut self, i: usize) -> Out {
        let (d, e) = self.1[i];
        fold(self.0.event_generic(d as u32, e))
    }
    fn moved(self: Box<Self>) -> Box<dyn Actor> {
        Box::new(*self)
    }
}
impl ActorS for MultiA {
    fn step(&mut self, i: usize) -> Out {
        let (d, e) = self.1[i];
        fold(self.0.event_generic(d as u32, e))
    }
}

#[derive(Clone, Debug)]
enum Op {
    Load(K),
    Tick(u32),
}
struct TxA(Box<dyn Tx>, Vec<Op>);
fn tx_step(t: &mut dyn Tx, op: &Op) -> Out {
    let mut h = 1u64;
    match op {
        Op::Load(k) => {
            t.load(k);
            for x in t.buffer() {
                h = hash64(&[h, x as u64]);
            }
        }
        Op::Tick(n) => {
            for _ in 0..*n {
                let l = t.tick();
                h = hash64(&[h, l as u64, t.other()]);
            }
        }
    }
    Out::Pin(h as u32)
}
impl Actor for TxA {
    fn step(&mut self, i: usize) -> Out {
        tx_step(&mut *self.0, &self.1[i])
    }
    fn moved(self: Box<Self>) -> Box<dyn Actor> {
        self
    }
}

/// Ticked and loaded, moved together with its contents
struct DataA(infrared::sender::PulsedataSender<96>, u32, Vec<Op>);
impl DataA {
    fn go(&mut self, i: usize) -> Out {
        use infrared::sender::Status;
        let mut h = 2u64;
        match &self.2[i] {
            Op::Load(k) => {
                crate::with_sendable!(k, T, cmd => self.0.load_command::<T, 40_000>(&cmd));
                for x in self.0.buffer() {
                    h = hash64(&[h, *x as u64]);
                }
            }
            Op::Tick(n) => {
                for _ in 0..*n {
                    let s = match self.0.tick(self.1) {
                        Status::Idle => 0,
                        Status::Transmit(false) => 1,
                        Status::Transmit(true) => 2,
                        Status::Error => 3,
                    };
                    self.1 = self.1.wrapping_add(1);
                    h = hash64(&[h, s]);
                }
            }
        }
        Out::Pin(h as u32)
    }
}
impl Actor for DataA {
    fn step(&mut self, i: usize) -> Out {
        self.go(i)
    }
    fn moved(self: Box<Self>) -> Box<dyn Actor> {
        Box::new(*self)
    }
}
impl ActorS for DataA {
    fn step(&mut self, i: usize) -> Out {
        self.go(i)
    }
}

/// What to build and what to call it with
#[derive(Clone)]
struct Plan {
    kind: u64,
    p: P,
    f: u32,
    ev: Vec<Ev>,
    ops: Vec<Op>,
}

const KINDS: u64 = 14;

impl Plan {
    fn steps(&self) -> usize {
        if self.kind >= 12 { self.ops.len() } else { self.ev.len() }
    }
    fn name(&self) -> String {
        let k = [
            "u32", "u64", "fugit u32", "fugit u64", "u32 by timestamp", "u64 by timestamp", "bare decoder", "polled", "multi-receiver",
            "pin", "pin by timestamp", "polled pin", "sender", "pin sender",
        ];
        format!("{} {} at {} Hz", self.p.name(), k[self.kind as usize], self.f)
    }
    fn random(p: P, kind: u64, rng: &mut Rng) -> Plan {
        let mut ev = vec![];
        let mut ops = vec![];
        let poll = kind == 7 || kind == 11;
        let mut f = if kind == 2 || kind == 3 { 1_000_000 } else if poll { *rng.pick(&[40_000u32, 32_768]) } else { random_freq(p, rng) };
        let mut w = Wins::new(p, f);
        if !w.supported() {
            f = 1_000_000;
            w = Wins::new(p, f);
        }
        if kind < 12 {
            let segs = rng.range(1, if poll { 2 } else { 4 });
            let t = tokens(p, &w, segs, rng, !poll);
            let lead = if poll { short_pause(&w, rng) } else { pause(&w, rng) };
            ev = to_events(p, &w, &t, lead, poll, rng);
            if poll {
                for e in ev.iter_mut() {
                    e.0 = e.0.clamp(1, 3 * w.quiet());
                }
            }
            // the polled ones need alternating edges
        } else {
            for _ in 0..rng.range(1, 3) {
                ops.push(Op::Load(random_sendable(*rng.pick(&SENDABLE), rng)));
                for _ in 0..rng.range(1, 6) {
                    ops.push(Op::Tick(rng.range(1, 1500) as u32));
                }
            }
        }
        Plan { kind, p, f, ev, ops }
    }
    fn build(&self) -> Box<dyn Actor> {
        let (f, ev) = (self.f, self.ev.clone());
        let pin = Pin::default();
        with_proto!(self.p, T => match self.kind {
            0 => Box::new(RxA(ByEvent::<T, u32>(Receiver::new(f)), ev)) as Box<dyn Actor>,
            1 => Box::new(RxA(ByEvent::<T, u64>(Receiver::new(f)), ev)),
            2 => Box::new(RxA(ByEvent::<T, TimerInstantU32<1_000_000>>(Receiver::new(f)), ev)),
            3 => Box::new(RxA(ByEvent::<T, TimerInstantU64<1_000_000>>(Receiver::new(f)), ev)),
            4 => Box::new(RxA(ByInstant::<T, u32>(Receiver::new(f), 0), ev)),
            5 => Box::new(RxA(ByInstant::<T, u64>(Receiver::new(f), 0), ev)),
            6 => Box::new(RxA(ByTotal::<T, u32>(<T as DecoderBuilder<u32>>::build(f)), ev)),
            7 => Box::new(RxA(ByPoll::<T>(infrared::PeriodicPoll::new(f), false), ev)),
            8 => Box::new(MultiA(MultiReceiver::new(f, NoPin), ev)),
            9 => Box::new(RxA(ByPin::<T, u32>(Receiver::with_pin(f, pin.clone()), pin), ev)),
            10 => Box::new(RxA(ByPinInstant::<T, u32>(Receiver::with_pin(f, pin.clone()), pin, 0), ev)),
            11 => Box::new(RxA(ByPollPin::<T>(infrared::PeriodicPoll::with_pin(f, pin.clone()), pin), ev)),
            12 => Box::new(DataA(infrared::sender::PulsedataSender::new(), 0, self.ops.clone())),
            _ => Box::new(TxA((TXS[(f % 7) as usize].1)(1, 0), self.ops.clone())),
        })
    }
    fn build_send(&self) -> Box<dyn ActorS> {
        let (f, ev) = (self.f, self.ev.clone());
        with_proto!(self.p, T => match self.kind {
            0 => Box::new(RxA(ByEvent::<T, u32>(Receiver::new(f)), ev)) as Box<dyn ActorS>,
            1 => Box::new(RxA(ByEvent::<T, u64>(Receiver::new(f)), ev)),
            2 => Box::new(RxA(ByEvent::<T, TimerInstantU32<1_000_000>>(Receiver::new(f)), ev)),
            3 => Box::new(RxA(ByEvent::<T, TimerInstantU64<1_000_000>>(Receiver::new(f)), ev)),
            4 => Box::new(RxA(ByInstant::<T, u32>(Receiver::new(f), 0), ev)),
            5 => Box::new(RxA(ByInstant::<T, u64>(Receiver::new(f), 0), ev)),
            6 => Box::new(RxA(ByTotal::<T, u32>(<T as DecoderBuilder<u32>>::build(f)), ev)),
            7 => Box::new(RxA(ByPoll::<T>(infrared::PeriodicPoll::new(f), false), ev)),
            8 => Box::new(MultiA(MultiReceiver::new(f, NoPin), ev)),
            _ => Box::new(DataA(infrared::sender::PulsedataSender::new(), 0, self.ops.clone())),
        })
    }
    fn alone(&self) -> Vec<Out> {
        let mut a = self.build();
        (0..self.steps()).map(|i| a.step(i)).collect()
    }
    fn hash(&self) -> u64 {
        let o: Vec<u64> = self.ops.iter().map(|o| match o { Op::Load(k) => k.w(), Op::Tick(n) => *n as u64 }).collect();
        hash64(&[hash_events(&self.ev), self.kind, self.f as u64, hash64(&o)])
    }
}

fn plans(c: &mut Case, n: u64, kinds: &[u64]) -> Vec<Plan> {
    // often all of one protocol and kind
    let same = c.rng.below(3);
    let p0 = ALL[(c.idx % 9) as usize];
    let k0 = *c.rng.pick(kinds);
    let mut v: Vec<Plan> = vec![];
    for _ in 0..n {
        let p = if same > 0 { p0 } else { *c.rng.pick(&ALL) };
        let k = if same == 2 { k0 } else { *c.rng.pick(kinds) };
        if !v.is_empty() && c.rng.chance(1, 6) {
            // the same object with the same input once more
            let again = v[c.rng.below(v.len() as u64) as usize].clone();
            v.push(again);
            c.count("repeated_runs", 1);
            continue;
        }
        v.push(Plan::random(p, k, &mut c.rng));
    }
    if same > 0 {
        c.count("same_protocol_groups", 1);
    }
    v
}

fn differs(pl: &Plan, how: &str, i: usize, got: Out, want: Out, all: &[Plan]) -> Res {
    let names: Vec<String> = all.iter().map(|p| p.name()).collect();
    fail!(
        "{}: call {i} {how}: {got:?}, alone {want:?}\nobjects: {names:?}\nevents: {} {:?}",
        pl.name(), show(&pl.ev), pl.ops
    )
}

fn c23_interleaved(c: &mut Case) -> Res {
    let n = c.rng.range(2, 7);
    let kinds: Vec<u64> = (0..KINDS).collect();
    let v = plans(c, n, &kinds);
    let alone: Vec<Vec<Out>> = v.iter().map(|p| p.alone()).collect();
    // what is alive, and how far it has come
    let mut live: Vec<Option<Box<dyn Actor>>> = (0..v.len()).map(|_| None).collect();
    let mut pos = vec![0usize; v.len()];
    let late = c.rng.bool();
    if !late {
        for (i, p) in v.iter().enumerate() {
            live[i] = Some(p.build());
        }
    }
    let burst = *c.rng.pick(&[1u64, 1, 3, 20, 200]);
    let mut h = 0u64;
    let mut open: Vec<usize> = (0..v.len()).collect();
    while !open.is_empty() {
        let x = c.rng.below(open.len() as u64) as usize;
        let i = open[x];
        if live[i].is_none() {
            live[i] = Some(v[i].build());
            pos[i] = 0;
        }
        let k = c.rng.range(1, burst);
        for _ in 0..k {
            if pos[i] == v[i].steps() {
                break;
            }
            let got = live[i].as_mut().unwrap().step(pos[i]);
            let want = alone[i][pos[i]];
            if got != want {
                return differs(&v[i], "interleaved with others", pos[i], got, want, &v);
            }
            pos[i] += 1;
            c.count("steps", 1);
        }
        h = hash64(&[h, i as u64, k]);
        if pos[i] == v[i].steps() {
            // gone, or kept while the others go on
            if c.rng.bool() {
                live[i] = None;
            }
            open.swap_remove(x);
            c.count("objects", 1);
            continue;
        }
        if c.rng.chance(1, 20) {
            let a = live[i].take().unwrap();
            live[i] = Some(a.moved());
            c.count("moves", 1);
        }
        if c.rng.chance(1, 400) {
            // dropped in the middle of a signal; later a new one starts over
            live[i] = None;
            c.count("drops", 1);
        }
    }
    for p in &v {
        h = hash64(&[h, p.hash()]);
    }
    c.distinct(h);
    c.sample(|| {
        let names: Vec<String> = v.iter().map(|p| p.name()).collect();
        format!("{names:?} interleaved in bursts of up to {burst} calls, each as if alone")
    });
    Ok(())
}

fn c23_threads(c: &mut Case) -> Res {
    let n = c.rng.range(2, 6);
    let kinds = [0u64, 1, 2, 3, 4, 5, 6, 7, 8, 12];
    let v = plans(c, n, &kinds);
    let alone: Vec<Vec<Out>> = v.iter().map(|p| p.alone()).collect();
    let hand = c.rng.bool();
    let start = Barrier::new(v.len());
    let results: Vec<Vec<Out>> = std::thread::scope(|s| {
        let hs: Vec<_> = v
            .iter()
            .map(|p| {
                let start = &start;
                s.spawn(move || {
                    let mut a = p.build_send();
                    start.wait();
                    let half = if hand { p.steps() / 2 } else { p.steps() };
                    let mut o: Vec<Out> = (0..half).map(|i| a.step(i)).collect();
                    if hand {
                        // the rest on another thread
                        let rest = std::thread::scope(|s2| {
                            s2.spawn(move || (half..p.steps()).map(|i| a.step(i)).collect::<Vec<Out>>()).join()
                        });
                        match rest {
                            Ok(r) => o.extend(r),
                            Err(e) => std::panic::resume_unwind(e),
                        }
                    }
                    o
                })
            })
            .collect();
        let mut out = vec![];
        for h in hs {
            match h.join() {
                Ok(o) => out.push(o),
                Err(_) => out.push(vec![]),
            }
        }
        out
    });
    let mut h = 0u64;
    for (i, p) in v.iter().enumerate() {
        if results[i].len() != alone[i].len() {
            fail!("{}: panicked on a thread of its own, not alone", p.name());
        }
        if let Some(j) = diff(&alone[i], &results[i]) {
            return differs(p, "on a thread beside others", j, results[i][j], alone[i][j], &v);
        }
        c.count("thread_objects", 1);
        c.count("thread_steps", results[i].len() as u64);
        c.count("thread_handovers", hand as u64);
        h = hash64(&[h, p.hash()]);
    }
    c.distinct(h);
    Ok(())
}


/// Threads that build one receiver after the other, each for a rate of its own
fn c23_builds(c: &mut Case) -> Res {
    let kinds = [0u64, 1, 4, 5, 6, 8];
    let n = c.rng.range(2, 4) as usize;
    let p0 = ALL[(c.idx % 9) as usize];
    let same = c.rng.bool();
    let mut sets: Vec<Vec<Plan>> = vec![];
    for _ in 0..n {
        let mut v = vec![];
        for _ in 0..6 {
            let p = if same { p0 } else { *c.rng.pick(&ALL) };
            let mut pl = Plan::random(p, *c.rng.pick(&kinds), &mut c.rng);
            let fr = random_frame(p, &mut c.rng);
            let w = Wins::new(p, pl.f);
            pl.ev = play_frame(&fr, &w, pause(&w, &mut c.rng), Jit::Any, Marks::Nominal, &mut c.rng).0;
            v.push(pl);
        }
        sets.push(v);
    }
    let alone: Vec<Vec<Vec<Out>>> = sets.iter().map(|v| v.iter().map(|p| p.alone()).collect()).collect();
    let start = Barrier::new(n);
    let bad: Vec<Option<(usize, Vec<Out>)>> = std::thread::scope(|s| {
        let hs: Vec<_> = (0..n)
            .map(|t| {
                let (start, v, want) = (&start, &sets[t], &alone[t]);
                s.spawn(move || {
                    start.wait();
                    for _ in 0..25 {
                        for (i, p) in v.iter().enumerate() {
                            let mut a = p.build_send();
                            let o: Vec<Out> = (0..p.steps()).map(|i| a.step(i)).collect();
                            if o != want[i] {
                                return Some((i, o));
                            }
                        }
                    }
                    None
                })
            })
            .collect();
        hs.into_iter().map(|h| h.join().unwrap_or(Some((0, vec![])))).collect()
    });
    for (t, b) in bad.iter().enumerate() {
        if let Some((i, o)) = b {
            let p = &sets[t][*i];
            let j = diff(&alone[t][*i], o).unwrap_or(0);
            return differs(p, "while other threads build receivers", j, o.get(j).cloned().unwrap_or(Out::None), alone[t][*i][j], &sets.concat());
        }
        c.count("thread_builds", 150);
    }
    let mut h = 0;
    for p in sets.iter().flatten() {
        h = hash64(&[h, p.hash()]);
    }
    c.distinct(h);
    Ok(())
}
