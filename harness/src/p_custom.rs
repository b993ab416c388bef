//! C21, C22, C26: what the library does for protocols written by its users.
//!
//! C21 plugs a recording decoder into every front end: it logs each call made
//! to it and decides by a script what to answer.

use crate::fail;
use crate::fw::*;
use crate::sut::{Mono, Pin};
use crate::spec::Ev;
use fugit::{TimerInstantU32, TimerInstantU64};
use infrared::cmd::AnyCommand;
use infrared::receiver::time::{InfraMonotonic, PulseSpans};
use infrared::receiver::{DecoderBuilder, DecodingError, Error, MultiReceiver, NoPin, ProtocolDecoder, State};
use infrared::{BufferInputReceiver, PeriodicPoll, Protocol, ProtocolId, Receiver};
use std::cell::RefCell;

pub fn props() -> Vec<Property> {
    vec![c21(), c22(), c26()]
}

// ------------------------------------------------------------------ C21

fn c21() -> Property {
    Property {
        id: "C21",
        rule: "distinct (front end, time type, signal, answers of the plugged-in decoder) runs by hash; every call the library made to the decoder is on record and was judged",
        assumptions: &[
            "polled front ends and buffers see alternating edges",
            "the decoder may be reset more than once in a row, and asked for its command any number of times",
        ],
        required: &["events_judged", "commands", "empty_completions", "error_kinds", "resets_judged", "pin_errors", "polls", "buffers", "multi_slots", "long_waits", "constructed"],
        workloads: vec![
            Workload { name: "events", quick: 400_000, thorough: 10_000_000, f: c21_events },
            Workload { name: "polled", quick: 60_000, thorough: 1_200_000, f: c21_polled },
            Workload { name: "buffer", quick: 150_000, thorough: 4_000_000, f: c21_buffer },
            Workload { name: "multi", quick: 150_000, thorough: 4_000_000, f: c21_multi },
            Workload { name: "constructors", quick: 60_000, thorough: 600_000, f: c21_constructors },
            Workload { name: "soak", quick: 8, thorough: 64, f: c21_soak },
            Workload { name: "patience", quick: 32, thorough: 320, f: c21_patience },
        ],
    }
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
enum Call {
    Build(u32),
    Event(bool, u64),
    Reset,
}

/// What the decoder answers to an event
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
enum Ans {
    Idle,
    Receiving,
    Done,
    /// completion without a command
    Empty,
    Err(DecodingError),
}

impl Ans {
    fn ends(self) -> bool {
        matches!(self, Ans::Done | Ans::Empty | Ans::Err(_))
    }
}

#[derive(Default)]
struct Slot {
    calls: Vec<Call>,
    script: Vec<Ans>,
    n: usize,
}

thread_local! {
    static SLOTS: RefCell<[Slot; 6]> = RefCell::new(Default::default());
}

fn set_script(i: usize, script: &[Ans]) {
    SLOTS.with(|s| s.borrow_mut()[i] = Slot { calls: vec![], script: script.to_vec(), n: 0 });
}

fn take_calls(i: usize) -> Vec<Call> {
    SLOTS.with(|s| std::mem::take(&mut s.borrow_mut()[i].calls))
}

/// User defined protocol number `I`
struct Rec<const I: usize>;

#[derive(Debug, PartialEq, Eq)]
struct RecCmd {
    slot: u32,
    /// number of the event that completed it
    n: u32,
}

/// What the receiver's user wants to have instead of the command
#[derive(Debug, PartialEq, Eq)]
struct Wrapped(u32, u32);

impl From<RecCmd> for Wrapped {
    fn from(c: RecCmd) -> Self {
        Wrapped(c.slot, c.n)
    }
}

impl From<RecCmd> for AnyCommand {
    fn from(c: RecCmd) -> Self {
        AnyCommand { protocol: ProtocolId::Unknown, raw: c.n as u64, address: c.slot, command: !c.n, repeat: c.n % 2 == 1 }
    }
}

impl<const I: usize> Protocol for Rec<I> {
    type Cmd = RecCmd;
}

struct RecDecoder<M: InfraMonotonic, const I: usize> {
    cmd: Option<u32>,
    spans: PulseSpans<M>,
}

impl<M: Mono, const I: usize> DecoderBuilder<M> for Rec<I> {
    type Decoder = RecDecoder<M, I>;
    fn build(freq: u32) -> Self::Decoder {
        SLOTS.with(|s| s.borrow_mut()[I].calls.push(Call::Build(freq)));
        RecDecoder { cmd: None, spans: PulseSpans::new(1000, &[0; 8], &[0; 8]) }
    }
}

impl<M: Mono, const I: usize> ProtocolDecoder<Rec<I>, M> for RecDecoder<M, I> {
    fn event(&mut self, edge: bool, dt: M::Duration) -> State {
        SLOTS.with(|s| {
            let s = &mut s.borrow_mut()[I];
            s.calls.push(Call::Event(edge, M::ticks(dt)));
            let a = s.script.get(s.n).copied().unwrap_or(Ans::Idle);
            self.cmd = if a == Ans::Done { Some(s.n as u32) } else { None };
            s.n += 1;
            match a {
                Ans::Idle => State::Idle,
                Ans::Receiving => State::Receiving,
                Ans::Done | Ans::Empty => State::Done,
                Ans::Err(e) => State::Error(e),
            }
        })
    }
    fn command(&self) -> Option<RecCmd> {
        self.cmd.map(|n| RecCmd { slot: I as u32, n })
    }
    fn reset(&mut self) {
        self.cmd = None;
        SLOTS.with(|s| s.borrow_mut()[I].calls.push(Call::Reset));
    }
    fn spans(&self) -> &PulseSpans<M> {
        &self.spans
    }
}

/// What a front end answers
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
enum Got {
    Nothing,
    Cmd(u32, u32),
    Err(DecodingError),
    Pin(u32),
}

trait Seen {
    fn seen(&self) -> (u32, u32);
}
impl Seen for RecCmd {
    fn seen(&self) -> (u32, u32) {
        (self.slot, self.n)
    }
}
impl Seen for Wrapped {
    fn seen(&self) -> (u32, u32) {
        (self.0, self.1)
    }
}

fn got<C: Seen>(r: Result<Option<C>, DecodingError>) -> Got {
    match r {
        Ok(None) => Got::Nothing,
        Ok(Some(c)) => Got::Cmd(c.seen().0, c.seen().1),
        Err(e) => Got::Err(e),
    }
}

fn got_pin<C: Seen>(r: Result<Option<C>, Error<u32>>) -> Got {
    match r {
        Ok(None) => Got::Nothing,
        Ok(Some(c)) => Got::Cmd(c.seen().0, c.seen().1),
        Err(Error::Address) => Got::Err(DecodingError::Address),
        Err(Error::Data) => Got::Err(DecodingError::Data),
        Err(Error::Validation) => Got::Err(DecodingError::Validation),
        Err(Error::RemoteControlError) => Got::Err(DecodingError::RemoteControlError),
        Err(Error::Hal(n)) => Got::Pin(n),
    }
}

fn want(slot: u32, n: usize, a: Ans) -> Got {
    match a {
        Ans::Idle | Ans::Receiving | Ans::Empty => Got::Nothing,
        Ans::Done => Got::Cmd(slot, n as u32),
        Ans::Err(e) => Got::Err(e),
    }
}

fn script(n: usize, rng: &mut Rng) -> Vec<Ans> {
    let dense = *rng.pick(&[2u64, 5, 30]);
    (0..n)
        .map(|_| {
            if rng.below(dense) != 0 {
                return if rng.bool() { Ans::Idle } else { Ans::Receiving };
            }
            match rng.below(8) {
                0 => Ans::Err(DecodingError::Address),
                1 => Ans::Err(DecodingError::Data),
                2 => Ans::Err(DecodingError::Validation),
                3 => Ans::Err(DecodingError::RemoteControlError),
                4 => Ans::Empty,
                _ => Ans::Done,
            }
        })
        .collect()
}

/// Judge the calls made to one decoder
fn judge(c: &mut Case, what: &str, f: u32, calls: &[Call], script: &[Ans], ev: &[Ev]) -> Res {
    let builds: Vec<_> = calls.iter().filter(|c| matches!(c, Call::Build(_))).collect();
    if builds != [&Call::Build(f)] {
        fail!("{what}: the decoder for {f} Hz was built as {builds:?}");
    }
    let mut n = 0;
    let mut reset = false;
    for x in calls {
        match x {
            Call::Build(_) => {}
            Call::Reset => reset = true,
            Call::Event(e, d) => {
                if n > 0 {
                    let must = script[n - 1].ends();
                    if must != reset {
                        fail!(
                            "{what}: after event {} ({:?}) the decoder was {}",
                            n - 1, script[n - 1], if reset { "reset although it had not finished" } else { "not reset" }
                        );
                    }
                    c.count("resets_judged", must as u64);
                }
                match ev.get(n) {
                    Some(w) if *w == (*d, *e) => {}
                    w => fail!("{what}: event {n} handed to the decoder is {:?}, the signal has {w:?}", (d, e)),
                }
                reset = false;
                n += 1;
            }
        }
    }
    if n != ev.len() {
        fail!("{what}: the decoder got {n} of {} edges", ev.len());
    }
    if n > 0 && script[n - 1].ends() != reset {
        fail!("{what}: after the last event ({:?}) the decoder was {}reset", script[n - 1], if reset { "" } else { "not " });
    }
    c.count("events_judged", n as u64);
    for a in script {
        match a {
            Ans::Done => c.count("commands", 1),
            Ans::Empty => c.count("empty_completions", 1),
            Ans::Err(_) => c.count("error_kinds", 1),
            _ => {}
        }
    }
    Ok(())
}

fn signal(c: &mut Case, n: usize, wide: bool, alternate: bool) -> Vec<Ev> {
    let mut e = false;
    let alt = alternate || c.rng.bool();
    (0..n)
        .map(|_| {
            e = if alt { !e } else { c.rng.bool() };
            let d = match c.rng.below(8) {
                0 => 0,
                1 => (1 << 31) - 1,
                2 => 1 << c.rng.below(31),
                3 if wide => c.rng.next() >> c.rng.range(1, 40),
                4 => c.rng.below(1 << 31),
                _ => c.rng.below(20_000),
            };
            (d, e)
        })
        .collect()
}

/// One event front end; every call's answer is compared
fn one_event<M: Mono>(c: &mut Case, f: u32, kind: u64, sc: &[Ans], ev: &[Ev]) -> Res {
    set_script(0, sc);
    let what = format!("{} receiver, form {kind}", M::NAME);
    let mut t = 0u64;
    let mut gots: Vec<Got> = vec![];
    let pin = Pin::default();
    let mut pin_errors = 0;
    match kind {
        0 => {
            let mut r = Receiver::<Rec<0>, NoPin, M>::new(f);
            gots.extend(ev.iter().map(|(d, e)| got(r.event(M::dur(*d), *e))));
        }
        1 => {
            let mut r = Receiver::<Rec<0>, NoPin, M, Wrapped>::with_input(f, NoPin);
            gots.extend(ev.iter().map(|(d, e)| got(r.event_edge(M::dur(*d), *e))));
        }
        2 => {
            let mut r = Receiver::<Rec<0>, NoPin, M, Wrapped>::new(f);
            gots.extend(ev.iter().map(|(d, e)| {
                t = t.wrapping_add(*d);
                got(r.event_instant(M::inst(t), *e))
            }));
        }
        3 | 4 => {
            let mut r = Receiver::<Rec<0>, Pin, M>::with_pin(f, pin.clone());
            for (d, e) in ev {
                pin.mark.set(*e);
                while c.rng.chance(1, 12) {
                    // fails: nothing may reach the decoder
                    let n = c.rng.u32();
                    pin.fail.set(Some(n));
                    let g = if kind == 3 { got_pin(r.event(M::dur(77))) } else { got_pin(r.event_instant(M::inst(t))) };
                    pin.fail.set(None);
                    pin_errors += 1;
                    if g != Got::Pin(n) {
                        fail!("{what}: the pin failed with {n}, reported {g:?}");
                    }
                }
                t = t.wrapping_add(*d);
                gots.push(if kind == 3 { got_pin(r.event(M::dur(*d))) } else { got_pin(r.event_instant(M::inst(t))) });
            }
        }
        5 => {
            let mut r = infrared::receiver().protocol::<Rec<0>>().frequency(f).monotonic::<M>().pin(pin.clone()).build();
            for (d, e) in ev {
                pin.mark.set(*e);
                gots.push(if c.rng.bool() { got_pin(r.event(M::dur(*d))) } else { got(r.event_edge(M::dur(*d), *e)) });
            }
        }
        _ => {
            let mut d = <Rec<0> as DecoderBuilder<M>>::build(f);
            gots.extend(ev.iter().map(|(t, e)| got(d.event_total(*e, M::dur(*t)))));
        }
    }
    let calls = take_calls(0);
    c.count("pin_errors", pin_errors);
    for (i, g) in gots.iter().enumerate() {
        let w = want(0, i, sc[i]);
        if *g != w {
            fail!("{what} at {f} Hz: event {i}: the decoder says {:?}, the receiver {g:?}", sc[i]);
        }
    }
    judge(c, &what, f, &calls, sc, ev)
}

fn c21_events(c: &mut Case) -> Res {
    let n = c.rng.range(1, 60) as usize;
    let sc = script(n, &mut c.rng);
    let f = match c.rng.below(4) {
        0 => 1_000_000,
        1 => c.rng.below(100_000) as u32,
        _ => c.rng.u32(),
    };
    let kind = c.idx % 7;
    let ty = c.idx / 7 % 5;
    // intervals beyond 32 bits only where the time type has them
    let wide = ty == 1 || ty == 3;
    let mut ev = signal(c, n, wide, false);
    if kind == 2 || kind == 4 {
        // time stamps: the 64 bit clocks do not wrap
        ev.iter_mut().for_each(|e| e.0 &= (1 << 56) - 1);
    }
    c.distinct(hash64(&[hash_events(&ev), kind, ty, hash_str(&format!("{sc:?}"))]));
    c.sample(|| format!("form {kind}, time type {ty}, {f} Hz: {n} events handed over and answered exactly, {:?}...", &sc[..n.min(6)]));
    match ty {
        0 => one_event::<u32>(c, f, kind, &sc, &ev),
        1 => one_event::<u64>(c, f, kind, &sc, &ev),
        2 => one_event::<TimerInstantU32<1_000_000>>(c, f, kind, &sc, &ev),
        3 => one_event::<TimerInstantU64<32_768>>(c, f, kind, &sc, &ev),
        _ => one_event::<fugit::Instant<u32, 25, 1_000_000>>(c, f, kind, &sc, &ev),
    }
}

fn hash_events(ev: &[Ev]) -> u64 {
    ev.iter().fold(7, |h, (d, e)| hash64(&[h, *d, *e as u64]))
}

fn polled(c: &mut Case, f: u32, kind: u64, sc: &[Ans], ev: &[Ev]) -> Res {
    set_script(0, sc);
    let what = format!("polled receiver, form {kind}");
    let pin = Pin::default();
    let mut level = false;
    let mut gots = vec![];
    let (mut polls, mut pin_errors) = (0u64, 0);
    macro_rules! run {
        ($poll:expr, $pinned:expr) => {
            for (d, e) in ev {
                for i in 0..*d {
                    if $pinned && c.rng.chance(1, 40) {
                        // the failed poll takes no time: not counted
                        let n = c.rng.u32();
                        pin.fail.set(Some(n));
                        let g = $poll;
                        pin.fail.set(None);
                        pin_errors += 1;
                        if g != Got::Pin(n) {
                            fail!("{what}: the pin failed with {n}, reported {g:?}");
                        }
                    }
                    if i + 1 == *d {
                        level = *e;
                    }
                    pin.mark.set(level);
                    polls += 1;
                    let g = $poll;
                    if i + 1 == *d {
                        gots.push(g);
                    } else if g != Got::Nothing {
                        fail!("{what}: {g:?} without an edge");
                    }
                }
            }
        };
    }
    match kind {
        0 => {
            let mut r = PeriodicPoll::<Rec<0>>::new(f);
            run!(got(r.poll(level)), false)
        }
        1 => {
            let mut r = PeriodicPoll::<Rec<0>, Pin, Wrapped>::with_pin(f, pin.clone());
            run!(got_pin(r.poll()), true)
        }
        2 => {
            let mut r = PeriodicPoll::<Rec<0>, u8, Wrapped>::with_input(f, 3u8);
            run!(got(r.poll_base(level)), false)
        }
        _ => {
            let mut r = infrared::receiver().pin(pin.clone()).frequency(f).protocol::<Rec<0>>().build_polled();
            run!(got_pin(r.poll()), true)
        }
    }
    let calls = take_calls(0);
    c.count("polls", polls);
    c.count("pin_errors", pin_errors);
    for (i, g) in gots.iter().enumerate() {
        if *g != want(0, i, sc[i]) {
            fail!("{what} at {f} Hz: edge {i}: the decoder says {:?}, the receiver {g:?}", sc[i]);
        }
    }
    judge(c, &what, f, &calls, sc, ev)
}

fn c21_polled(c: &mut Case) -> Res {
    let n = c.rng.range(1, 40) as usize;
    let sc = script(n, &mut c.rng);
    let f = c.rng.u32();
    let long = c.rng.chance(1, 50);
    let mut e = false;
    let ev: Vec<Ev> = (0..n)
        .map(|_| {
            e = !e;
            let d = match c.rng.below(20) {
                0 if long => c.rng.range(60_000, 140_000),
                0..=3 => c.rng.range(100, 800),
                4..=8 => 1,
                _ => c.rng.range(1, 60),
            };
            (d, e)
        })
        .collect();
    c.distinct(hash64(&[hash_events(&ev), hash_str(&format!("{sc:?}"))]));
    polled(c, f, c.idx % 4, &sc, &ev)
}

fn buffered<M: Mono>(c: &mut Case, f: u32, kind: u64, sc: &[Ans], ev: &[Ev]) -> Res {
    set_script(0, sc);
    let buf: Vec<M::Duration> = ev.iter().map(|e| M::dur(e.0)).collect();
    let mut f = f;
    let got: Vec<(u32, u32)> = match kind {
        0 => BufferInputReceiver::<Rec<0>, M>::with_frequenzy(f).iter(&buf).map(|c| c.seen()).collect(),
        1 => BufferInputReceiver::<Rec<0>, M, Wrapped>::with_frequenzy(f).iter(&buf).map(|c| c.seen()).collect(),
        2 => {
            f = 1_000_000;
            BufferInputReceiver::<Rec<0>, M>::new().iter(&buf).map(|c| c.seen()).collect()
        }
        _ => BufferInputReceiver::<infrared::protocol::Nec>::new().iter_with::<Rec<0>, M, Wrapped>(f, &buf).map(|c: Wrapped| c.seen()).collect(),
    };
    let calls = take_calls(0);
    let want: Vec<(u32, u32)> = (0..sc.len()).filter(|i| sc[*i] == Ans::Done).map(|i| (0, i as u32)).collect();
    if got != want {
        fail!("{} buffer receiver, form {kind}: returns the commands of events {got:?}, the decoder completed {want:?}", M::NAME);
    }
    c.count("buffers", 1);
    judge(c, &format!("{} buffer receiver, form {kind}", M::NAME), f, &calls, sc, ev)
}

fn c21_buffer(c: &mut Case) -> Res {
    let n = c.rng.range(1, 80) as usize;
    let sc = script(n, &mut c.rng);
    let f = c.rng.u32();
    let ty = c.idx % 4;
    let ev = signal(c, n, ty % 2 == 1, true);
    let kind = c.rng.below(4);
    c.distinct(hash64(&[hash_events(&ev), kind, ty, hash_str(&format!("{sc:?}"))]));
    match ty {
        0 => buffered::<u32>(c, f, kind, &sc, &ev),
        1 => buffered::<u64>(c, f, kind, &sc, &ev),
        2 => buffered::<TimerInstantU32<40_000>>(c, f, kind, &sc, &ev),
        _ => buffered::<TimerInstantU64<1_000_000>>(c, f, kind, &sc, &ev),
    }
}

/// A slot of a multi-receiver, as the numbers in it
type S = Option<(u32, u64, u32, u32, bool)>;

fn any(a: &AnyCommand) -> (u32, u64, u32, u32, bool) {
    (a.protocol as u8 as u32, a.raw, a.address, a.command, a.repeat)
}

fn multi<M: Mono>(c: &mut Case, f: u32, size: usize, form: u64, ev: &[Ev]) -> Res {
    let scs: Vec<Vec<Ans>> = (0..size).map(|_| script(ev.len(), &mut c.rng)).collect();
    for (i, s) in scs.iter().enumerate() {
        set_script(i, s);
    }
    let pin = Pin::default();
    let mut rows: Vec<Vec<S>> = vec![];
    let mut pin_errors = 0;
    macro_rules! go {
        ($n:literal, $T:ty) => {
            if form < 2 {
                let mut r = MultiReceiver::<$n, $T, NoPin, M>::new(f, NoPin);
                for (d, e) in ev {
                    rows.push(if form == 0 {
                        r.event_generic(M::dur(*d), *e).iter().map(|x| x.as_ref().map(any)).collect()
                    } else {
                        r.event_generic_iter(M::dur(*d), *e).map(|x| Some(any(&x))).collect()
                    });
                }
            } else {
                let mut r = MultiReceiver::<$n, $T, Pin, M>::new(f, pin.clone());
                for (d, e) in ev {
                    pin.mark.set(*e);
                    while c.rng.chance(1, 12) {
                        let n = c.rng.u32();
                        pin.fail.set(Some(n));
                        let g = if form == 2 { r.event(M::dur(5)).err() } else { r.event_iter(M::dur(5)).err() };
                        pin.fail.set(None);
                        pin_errors += 1;
                        if g != Some(n) {
                            fail!("multi-receiver of {size}: the pin failed with {n}, reported {g:?}");
                        }
                    }
                    rows.push(if form == 2 {
                        r.event(M::dur(*d)).expect("pin").iter().map(|x| x.as_ref().map(any)).collect()
                    } else {
                        r.event_iter(M::dur(*d)).expect("pin").map(|x| Some(any(&x))).collect()
                    });
                }
            }
        };
    }
    match size {
        2 => go!(2, (Rec<0>, Rec<1>)),
        3 => go!(3, (Rec<0>, Rec<1>, Rec<2>)),
        4 => go!(4, (Rec<0>, Rec<1>, Rec<2>, Rec<3>)),
        5 => go!(5, (Rec<0>, Rec<1>, Rec<2>, Rec<3>, Rec<4>)),
        _ => go!(6, (Rec<0>, Rec<1>, Rec<2>, Rec<3>, Rec<4>, Rec<5>)),
    }
    c.count("pin_errors", pin_errors);
    for (n, row) in rows.iter().enumerate() {
        let mut w: Vec<S> = (0..size)
            .map(|i| (scs[i][n] == Ans::Done).then(|| any(&RecCmd { slot: i as u32, n: n as u32 }.into())))
            .collect();
        if form % 2 == 1 {
            w.retain(|x| x.is_some());
        }
        if *row != w {
            let says: Vec<Ans> = scs.iter().map(|s| s[n]).collect();
            fail!("multi-receiver of {size} ({}), form {form}: event {n}: the decoders say {says:?}, slots are {row:?}", M::NAME);
        }
    }
    for i in 0..size {
        let calls = take_calls(i);
        judge(c, &format!("multi-receiver of {size} ({}), form {form}, slot {i}", M::NAME), f, &calls, &scs[i], ev)?;
        c.count("multi_slots", 1);
    }
    Ok(())
}

fn c21_multi(c: &mut Case) -> Res {
    let size = 2 + (c.idx % 5) as usize;
    let form = c.idx / 5 % 4;
    let ty = c.idx / 20 % 4;
    let n = c.rng.range(1, 40) as usize;
    let ev = signal(c, n, ty % 2 == 1, false);
    let f = c.rng.u32();
    c.distinct(hash64(&[hash_events(&ev), size as u64, form, ty]));
    match ty {
        0 => multi::<u32>(c, f, size, form, &ev),
        1 => multi::<u64>(c, f, size, form, &ev),
        2 => multi::<TimerInstantU32<1_000_000>>(c, f, size, form, &ev),
        _ => multi::<TimerInstantU64<1_000_000>>(c, f, size, form, &ev),
    }
}

/// Polled receivers whose line does not change for a very long time, in the middle of things
/// Every way to make a receiver hands the decoder its rate, and drives it
fn c21_constructors(c: &mut Case) -> Res {
    const WAYS: [&str; 18] = [
        "Receiver::with_fugit", "Receiver::with_fugit64", "Receiver::with_input", "Receiver::with_pin", "Receiver::new",
        "builder, rate last", "builder, rate first", "builder, rate twice", "builder, no rate", "builder, pin, u64",
        "builder, pin, fugit", "builder, pin, fugit 64", "builder, polled", "builder, polled, rate first", "builder, polled, no rate",
        "PeriodicPoll::new", "PeriodicPoll::with_pin", "PeriodicPoll::with_input",
    ];
    type T32<const F: u32> = TimerInstantU32<F>;
    type T64<const F: u32> = TimerInstantU64<F>;
    let way = (c.idx % 18) as usize;
    let fs = (c.idx / 18 % 3) as usize;
    let n = c.rng.range(1, 12) as usize;
    let sc = script(n, &mut c.rng);
    let mut f = match c.rng.below(3) {
        0 => c.rng.below(1_000_000) as u32,
        _ => c.rng.u32(),
    };
    let polled = way >= 12;
    // polled: an edge at each poll
    let ev: Vec<Ev> = if polled { (0..n).map(|i| (1, i % 2 == 0)).collect() } else { signal(c, n, false, false) };
    let what = WAYS[way];
    let pin = Pin::default();
    let mut gots: Vec<Got> = vec![];
    set_script(0, &sc);
    macro_rules! pinned {
        ($M:ty, $r:expr) => {{
            let mut r = $r;
            for (d, e) in &ev {
                pin.mark.set(*e);
                gots.push(got_pin(r.event(<$M as Mono>::dur(*d))));
            }
        }};
    }
    macro_rules! free {
        ($r:expr) => {{
            let mut r = $r;
            for (d, e) in &ev {
                gots.push(got(r.event_edge(*d as u32, *e)));
            }
        }};
    }
    macro_rules! poll {
        ($r:expr) => {{
            let mut r = $r;
            for (_, e) in &ev {
                gots.push(got(r.poll(*e)));
            }
        }};
        (pin $r:expr) => {{
            let mut r = $r;
            for (_, e) in &ev {
                pin.mark.set(*e);
                gots.push(got_pin(r.poll()));
            }
        }};
    }
    macro_rules! rates {
        ($w:ident, $T:ident) => {
            match fs {
                0 => { f = 40_000; pinned!($T<40_000>, Receiver::<Rec<0>, Pin, $T<40_000>>::$w(pin.clone())) }
                1 => { f = 1_000_000; pinned!($T<1_000_000>, Receiver::<Rec<0>, Pin, $T<1_000_000>, Wrapped>::$w(pin.clone())) }
                _ => { f = 72_000_000; pinned!($T<72_000_000>, Receiver::<Rec<0>, Pin, $T<72_000_000>>::$w(pin.clone())) }
            }
        };
    }
    match way {
        0 => rates!(with_fugit, T32),
        1 => rates!(with_fugit64, T64),
        2 => pinned!(u64, Receiver::<Rec<0>, Pin, u64, Wrapped>::with_input(f, pin.clone())),
        3 => pinned!(T32<500_000>, Receiver::<Rec<0>, Pin, T32<500_000>>::with_pin(f, pin.clone())),
        4 => free!(Receiver::<Rec<0>>::new(f)),
        5 => free!(infrared::receiver().protocol::<Rec<0>>().frequency(f).build()),
        6 => free!(infrared::receiver().frequency(f).protocol::<Rec<0>>().build()),
        7 => free!(infrared::receiver().frequency(!f).protocol::<Rec<0>>().frequency(f).build()),
        8 => {
            f = 1_000_000;
            free!(infrared::receiver().protocol::<Rec<0>>().build())
        }
        9 => pinned!(u64, infrared::receiver().frequency(f).pin(pin.clone()).monotonic::<u64>().protocol::<Rec<0>>().build()),
        10 => pinned!(T32<40_000>, infrared::receiver().monotonic::<T32<40_000>>().protocol::<Rec<0>>().frequency(f).pin(pin.clone()).build()),
        11 => pinned!(T64<40_000>, infrared::receiver().protocol::<Rec<0>>().frequency(f).pin(pin.clone()).monotonic::<T64<40_000>>().build()),
        12 => poll!(pin infrared::receiver().protocol::<Rec<0>>().pin(pin.clone()).frequency(f).build_polled()),
        13 => poll!(pin infrared::receiver().frequency(f).pin(pin.clone()).protocol::<Rec<0>>().build_polled()),
        14 => {
            f = 1_000_000;
            poll!(infrared::receiver().protocol::<Rec<0>>().build_polled())
        }
        15 => poll!(PeriodicPoll::<Rec<0>>::new(f)),
        16 => poll!(pin PeriodicPoll::<Rec<0>, Pin>::with_pin(f, pin.clone())),
        _ => poll!(pin PeriodicPoll::<Rec<0>, Pin, Wrapped>::with_input(f, pin.clone())),
    }
    let calls = take_calls(0);
    for (i, g) in gots.iter().enumerate() {
        let w = want(0, i, sc[i]);
        if *g != w {
            fail!("{what} at {f} Hz: event {i}: the decoder says {:?}, the receiver {g:?}", sc[i]);
        }
    }
    c.count("constructed", 1);
    c.distinct(hash64(&[hash_events(&ev), way as u64, f as u64, 77, hash_str(&format!("{sc:?}"))]));
    judge(c, what, f, &calls, &sc, &ev)
}

fn c21_patience(c: &mut Case) -> Res {
    let n = 12;
    let sc = script(n, &mut c.rng);
    let f = *c.rng.pick(&[20_000u32, 40_000, 1_000_000]);
    let at = c.rng.below(n as u64) as usize;
    let top = [17, 18, 20, 22, 24, 25, 26, 27][(c.idx / 4 % 8) as usize];
    let ev: Vec<Ev> = (0..n)
        .map(|i| (if i == at { (1 << top) + c.rng.below(1 << (top - 1)) } else { c.rng.range(1, 60) }, i % 2 == 0))
        .collect();
    c.count("long_waits", 1);
    c.distinct(hash64(&[hash_events(&ev), hash_str(&format!("{sc:?}"))]));
    polled(c, f, c.idx % 4, &sc, &ev)
}

/// Many events, commands and errors on one receiver
fn c21_soak(c: &mut Case) -> Res {
    let n = 140_000;
    let sc = script(n, &mut c.rng);
    match c.idx % 4 {
        0 => {
            let ev = signal(c, n, false, false);
            let kind = c.rng.below(7);
            one_event::<u32>(c, 1_000_000, kind, &sc, &ev)
        }
        1 => {
            let ev: Vec<Ev> = (0..n).map(|i| (c.rng.range(1, 3), i % 2 == 0)).collect();
            polled(c, 40_000, c.idx / 4 % 4, &sc, &ev)
        }
        2 => {
            let ev = signal(c, n, false, true);
            buffered::<u32>(c, 40_000, 0, &sc, &ev)
        }
        _ => {
            let ev = signal(c, n, false, false);
            multi::<u32>(c, 40_000, 2 + (c.idx / 4 % 5) as usize, 0, &ev)
        }
    }
}

// ------------------------------------------------------------------ C22

fn c22() -> Property {
    Property {
        id: "C22",
        rule: "distinct (table of lengths and tolerances, rate, time type) by hash, each with durations at and around every window's ends, between the windows and far out classified and compared with windows computed in exact arithmetic",
        assumptions: &[
            "durations within one tick (more at rates that lose precision: the relative error of a rate rounded to kHz) of a window's end may be classified either way, unless the nominal length and the tolerance are whole numbers of ticks",
            "lengths and tolerances whose product fits 32 bits: up to 100 ms, tolerances up to 100 %",
        ],
        required: &["classified", "inside", "outside", "overlapping_tables", "disjoint_tables", "exact_tables"],
        workloads: vec![
            Workload { name: "tables", quick: 400_000, thorough: 8_000_000, f: c22_tables },
        ],
    }
}

#[derive(Clone, Copy, Debug)]
struct Win {
    /// surely in
    acc: (u64, u64),
    /// surely out outside of this
    may: (u64, u64),
}

/// Window of `us` +/- `tol` % at `f` Hz in ticks
fn window(us: u32, tol: u32, f: u32) -> Win {
    if us == 0 {
        return Win { acc: (0, 0), may: (0, 0) };
    }
    let (us, tol, f) = (us as u64, tol as u64, f as u64);
    let exact = us * f % 1_000_000 == 0 && (us * f / 1_000_000) * tol % 100 == 0;
    let base = us * f / 1_000_000;
    // Rates are cut to kHz or MHz where the product does not fit 32 bits
    let max = u32::MAX as u64;
    let (lossy, loss) = if us * f <= max {
        (false, 0)
    } else if us * (f / 1000) <= max {
        (f % 1000 != 0, us / 1000 + 1)
    } else {
        (f % 1_000_000 != 0, us + 1)
    };
    if exact && !lossy {
        let t = base * tol / 100;
        return Win { acc: (base - t, base + t), may: (base - t, base + t) };
    }
    let lo = base * (100 - tol) / 100;
    let hi = (base + 1) * (100 + tol) / 100;
    let e = 2 + 2 * loss;
    Win { acc: (lo + e, hi.saturating_sub(e)), may: (lo.saturating_sub(e), hi + e) }
}

fn classify<M: Mono>(c: &mut Case, f: u32, pulse: &[u32; 8], tol: &[u32; 8], max: u64) -> Res {
    let spans = PulseSpans::<M>::new(f, pulse, tol);
    let w: Vec<Win> = (0..8).map(|i| window(pulse[i], tol[i], f)).collect();
    let mut d: Vec<u64> = vec![0, 1, max, max / 2];
    for x in &w {
        for b in [x.acc.0, x.acc.1, x.may.0, x.may.1] {
            d.extend([b.saturating_sub(1), b, b + 1]);
        }
        if x.acc.0 <= x.acc.1 {
            d.push(c.rng.range(x.acc.0, x.acc.1));
        }
        d.push(x.may.1 + c.rng.below(x.may.1 + 10));
        d.push(x.acc.0 + (1 << c.rng.range(8, 31)));
    }
    for _ in 0..6 {
        d.push(c.rng.below(w.iter().map(|x| x.may.1).max().unwrap() * 2 + 2));
        d.push(c.rng.next() % max);
    }
    for t in d {
        if t > max {
            continue;
        }
        // first entry that surely contains it; any that may contain it and comes before
        let sure = w.iter().position(|x| t != 0 && x.acc.0 <= t && t <= x.acc.1);
        let maybe: Vec<usize> = (0..8).filter(|i| t != 0 && w[*i].may.0 <= t && t <= w[*i].may.1 && sure.is_none_or(|s| *i <= s)).collect();
        let got: Option<usize> = spans.get::<usize>(M::dur(t));
        let ok = match got {
            Some(i) => maybe.contains(&i),
            None => sure.is_none(),
        };
        if !ok {
            fail!("table {pulse:?} us, {tol:?} % at {f} Hz ({}): {t} ticks are classified as {got:?}, expected {sure:?} (possible {maybe:?}); windows {w:?}", M::NAME);
        }
        c.count(if sure.is_some() { "inside" } else { "outside" }, 1);
        c.count("classified", 1);
    }
    // overlaps
    let (mut sure, mut maybe) = (false, false);
    for i in 0..8 {
        for j in 0..i {
            let (a, b) = (w[i], w[j]);
            sure |= a.acc.0 <= a.acc.1 && b.acc.0 <= b.acc.1 && a.acc.0 <= b.acc.1 && b.acc.0 <= a.acc.1;
            maybe |= a.may.0 <= b.may.1 && b.may.0 <= a.may.1;
        }
    }
    let got = spans.check_overlaps();
    if (got && !maybe) || (!got && sure) {
        fail!("table {pulse:?} us, {tol:?} % at {f} Hz ({}): check_overlaps is {got}; windows {w:?}", M::NAME);
    }
    c.count("overlapping_tables", sure as u64);
    c.count("disjoint_tables", !maybe as u64);
    Ok(())
}

fn c22_tables(c: &mut Case) -> Res {
    let mut pulse = [0u32; 8];
    let mut tol = [0u32; 8];
    let style = c.rng.below(5);
    let n = if style == 0 { 8 } else { c.rng.range(1, 8) as usize };
    let unit = c.rng.range(100, 2000) as u32;
    for i in 0..n {
        pulse[i] = match style {
            // disjoint: growing fast
            0 => unit * (3u32.pow(i as u32)).min(100_000) / 8 + 1,
            1 => unit * (i as u32 + 1),
            2 => c.rng.range(1, 100_000) as u32,
            3 => c.rng.range(1, 20) as u32 * 1000,
            _ => c.rng.range(100, 14_000) as u32,
        }
        .min(100_000);
        tol[i] = match c.rng.below(4) {
            0 => 0,
            1 => c.rng.below(101) as u32,
            _ => *c.rng.pick(&[5u32, 7, 10, 12, 20, 25, 99, 100]),
        };
    }
    if style == 0 {
        for t in tol.iter_mut() {
            *t = c.rng.below(20) as u32;
        }
    }
    if c.rng.chance(1, 3) {
        // not sorted
        for i in 0..8 {
            let j = c.rng.below(8) as usize;
            pulse.swap(i, j);
            tol.swap(i, j);
        }
    }
    if style == 3 {
        c.count("exact_tables", 1);
    }
    c.distinct(hash_str(&format!("{pulse:?}{tol:?}{}", c.idx % 12)));
    c.sample(|| format!("table {pulse:?} us, {tol:?} %: classified as by exact arithmetic"));
    const M32: u64 = u32::MAX as u64;
    match c.idx % 12 {
        0 | 1 => classify::<u32>(c, 1_000_000, &pulse, &tol, M32),
        2 | 3 => {
            let f = match c.rng.below(3) {
                0 => c.rng.range(20_000, 1_000_000) as u32,
                1 => c.rng.range(1, 400) as u32 * 1_000_000,
                _ => c.rng.range(1_000_000, 400_000_000) as u32,
            };
            // nominal times tolerance must fit
            for p in pulse.iter_mut() {
                *p = (*p).min((u32::MAX as u64 / 101 * 1_000_000 / f as u64) as u32);
            }
            classify::<u32>(c, f, &pulse, &tol, M32)
        }
        4 | 5 => {
            let f = c.rng.range(20_000, 20_000_000) as u32;
            for p in pulse.iter_mut() {
                *p = (*p).min((u32::MAX as u64 / 101 * 1_000_000 / f as u64) as u32);
            }
            classify::<u64>(c, f, &pulse, &tol, u64::MAX / 4)
        }
        6 => classify::<TimerInstantU32<1_000_000>>(c, 1_000_000, &pulse, &tol, M32),
        7 => classify::<TimerInstantU32<40_000>>(c, 40_000, &pulse, &tol, M32),
        8 => classify::<fugit::Instant<u32, 25, 1_000_000>>(c, 40_000, &pulse, &tol, M32),
        9 => classify::<TimerInstantU64<1_000_000>>(c, 1_000_000, &pulse, &tol, u64::MAX / 4),
        10 => classify::<TimerInstantU64<8_000_000>>(c, 8_000_000, &pulse, &tol, u64::MAX / 4),
        _ => classify::<TimerInstantU32<333_333>>(c, 333_333, &pulse, &tol, M32),
    }
}

// ------------------------------------------- C11: encoders written by users

use crate::p_send::Pwm;
use infrared::sender::{ProtocolEncoder, PulsedataSender, Sender, Status};

/// Protocol whose commands are pulse trains
struct Train;

#[derive(Clone, Debug)]
struct TrainCmd(Vec<u32>);

impl Protocol for Train {
    type Cmd = TrainCmd;
}

impl<const F: u32> ProtocolEncoder<F> for Train {
    type EncoderData = ();
    const DATA: () = ();
    fn encode(cmd: &TrainCmd, buf: &mut [u32]) -> usize {
        SEEN_BUF.with(|s| s.set(Some((F, buf.len()))));
        buf[..cmd.0.len()].copy_from_slice(&cmd.0);
        cmd.0.len()
    }
}

thread_local! {
    /// rate and buffer size the encoder was last called with
    static SEEN_BUF: std::cell::Cell<Option<(u32, usize)>> = const { std::cell::Cell::new(None) };
}

/// A delay (zero mostly), then marks and spaces, ending with a mark; or nothing at all
fn train(rng: &mut Rng, max: usize) -> Vec<u32> {
    let n = match rng.below(8) {
        0 => 0,
        1 => 1,
        2 => max / 2,
        3 => max / 2 - 1,
        _ => rng.range(1, max as u64 / 2) as usize,
    };
    if n == 0 {
        return vec![];
    }
    let style = rng.below(4);
    let delay = if rng.chance(1, 4) { *rng.pick(&[1u32, 2, 3, 20, 255, 256, 300]) } else { 0 };
    let mut v = vec![delay];
    for _ in 0..2 * n - 1 {
        v.push(match style {
            0 => 1,
            1 => rng.range(1, 4),
            2 => *rng.pick(&[1u64, 2, 255, 256, 257, 22, 45]),
            _ => rng.range(1, 600),
        } as u32);
    }
    if rng.chance(1, 60) {
        // one long one
        let i = rng.range(1, v.len() as u64 - 1) as usize;
        v[i] = *rng.pick(&[65_535u32, 65_536, 65_537, 131_072, 100_000]);
    }
    v
}

fn c11_train_run<const F: u32, const BUF: usize>(c: &mut Case) -> Res {
    let pin = Pwm::default();
    let mut hal = Sender::<Pwm, F, BUF>::new(pin.clone());
    let mut raw = PulsedataSender::<BUF>::new();
    let mut clock = if c.rng.bool() { c.rng.u32() } else { u32::MAX - c.rng.below(20_000) as u32 };
    let start = clock;
    let use_hal = c.rng.bool();
    let what = format!("user defined encoder, {} with buffer size {BUF}, {F} Hz, clock from {start}", if use_hal { "Sender" } else { "PulsedataSender" });
    for nth in 0..c.rng.range(1, 6) {
        let t = train(&mut c.rng, BUF);
        let cmd = TrainCmd(t.clone());
        SEEN_BUF.with(|s| s.set(None));
        if use_hal { hal.load::<Train>(&cmd) } else { raw.load_command::<Train, F>(&cmd) }
        match SEEN_BUF.with(|s| s.get()) {
            Some(x) if x == (F, BUF) => {}
            x => fail!("{what}: load {nth}: the encoder was given (rate, buffer size) {x:?}"),
        }
        let buf = if use_hal { hal.buffer() } else { raw.buffer() }.to_vec();
        if buf != t {
            fail!("{what}: load {nth}: buffer() is {buf:?}, encoded {t:?}");
        }
        let extra = if c.rng.bool() { 2 } else { c.rng.range(2, 700) };
        let total: u64 = t.iter().map(|x| *x as u64).sum();
        let delay = t.first().copied().unwrap_or(0);
        if delay > 0 {
            // it counts from time zero
            clock = 0;
            c.count("delayed_trains", 1);
        }
        let mut levels = Vec::with_capacity((total + extra) as usize);
        let mut on = true;
        levels.extend(std::iter::repeat_n(false, delay as usize));
        for d in t.iter().skip(1) {
            levels.extend(std::iter::repeat_n(on, *d as usize));
            on = !on;
        }
        levels.extend(std::iter::repeat_n(false, extra as usize));
        // the next load comes early
        let cut = if !use_hal && c.rng.chance(1, 4) { c.rng.below(levels.len() as u64 + 1) as usize } else { levels.len() };
        if cut < levels.len() {
            c.count("cut_trains", 1);
        }
        for (i, w) in levels.iter().enumerate().take(cut) {
            let got = if use_hal {
                hal.tick();
                pin.on.get()
            } else {
                let s = raw.tick(clock);
                clock = clock.wrapping_add(1);
                if s == Status::Error {
                    fail!("{what}: load {nth}: tick {i} reports an error");
                }
                s == Status::Transmit(true)
            };
            if got != *w {
                fail!("{what}: load {nth}: tick {i}: carrier {}, expected {}\ntrain: {t:?}", got as u8, *w as u8);
            }
        }
        c.count("ticks", levels.len() as u64);
        c.count("transmissions", 1);
        c.count("user_trains", 1);
        c.distinct(hash64(&[hash_str(&format!("{t:?}")), BUF as u64, F as u64, start as u64, nth]));
    }
    Ok(())
}

pub fn c11_trains(c: &mut Case) -> Res {
    match c.idx % 8 {
        0 => c11_train_run::<40_000, 2>(c),
        1 => c11_train_run::<1, 4>(c),
        2 => c11_train_run::<40_000, 68>(c),
        3 => c11_train_run::<38_000, 96>(c),
        4 => c11_train_run::<20_000, 128>(c),
        5 => c11_train_run::<56_000, 256>(c),
        6 => c11_train_run::<4_000_000_000, 300>(c),
        _ => c11_train_run::<20_000, 600>(c),
    }
}

// ------------------------------------------- C14: remotes written by users

use infrared::cmd::{AddressCommand, Command};
use infrared::remotecontrol::{Action, Button, RemoteControlModel};

/// Command of a user's protocol: full 32 bit address and code; some pairs do not exist
#[derive(Clone, Debug, PartialEq, Eq)]
struct UCmd {
    a: u32,
    c: u32,
    rep: bool,
}

fn exists(a: u32, c: u32) -> bool {
    !(a ^ c).is_multiple_of(7)
}

impl Command for UCmd {
    fn is_repeat(&self) -> bool {
        self.rep
    }
}

impl AddressCommand for UCmd {
    const ID: ProtocolId = ProtocolId::Unknown;
    fn address(&self) -> u32 {
        self.a
    }
    fn command(&self) -> u32 {
        self.c
    }
    fn create(a: u32, c: u32) -> Option<Self> {
        exists(a, c).then_some(UCmd { a, c, rep: false })
    }
}

macro_rules! model {
    ($n:ident, $cmd:ty, $id:ident, $addr:expr, [$($c:expr => $a:ident),* $(,)?]) => {
        #[derive(Default, Debug)]
        struct $n;
        impl RemoteControlModel for $n {
            const PROTOCOL: ProtocolId = ProtocolId::$id;
            const ADDRESS: u32 = $addr;
            type Cmd = $cmd;
            const BUTTONS: &'static [(u32, Action)] = &[$(($c, Action::$a)),*];
        }
    };
}

model!(Empty, UCmd, Unknown, 0, []);
model!(One, UCmd, Unknown, u32::MAX, [u32::MAX - 1 => Power]);
// codes and actions given twice: the first entry counts
model!(Twice, UCmd, Unknown, 0x8000_0001, [
    5 => Play, 6 => Paus, 5 => Stop, 7 => Play, 6 => Power, 0xffff_ffff => Menu, 0x1_0005 => Up, 0x105 => Down, 8 => Menu,
]);
model!(Wide, UCmd, Unknown, 0x1234_5678, [
    0 => Zero, 1 => One, 0x80 => Two, 0x100 => Three, 0x101 => Four, 0x8000 => Five, 0x1_0000 => Six, 0x1_0001 => Seven,
    0x8000_0000 => Eight, 0x8000_0001 => Nine, 0xffff_ffff => Power, 0xffff => Source, 0xff => Info, 0x7fff_ffff => Exit,
    3 => Red, 2 => Green, 4 => Yellow, 0xffff_fffe => Blue,
]);
model!(Big, UCmd, Unknown, 77, [
    300 => Power, 299 => Source, 298 => One, 297 => Two, 296 => Three, 295 => Four, 294 => Five, 293 => Six, 292 => Seven,
    291 => Eight, 290 => Nine, 289 => Zero, 288 => Teletext, 287 => ChannelPrev, 286 => VolumeUp, 285 => VolumeDown,
    284 => VolumeMute, 283 => ChannelList, 282 => ChannelListNext, 281 => ChannelListPrev, 280 => Tools, 279 => Info,
    278 => Return, 277 => Exit, 276 => Enter, 275 => Up, 274 => Down, 273 => Left, 272 => Right, 271 => Red, 270 => Green,
    269 => Yellow, 268 => Blue, 267 => Emanual, 266 => PictureSize, 265 => Subtitle, 264 => Stop, 263 => Rewind,
    262 => Play, 261 => Paus, 260 => Play_Pause, 259 => Play_Pause2, 258 => Forward, 257 => Mode, 256 => Shuffle,
    255 => U_SD, 254 => Plus, 253 => Minus, 252 => Next, 251 => Prev, 250 => Eq, 249 => Mute, 248 => Random, 247 => Repeat,
    246 => Time, 245 => Setup, 244 => Menu, 243 => PitchReset, 242 => PitchPlus, 241 => PitchMinus, 240 => Prog,
    239 => BatteryLow,
]);

fn model_run<R: RemoteControlModel<Cmd = UCmd>>(c: &mut Case, name: &str, actions: &[Action]) -> Res {
    let t = R::BUTTONS;
    for _ in 0..64 {
        let a = match c.rng.below(6) {
            0 => c.rng.u32(),
            1 => R::ADDRESS ^ 1 << c.rng.below(32),
            _ => R::ADDRESS,
        };
        let code = match c.rng.below(6) {
            0 => c.rng.u32(),
            1 if !t.is_empty() => c.rng.pick(t).0 ^ 1 << c.rng.below(32),
            2 => c.rng.below(300) as u32,
            _ if !t.is_empty() => c.rng.pick(t).0,
            _ => 0,
        };
        let cmd = UCmd { a, c: code, rep: c.rng.bool() };
        let want = if a == R::ADDRESS { t.iter().find(|(x, _)| *x == code).map(|x| x.1) } else { None };
        let got = R::decode(&cmd);
        if got != want {
            fail!("user defined remote {name}: {cmd:?} maps to {got:?}, expected {want:?}");
        }
        let b: Button<R> = cmd.clone().into();
        if b.action() != want || *b.command() != cmd || b.is_repeat() != cmd.rep {
            fail!("user defined remote {name}: button for {cmd:?} has action {:?}, command {:?}, repeat {}", b.action(), b.command(), b.is_repeat());
        }
        let any: AnyCommand = cmd.clone().into();
        if (any.protocol as u8, any.raw, any.address, any.command, any.repeat) != (ProtocolId::Unknown as u8, 0, a, code, cmd.rep) {
            fail!("user defined command {cmd:?}: generic form {any:?}");
        }
        c.count(if want.is_some() { "mapped" } else { "unmapped" }, 1);
        c.distinct(hash64(&[hash_str(name), a as u64, code as u64, cmd.rep as u64]));
    }
    for a in actions {
        let want = t.iter().find(|(_, b)| b == a).map(|x| x.0).filter(|x| exists(R::ADDRESS, *x)).map(|x| UCmd { a: R::ADDRESS, c: x, rep: false });
        let got = R::encode(a);
        if got != want {
            fail!("user defined remote {name}: {a:?} encodes to {got:?}, expected {want:?}");
        }
        c.count("user_encodes", want.is_some() as u64);
    }
    c.count("user_remotes", 1);
    Ok(())
}

pub fn c14_models(c: &mut Case, actions: &[Action]) -> Res {
    match c.idx % 5 {
        0 => model_run::<Empty>(c, "Empty", actions),
        1 => model_run::<One>(c, "One", actions),
        2 => model_run::<Twice>(c, "Twice", actions),
        3 => model_run::<Wide>(c, "Wide", actions),
        _ => model_run::<Big>(c, "Big", actions),
    }
}

// ------------------------------------------- C26: NEC variants written by users

use crate::gen::pause;
use crate::spec::{nec_frame_word, nec_repeat, pattern, play, play_frame, random_freq, Jit, Marks, Wins, K, P};
use crate::sut::{Canon, ByEdge, ByEvent, ByHand, ByInstant, ByPin, ByPinInstant, ByPoll, ByPollPin, ByTotal, Out, Rx};
use infrared::protocol::nec::{NecCommand, NecCommandVariant, NecPulseLen, SamsungNecCommand};
use infrared::protocol::{Nec, Rc5};

fn c26() -> Property {
    Property {
        id: "C26",
        rule: "distinct (variant, front end, rate, signal) and (variant, rate, command) runs by hash: every result of a receiver is compared with what the variant's own functions give for the transmitted word, every encoded train with the word the variant packs",
        assumptions: &[
            "variants use one of the two timings of the bundled ones, the only ones a user can name",
        ],
        required: &["frames", "refused", "repeats", "silent_repeats", "broken", "buffers", "multi_commands", "encoded", "round_trips"],
        workloads: vec![
            Workload { name: "signals", quick: 1_600_000, thorough: 40_000_000, f: c26_signals },
            Workload { name: "multi", quick: 400_000, thorough: 10_000_000, f: c26_multi },
            Workload { name: "send", quick: 1_000_000, thorough: 20_000_000, f: c26_send },
        ],
    }
}

/// A user's variant. KIND 0: takes any word; 1: refuses one word in two, by parity;
/// 2: takes any word, no repeats; 3: Samsung timing, refuses by a field; 4: takes frames
/// and repeats by different bits, and maps them differently.
/// The command holds the bits in another order than the word does.
#[derive(Clone, Debug, PartialEq, Eq)]
struct Var<const KIND: u8> {
    swapped: u32,
    rep: bool,
}

fn takes(kind: u8, word: u32, rep: bool) -> bool {
    match kind {
        2 => !rep,
        4 if rep => word & 1 == 1,
        4 => word >> 17 & 1 == 1,
        1 => word.count_ones().is_multiple_of(2),
        3 => word >> 8 & 3 != 1,
        _ => true,
    }
}

fn mapping(kind: u8, word: u32, rep: bool) -> u32 {
    match kind {
        4 if rep => !word.rotate_left(3),
        4 => word.rotate_left(3),
        0 => word.reverse_bits(),
        1 => !word,
        2 => word.rotate_left(7) ^ 0x1234_5678,
        _ => word.swap_bytes(),
    }
}

fn unmapping(kind: u8, m: u32) -> u32 {
    match kind {
        4 => m.rotate_right(3),
        0 => m.reverse_bits(),
        1 => !m,
        2 => (m ^ 0x1234_5678).rotate_right(7),
        _ => m.swap_bytes(),
    }
}

impl<const KIND: u8> NecCommandVariant for Var<KIND> {
    const PULSE_DISTANCE: &'static NecPulseLen = if KIND == 3 {
        <SamsungNecCommand as NecCommandVariant>::PULSE_DISTANCE
    } else {
        <NecCommand as NecCommandVariant>::PULSE_DISTANCE
    };
    fn validate(bits: u32) -> bool {
        takes(KIND, bits, false)
    }
    fn unpack(bits: u32, repeat: bool) -> Option<Self> {
        if !takes(KIND, bits, repeat) {
            return None;
        }
        Some(Var { swapped: mapping(KIND, bits, repeat), rep: repeat })
    }
    fn pack(&self) -> u32 {
        unmapping(KIND, self.swapped)
    }
}

impl<const KIND: u8> Canon for Var<KIND> {
    fn canon(&self) -> K {
        K { p: P::Dbg, addr: KIND as u32, cmd: 0, aux: self.swapped as u64, rep: self.rep }
    }
}

impl<const KIND: u8> Command for Var<KIND> {
    fn is_repeat(&self) -> bool {
        self.rep
    }
}

impl<const KIND: u8> AddressCommand for Var<KIND> {
    const ID: ProtocolId = ProtocolId::Nec16;
    fn raw(&self) -> u64 {
        self.swapped as u64 | (KIND as u64) << 40
    }
    fn address(&self) -> u32 {
        self.swapped
    }
    fn command(&self) -> u32 {
        !self.swapped
    }
    fn create(a: u32, c: u32) -> Option<Self> {
        (c == !a).then_some(Var { swapped: a, rep: false })
    }
}

fn expected(kind: u8, word: u32, rep: bool) -> Out {
    if !takes(kind, word, rep) {
        return Out::None;
    }
    Out::Cmd(K { p: P::Dbg, addr: kind as u32, cmd: 0, aux: mapping(kind, word, rep) as u64, rep })
}

/// Signal and what a receiver has to say at each edge; errors anywhere within a
/// broken frame and the start of the next one are of no concern here
fn c26_signal(kind: u8, f: u32, c: &mut Case, short: bool) -> (Vec<Ev>, Vec<(usize, Out)>, usize) {
    let p = if kind == 3 { P::Sam } else { P::Dbg };
    let w = Wins::new(p, f);
    let (mut ev, mut want): (Vec<Ev>, Vec<(usize, Out)>) = (vec![], vec![]);
    let mut last: Option<u32> = None;
    let mut broken = 0;
    for _ in 0..c.rng.range(1, 8) {
        let g = if short { crate::gen::short_pause(&w, &mut c.rng) } else { pause(&w, &mut c.rng) };
        let j = *c.rng.pick(&[Jit::Nominal, Jit::Any, Jit::Extreme]);
        let base = ev.len();
        match c.rng.below(8) {
            0..=3 => {
                let word = pattern(&mut c.rng, 32) as u32;
                let (e, done) = play_frame(&nec_frame_word(p, word), &w, g, j, Marks::Nominal, &mut c.rng);
                ev.extend(e);
                let o = expected(kind, word, false);
                c.count(if o == Out::None { "refused" } else { "frames" }, 1);
                want.push((base + done, o));
                last = Some(word);
            }
            4 | 5 => {
                let (e, done) = play(p, &nec_repeat(p), true, &w, g, j, Marks::Nominal, &mut c.rng);
                ev.extend(e);
                let o = last.map(|x| expected(kind, x, true)).unwrap_or(Out::None);
                c.count(if o == Out::None { "silent_repeats" } else { "repeats" }, 1);
                want.push((base + done, o));
            }
            _ => {
                let fr = nec_frame_word(p, c.rng.u32());
                let keep = c.rng.range(1, 32) as usize;
                let (mut e, _) = play(p, &fr.syms[..keep], false, &w, g, j, Marks::Nominal, &mut c.rng);
                e.push((1 + c.rng.below(20), false));
                ev.extend(e);
                last = None;
                broken += 1;
                c.count("broken", 1);
                // something else before the next signal, which ends the broken frame
                ev.push((w.quiet(), true));
                ev.push((1, false));
            }
        }
    }
    (ev, want, broken)
}

fn var_front<const KIND: u8>(f: u32, fr: u64) -> Box<dyn Rx> {
    type N<const J: u8> = Nec<Var<J>>;
    let pin = Pin::default();
    match fr {
        0 => Box::new(ByEvent::<N<KIND>, u32>(Receiver::new(f))),
        1 => Box::new(ByEdge::<N<KIND>, u64>(Receiver::new(f))),
        2 => Box::new(ByInstant::<N<KIND>, u32>(Receiver::new(f), 0)),
        3 => Box::new(ByPin::<N<KIND>, u32>(Receiver::with_pin(f, pin.clone()), pin)),
        4 => Box::new(ByPinInstant::<N<KIND>, u64>(Receiver::with_pin(f, pin.clone()), pin, 0)),
        5 => Box::new(ByTotal::<N<KIND>, u32>(<N<KIND> as DecoderBuilder<u32>>::build(f))),
        6 => Box::new(ByHand::<N<KIND>, u32>(<N<KIND> as DecoderBuilder<u32>>::build(f))),
        7 => Box::new(ByEvent::<N<KIND>, u32>(infrared::receiver().protocol::<N<KIND>>().frequency(f).build())),
        8 => Box::new(ByEvent::<N<KIND>, TimerInstantU32<1_000_000>>(Receiver::new(f))),
        9 => Box::new(ByPoll::<N<KIND>>(PeriodicPoll::new(f), false)),
        _ => Box::new(ByPollPin::<N<KIND>>(PeriodicPoll::with_pin(f, pin.clone()), pin)),
    }
}

fn c26_run<const KIND: u8>(c: &mut Case) -> Res {
    let fr = c.rng.below(12);
    let f = match fr {
        8 => 1_000_000,
        9 | 10 => c.rng.range(20_000, 50_000) as u32,
        _ => random_freq(P::Dbg, &mut c.rng),
    };
    let (ev, want, broken) = c26_signal(KIND, f, c, fr == 9 || fr == 10);
    c.note = format!("[user defined NEC variant {KIND} at {f} Hz, form {fr}]\nevents: {}", crate::sut::show(&ev));
    c.distinct(hash64(&[hash_events(&ev), f as u64, fr, KIND as u64]));
    if fr == 11 {
        // all edges are recorded, the first one a rising one
        let buf: Vec<u32> = ev.iter().map(|e| e.0 as u32).collect();
        let mut r = BufferInputReceiver::<Nec<Var<KIND>>>::with_frequenzy(f);
        let got: Vec<Out> = r.iter(&buf).map(|x| Out::Cmd(x.canon())).collect();
        let want: Vec<Out> = want.iter().map(|w| w.1).filter(|o| *o != Out::None).collect();
        if got != want {
            fail!("buffer gives {got:?}, expected {want:?}");
        }
        c.count("buffers", 1);
        return Ok(());
    }
    let mut r = var_front::<KIND>(f, fr);
    let mut errs = 0;
    for (i, (d, e)) in ev.iter().enumerate() {
        let o = r.ev(*d, *e);
        if let Out::Err(_) = o {
            errs += 1;
            if errs > broken {
                fail!("{errs} errors for {broken} broken frames");
            }
            continue;
        }
        let x = want.iter().find(|w| w.0 == i).map(|w| w.1).unwrap_or(Out::None);
        if o != x {
            fail!("event {i} gives {o:?}, the variant gives {x:?}");
        }
    }
    Ok(())
}

fn c26_signals(c: &mut Case) -> Res {
    match c.idx % 5 {
        0 => c26_run::<0>(c),
        1 => c26_run::<1>(c),
        2 => c26_run::<2>(c),
        3 => c26_run::<3>(c),
        _ => c26_run::<4>(c),
    }
}

fn c26_multi(c: &mut Case) -> Res {
    let f = random_freq(P::Dbg, &mut c.rng);
    let kind = (c.idx % 5) as u8;
    let (ev, want, _) = c26_signal(kind, f, c, false);
    c.note = format!("[multi receiver with user defined NEC variants, {f} Hz, signal for variant {kind}]\nevents: {}", crate::sut::show(&ev));
    let mut m = MultiReceiver::<6, (Nec<Var<3>>, Nec<Var<0>>, Rc5, Nec<Var<2>>, Nec<Var<1>>, Nec<Var<4>>), NoPin>::new(f, NoPin);
    let slot = [1, 4, 3, 0, 5][kind as usize];
    for (i, (d, e)) in ev.iter().enumerate() {
        let got = m.event_generic(*d as u32, *e);
        let x = want.iter().find(|w| w.0 == i).map(|w| w.1).unwrap_or(Out::None);
        let ok = match (&got[slot], x) {
            (None, Out::None) => true,
            (Some(a), Out::Cmd(k)) => {
                c.count("multi_commands", 1);
                a.protocol == ProtocolId::Nec16
                    && a.raw == k.aux | (kind as u64) << 40
                    && a.address == k.aux as u32
                    && a.command == !(k.aux as u32)
                    && a.repeat == k.rep
            }
            _ => false,
        };
        if !ok {
            fail!("event {i}: slot {slot} gives {:?}, the variant gives {x:?}", got[slot]);
        }
    }
    c.distinct(hash64(&[hash_events(&ev), f as u64, kind as u64]));
    Ok(())
}

fn c26_send_run<const KIND: u8, const F: u32>(c: &mut Case) -> Res {
    let word = pattern(&mut c.rng, 32) as u32;
    let cmd = Var::<KIND> { swapped: mapping(KIND, word, false), rep: false };
    c.note = format!("[user defined NEC variant {KIND}, word {word:#x}, {F} Hz]");
    let t = |us: u64| (us * F as u64 / 1_000_000) as u32;
    let mut want = vec![0, t(if KIND == 3 { 4500 } else { 9000 }), t(4500)];
    for i in 0..32 {
        want.push(t(560));
        want.push(t(if word >> i & 1 == 1 { 1690 } else { 560 }));
    }
    want.push(t(560));
    let mut b = [0xdead_beefu32; 96];
    let n = <Nec<Var<KIND>> as ProtocolEncoder<F>>::encode(&cmd, &mut b);
    // a tick more or less is within what encoding may do
    let same = |got: &[u32]| got.len() == want.len() && got.iter().zip(&want).all(|(a, b)| a.abs_diff(*b) <= 1);
    if n > b.len() || !same(&b[..n]) {
        fail!("encoded as {:?}, expected {want:?}", &b[..n.min(96)]);
    }
    let mut s = PulsedataSender::<96>::new();
    s.load_command::<Nec<Var<KIND>>, F>(&cmd);
    if !same(s.buffer()) {
        fail!("loaded as {:?}, expected {want:?}", s.buffer());
    }
    c.count("encoded", 1);
    // and back again; the end of the last space is the start of the stop mark
    let mut r = Receiver::<Nec<Var<KIND>>>::new(F);
    let mut e = false;
    let mut got = vec![];
    for d in &b[..n] {
        e = !e;
        match r.event(*d, e) {
            Ok(None) => {}
            Ok(Some(x)) => got.push(x),
            Err(x) => fail!("sent and received: error {x:?}"),
        }
    }
    let exp = if takes(KIND, word, false) { vec![cmd] } else { vec![] };
    if got != exp {
        fail!("sent and received: {got:?}, expected {exp:?}");
    }
    c.count("round_trips", 1);
    c.distinct(hash64(&[word as u64, F as u64, KIND as u64]));
    Ok(())
}

fn c26_send(c: &mut Case) -> Res {
    macro_rules! f {
        ($($i:literal => $f:literal),*) => {
            match (c.idx / 4) % 6 {
                $($i => match c.idx % 4 {
                    0 => c26_send_run::<0, $f>(c),
                    1 => c26_send_run::<1, $f>(c),
                    2 => c26_send_run::<2, $f>(c),
                    _ => c26_send_run::<3, $f>(c),
                },)*
                _ => unreachable!(),
            }
        };
    }
    f!(0 => 20_000, 1 => 38_000, 2 => 56_789, 3 => 1_000_000, 4 => 48_000_000, 5 => 3_000_000_000)
}
