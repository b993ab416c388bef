//! C08: multi-receivers.

use crate::fail;
use crate::fw::*;
use crate::gen::*;
use crate::p_values::any_parts;
use crate::spec::*;
use crate::sut::*;
use fugit::{TimerInstantU32, TimerInstantU64};
use infrared::cmd::AnyCommand;
use infrared::protocol::*;
use infrared::receiver::{DecoderBuilder, MultiReceiver, NoPin};
use infrared::{ProtocolId, Receiver};

pub fn props() -> Vec<Property> {
    vec![c08()]
}

fn c08() -> Property {
    Property {
        id: "C08",
        rule: "distinct (tuple of protocols, time type, call form, event stream) runs by hash, every slot of every event compared with a separate receiver",
        assumptions: &[
            "raw values are compared with those the command types give",
            "any order of the seven protocols with a generic form is represented by cyclic rotations and repetitions for each size",
        ],
        required: &["events", "filled_slots", "errors_beside", "pin_errors", "double_hits", "size2", "size3", "size4", "size5", "size6"],
        workloads: vec![
            Workload { name: "mixed", quick: 250_000, thorough: 6_000_000, f: c08_mixed },
            Workload { name: "soak", quick: 37, thorough: 37 * 8, f: c08_soak },
        ],
    }
}

/// Comparable generic command
#[derive(Clone, PartialEq, Debug)]
pub struct A {
    pub p: ProtocolId,
    pub raw: u64,
    pub addr: u32,
    pub cmd: u32,
    pub rep: bool,
}

fn a_of(a: AnyCommand) -> A {
    A { p: a.protocol, raw: a.raw, addr: a.address, cmd: a.command, rep: a.repeat }
}

/// Expected generic form of what a single receiver reported
trait Gen: Canon {
    fn gen(&self) -> A {
        let k = self.canon();
        let (addr, cmd) = any_parts(&k);
        A { p: pid(k.p), raw: self.raw_bits(), addr, cmd, rep: self.rep() }
    }
    fn raw_bits(&self) -> u64;
    fn rep(&self) -> bool;
}

fn pid(p: P) -> ProtocolId {
    match p {
        P::Nec => ProtocolId::Nec,
        P::Sam => ProtocolId::NecSamsung,
        P::Apple => ProtocolId::NecApple,
        P::Rc5 => ProtocolId::Rc5,
        P::Rc6 => ProtocolId::Rc6,
        P::Sbp => ProtocolId::Sbp,
        P::Denon => ProtocolId::Denon,
        _ => ProtocolId::Unknown,
    }
}

macro_rules! gen_addr {
    ($($t:ty),*) => { $(impl Gen for $t {
        fn raw_bits(&self) -> u64 { infrared::cmd::AddressCommand::raw(self) }
        fn rep(&self) -> bool { infrared::cmd::Command::is_repeat(self) }
    })* };
}
gen_addr!(
    nec::NecCommand,
    nec::SamsungNecCommand,
    nec::AppleNecCommand,
    rc5::Rc5Command,
    rc6::Rc6Command,
    sbp::SbpCommand
);
impl Gen for denon::DenonCommand {
    fn raw_bits(&self) -> u64 {
        self.bits
    }
    fn rep(&self) -> bool {
        false
    }
}

#[derive(Clone, Copy, PartialEq, Debug)]
enum Form {
    Generic,
    GenericIter,
    Pin,
    PinIter,
    /// Array and iterator calls in turns, iterators left before their end
    Mixed,
    PinMixed,
}

impl Form {
    fn pin(self) -> bool {
        matches!(self, Form::Pin | Form::PinIter | Form::PinMixed)
    }
    /// Form of the call at a step and how much of an iterator is taken
    fn at(self, i: usize) -> (Form, usize) {
        let h = (i as u32).wrapping_mul(0x9E37_79B9) >> 16;
        let take = if h & 8 == 0 { usize::MAX } else { (h >> 4) as usize % 3 };
        let array = h & 3 == 0;
        match (self, array) {
            (Form::Mixed, true) => (Form::Generic, 0),
            (Form::Mixed, false) => (Form::GenericIter, take),
            (Form::PinMixed, true) => (Form::Pin, 0),
            (Form::PinMixed, false) => (Form::PinIter, take),
            (f, _) => (f, usize::MAX),
        }
    }
}

/// One call: event or failing pin read
type Step = (u64, bool, Option<u32>);

struct Run {
    /// per call: slots of the multi receiver; None where only the iterator was used
    multi: Vec<Option<Vec<Option<A>>>>,
    iter: Vec<Option<Vec<A>>>,
    pinerr: Vec<Option<u32>>,
    /// per call: slots of the separate receivers
    single: Vec<Vec<Option<A>>>,
    errors: u64,
}

macro_rules! runner {
    ($name:ident, $n:literal, $($T:ident . $i:tt),*) => {
        fn $name<$($T,)* M: Mono>(f: u32, form: Form, steps: &[Step]) -> Run
        where
            $($T: DecoderBuilder<M>, $T::Cmd: Gen + Into<AnyCommand>,)*
        {
            let mut out = Run { multi: vec![], iter: vec![], pinerr: vec![], single: vec![], errors: 0 };
            let mut singles = ($(Receiver::<$T, NoPin, M>::new(f),)*);
            let pin = Pin::default();
            let mut mg = MultiReceiver::<$n, ($($T,)*), NoPin, M>::new(f, NoPin);
            let mut mp = MultiReceiver::<$n, ($($T,)*), Pin, M>::new(f, pin.clone());
            for (d, e, fl) in steps {
                let usepin = form.pin();
                let fail = if usepin { *fl } else { None };
                let mut row: Vec<Option<A>> = vec![];
                if fail.is_none() {
                    $(
                        row.push(match singles.$i.event(M::dur(*d), *e) {
                            Ok(c) => c.map(|c| c.gen()),
                            Err(_) => { out.errors += 1; None }
                        });
                    )*
                }
                out.single.push(row);
                pin.mark.set(*e);
                pin.fail.set(fail);
                let (form, take) = form.at(out.single.len() - 1);
                let (m, it, pe) = match form {
                    Form::Generic => {
                        let r = mg.event_generic(M::dur(*d), *e);
                        (Some(r.into_iter().map(|a| a.map(a_of)).collect()), None, None)
                    }
                    Form::GenericIter => {
                        (None, Some(mg.event_generic_iter(M::dur(*d), *e).take(take).map(a_of).collect()), None)
                    }
                    Form::Pin => match mp.event(M::dur(*d)) {
                        Ok(r) => (Some(r.into_iter().map(|a| a.map(a_of)).collect()), None, None),
                        Err(n) => (None, None, Some(n)),
                    },
                    Form::PinIter => match mp.event_iter(M::dur(*d)) {
                        Ok(r) => (None, Some(r.take(take).map(a_of).collect()), None),
                        Err(n) => (None, None, Some(n)),
                    },
                    Form::Mixed | Form::PinMixed => unreachable!(),
                };
                out.multi.push(m);
                out.iter.push(it);
                out.pinerr.push(pe);
            }
            out
        }
    };
}

runner!(run2, 2, A1.0, A2.1);
runner!(run3, 3, A1.0, A2.1, A3.2);
runner!(run4, 4, A1.0, A2.1, A3.2, A4.3);
runner!(run5, 5, A1.0, A2.1, A3.2, A4.3, A5.4);
runner!(run6, 6, A1.0, A2.1, A3.2, A4.3, A5.4, A6.5);

type RunFn = fn(u32, Form, &[Step]) -> Run;

struct Combo {
    ps: &'static [P],
    f: u32,
    run: RunFn,
}

type I32 = TimerInstantU32<1_000_000>;
type I64 = TimerInstantU64<40_000>;

macro_rules! combos {
    ($($r:ident [$($P:ident $T:ident),*] $M:ty, $f:expr;)*) => {
        vec![$(Combo { ps: &[$(P::$P),*], f: $f, run: $r::<$($T,)* $M> }),*]
    };
}

fn table() -> Vec<Combo> {
    // frequency 0: any
    combos! {
        run2 [Nec Nec, Sam SamsungNec] u32, 0;
        run2 [Sam SamsungNec, Nec Nec] u32, 0;
        run2 [Apple AppleNec, Rc5 Rc5] u32, 0;
        run2 [Rc5 Rc5, Rc6 Rc6] u64, 0;
        run2 [Rc6 Rc6, Sbp Sbp] I32, 1_000_000;
        run2 [Sbp Sbp, Denon Denon] u32, 0;
        run2 [Denon Denon, Apple AppleNec] I64, 40_000;
        run2 [Rc5 Rc5, Rc5 Rc5] u32, 0;
        run3 [Nec Nec, Sam SamsungNec, Apple AppleNec] u32, 0;
        run3 [Sam SamsungNec, Apple AppleNec, Rc5 Rc5] u32, 0;
        run3 [Apple AppleNec, Rc5 Rc5, Rc6 Rc6] u64, 0;
        run3 [Rc5 Rc5, Rc6 Rc6, Sbp Sbp] u32, 0;
        run3 [Rc6 Rc6, Sbp Sbp, Denon Denon] I32, 1_000_000;
        run3 [Sbp Sbp, Denon Denon, Nec Nec] u32, 0;
        run3 [Denon Denon, Nec Nec, Sam SamsungNec] I64, 40_000;
        run4 [Nec Nec, Sam SamsungNec, Apple AppleNec, Rc5 Rc5] u32, 0;
        run4 [Sam SamsungNec, Apple AppleNec, Rc5 Rc5, Rc6 Rc6] I32, 1_000_000;
        run4 [Apple AppleNec, Rc5 Rc5, Rc6 Rc6, Sbp Sbp] u32, 0;
        run4 [Rc5 Rc5, Rc6 Rc6, Sbp Sbp, Denon Denon] u64, 0;
        run4 [Rc6 Rc6, Sbp Sbp, Denon Denon, Nec Nec] u32, 0;
        run4 [Sbp Sbp, Denon Denon, Nec Nec, Sam SamsungNec] u32, 0;
        run4 [Denon Denon, Nec Nec, Apple AppleNec, Sam SamsungNec] I64, 40_000;
        run5 [Nec Nec, Sam SamsungNec, Apple AppleNec, Rc5 Rc5, Rc6 Rc6] u32, 0;
        run5 [Sam SamsungNec, Apple AppleNec, Rc5 Rc5, Rc6 Rc6, Sbp Sbp] u32, 0;
        run5 [Apple AppleNec, Rc5 Rc5, Rc6 Rc6, Sbp Sbp, Denon Denon] I32, 1_000_000;
        run5 [Rc5 Rc5, Rc6 Rc6, Sbp Sbp, Denon Denon, Nec Nec] u64, 0;
        run5 [Rc6 Rc6, Sbp Sbp, Denon Denon, Nec Nec, Sam SamsungNec] u32, 0;
        run5 [Sbp Sbp, Denon Denon, Nec Nec, Sam SamsungNec, Apple AppleNec] u32, 0;
        run5 [Denon Denon, Nec Nec, Sam SamsungNec, Apple AppleNec, Rc5 Rc5] I64, 40_000;
        run6 [Nec Nec, Sam SamsungNec, Apple AppleNec, Rc5 Rc5, Rc6 Rc6, Sbp Sbp] u32, 0;
        run6 [Sam SamsungNec, Apple AppleNec, Rc5 Rc5, Rc6 Rc6, Sbp Sbp, Denon Denon] u32, 0;
        run6 [Apple AppleNec, Rc5 Rc5, Rc6 Rc6, Sbp Sbp, Denon Denon, Nec Nec] u64, 0;
        run6 [Rc5 Rc5, Rc6 Rc6, Sbp Sbp, Denon Denon, Nec Nec, Sam SamsungNec] I32, 1_000_000;
        run6 [Rc6 Rc6, Sbp Sbp, Denon Denon, Nec Nec, Sam SamsungNec, Apple AppleNec] u32, 0;
        run6 [Sbp Sbp, Denon Denon, Nec Nec, Sam SamsungNec, Apple AppleNec, Rc5 Rc5] u32, 0;
        run6 [Denon Denon, Nec Nec, Sam SamsungNec, Apple AppleNec, Rc5 Rc5, Rc6 Rc6] I64, 40_000;
        run6 [Nec Nec, Nec Nec, Nec Nec, Nec Nec, Apple AppleNec, Nec Nec] u32, 0;
    }
}

fn c08_mixed(c: &mut Case) -> Res {
    let form = *c.rng.pick(&[Form::Generic, Form::GenericIter, Form::Pin, Form::PinIter, Form::Mixed, Form::PinMixed]);
    let n = c.rng.range(2, 10);
    multi(c, form, n, 25)
}

/// One multi-receiver for a long time
fn c08_soak(c: &mut Case) -> Res {
    let form = [Form::PinMixed, Form::Generic, Form::GenericIter, Form::Pin, Form::PinIter, Form::Mixed][(c.idx % 6) as usize];
    multi(c, form, 2000, 200)
}

/// C10: failing pin reads of multi-receivers
pub fn c10_multi(c: &mut Case) -> Res {
    let form = *c.rng.pick(&[Form::Pin, Form::PinIter, Form::PinMixed]);
    let n = c.rng.range(2, 8);
    let rate = *c.rng.pick(&[2u64, 10, 100]);
    multi(c, form, n, rate)
}

/// `rate`: one failing pin read in so many events
fn multi(c: &mut Case, form: Form, segs: u64, rate: u64) -> Res {
    let t = table();
    let co = &t[(c.idx % t.len() as u64) as usize];
    let f = if co.f != 0 {
        co.f
    } else {
        let p = if co.ps.contains(&P::Rc6) { P::Rc6 } else { co.ps[0] };
        random_freq(p, &mut c.rng)
    };
    // signal: frames, broken frames, noise and repeats of the tuple's protocols
    let mut ev: Vec<Ev> = vec![];
    for _ in 0..segs {
        let p = *c.rng.pick(co.ps);
        let w = Wins::new(p, f);
        if !w.supported() {
            continue;
        }
        if ev.last().map_or(false, |e| e.1) {
            ev.push((c.rng.below(w.quiet()), false));
        }
        match c.rng.below(8) {
            0..=4 => {
                let fr = if c.rng.chance(1, 6) && co.ps.contains(&P::Apple) && co.ps.contains(&P::Nec) {
                    // a word both take for their own
                    random_frame(P::Apple, &mut c.rng)
                } else {
                    random_frame(p, &mut c.rng)
                };
                let w = Wins::new(fr.p, f);
                ev.extend(play_frame(&fr, &w, pause(&w, &mut c.rng), Jit::Any, Marks::Nominal, &mut c.rng).0);
                if fr.p.is_nec() && c.rng.bool() {
                    ev.extend(play(fr.p, &nec_repeat(fr.p), true, &w, pause(&w, &mut c.rng), Jit::Any, Marks::Nominal, &mut c.rng).0);
                }
            }
            5 => ev.extend(chaos(c.rng.range(1, 40), f, &mut c.rng)),
            _ => {
                let tk = tokens(p, &w, 2, &mut c.rng, true);
                ev.extend(to_events(p, &w, &tk, pause(&w, &mut c.rng), false, &mut c.rng));
            }
        }
    }
    let mut steps: Vec<Step> = vec![];
    for (d, e) in &ev {
        let burst = if c.rng.chance(1, 400_000) { 70_000 } else if c.rng.chance(1, 20_000) { 300 } else { 0 };
        for _ in 0..burst {
            steps.push((*d, c.rng.bool(), Some(c.rng.u32())));
        }
        while c.rng.chance(1, rate) {
            steps.push((if c.rng.bool() { *d } else { c.rng.below(1 << 32) }, c.rng.bool(), Some(c.rng.u32())));
        }
        steps.push((*d, *e, None));
    }
    if !form.pin() {
        steps.retain(|s| s.2.is_none());
    }
    let r = (co.run)(f, form, &steps);
    for (i, s) in steps.iter().enumerate() {
        let ctx = || {
            let lo = i.saturating_sub(140);
            format!(
                "{:?} at {f} Hz, {form:?}, event {i} of {}\nevents from {lo}: {:?}",
                co.ps, steps.len(), &steps[lo..(i + 1)]
            )
        };
        if r.pinerr[i] != s.2 {
            fail!("pin error {:?}, expected {:?}: {}", r.pinerr[i], s.2, ctx());
        }
        if s.2.is_some() {
            c.count("pin_errors", 1);
            c.count("multi_failures", 1);
            continue;
        }
        if let Some(m) = &r.multi[i] {
            if *m != r.single[i] {
                fail!("slots {m:?}, separate receivers {:?}: {}", r.single[i], ctx());
            }
        }
        if let Some(it) = &r.iter[i] {
            let take = form.at(i).1;
            let want: Vec<A> = r.single[i].iter().flatten().take(take).cloned().collect();
            c.count("iterators_left_early", (take != usize::MAX) as u64);
            if *it != want {
                fail!("iterator {it:?}, separate receivers {:?}: {}", r.single[i], ctx());
            }
        }
        let n = r.single[i].iter().flatten().count() as u64;
        c.count("filled_slots", n);
        if n > 1 {
            c.count("double_hits", 1);
        }
    }
    c.count("events", steps.len() as u64);
    c.count("errors_beside", r.errors);
    c.count(["size2", "size3", "size4", "size5", "size6"][co.ps.len() - 2], 1);
    c.distinct(hash64(&[hash_events(&ev), c.idx % t.len() as u64, form as u64]));
    c.sample(|| format!("{:?} at {f} Hz through {form:?}: {} events as separate receivers", co.ps, steps.len()));
    Ok(())
}
