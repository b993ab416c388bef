//! C09: nothing panics, overflows, hangs or corrupts memory. The oracle is the
//! instrumentation: overflow checks, debug assertions, panic attribution, the
//! cpu-time watchdog and (see bin/check.sh) AddressSanitizer and Miri.

use crate::fail;
use crate::fw::*;
use crate::p_send::{self as ps, *};
use crate::spec::*;
use crate::sut::*;
use fugit::{TimerInstantU32, TimerInstantU64};
use infrared::cmd::{AddressCommand, AnyCommand};
use infrared::protocol::nec::*;
use infrared::protocol::rc5::Rc5Command;
use infrared::protocol::rc6::Rc6Command;
use infrared::protocol::sbp::SbpCommand;
use infrared::protocol::*;
use infrared::receiver::{DecoderBuilder, MultiReceiver, NoPin, ProtocolDecoder};
use infrared::remotecontrol::nec::*;
use infrared::remotecontrol::RemoteControlModel;
use infrared::sender::{ProtocolEncoder, PulsedataSender, Sender};
use infrared::{BufferInputReceiver, PeriodicPoll, Receiver};
use std::hint::black_box;

pub fn props() -> Vec<Property> {
    vec![c09()]
}

fn c09() -> Property {
    Property {
        id: "C09",
        rule: "distinct (protocol, frequency, time type, front end, call sequence) runs by hash, all with extreme or random arguments, under overflow checks, debug assertions, panic attribution and a cpu-time watchdog (plus AddressSanitizer and Miri passes)",
        assumptions: &[
            "sender buffers are large enough for the frame",
            "Apple NEC commands are not sendable (their pack is unimplemented)",
            "tick frequencies of the encoders are compile-time constants: a list from 0 Hz to u32::MAX is used",
        ],
        required: &["receivers", "calls", "polls", "buffers", "multi_calls", "loads", "sender_ticks", "values"],
        workloads: vec![
            Workload { name: "receivers", quick: 200_000, thorough: 7_500_000, f: c09_receivers },
            Workload { name: "polled", quick: 48_000, thorough: 1_200_000, f: c09_polled },
            Workload { name: "buffers", quick: 64_000, thorough: 1_600_000, f: c09_buffers },
            Workload { name: "multi", quick: 32_000, thorough: 800_000, f: c09_multi },
            Workload { name: "senders", quick: 72_000, thorough: 2_400_000, f: c09_senders },
            Workload { name: "endurance", quick: 4, thorough: 12, f: c09_endurance },
            Workload { name: "values", quick: 200_000, thorough: 4_000_000, f: c09_values },
        ],
    }
}

/// Any frequency at all
fn any_freq(rng: &mut Rng) -> u32 {
    match rng.below(8) {
        0 => rng.below(20) as u32,
        1 => rng.below(20_000) as u32,
        2 => 1 << rng.below(32),
        3 => u32::MAX - rng.below(10) as u32,
        4 => *rng.pick(&FREQS),
        5 => (u32::MAX / *rng.pick(&[13500u32, 11250, 9000, 6750, 5000, 2664, 2250, 2000, 1778, 1680, 1120, 1000, 889, 840, 444])).wrapping_add(rng.below(3) as u32).wrapping_sub(1),
        _ => rng.u32(),
    }
}

fn any_dur(f: u32, rng: &mut Rng) -> u64 {
    match rng.below(10) {
        0 => 0,
        1 => u32::MAX as u64,
        2 => u32::MAX as u64 - rng.below(10_000),
        3 => 1 << rng.below(32),
        4 => rng.next() & 0xffff_ffff,
        _ => {
            let us = *rng.pick(&[444u64, 480, 560, 840, 888, 889, 1000, 1120, 1332, 1680, 1778, 2000, 2250, 2664, 5000, 6750, 9000, 11250, 13500]);
            (us as f64 * f as f64 / 1e6 * (0.93 + 0.14 * rng.f01())) as u64 & 0xffff_ffff
        }
    }
}

/// Edges with extreme parts, some starting with most of a valid frame
fn any_events(p: P, f: u32, rng: &mut Rng, wide: bool) -> Vec<Ev> {
    let mut ev = vec![];
    for _ in 0..rng.range(1, 4) {
        let w = Wins::new(p, f);
        if w.supported() && rng.chance(2, 3) {
            let fr = random_frame(p, rng);
            let (mut e, _) = play_frame(&fr, &w, any_dur(f, rng), Jit::Any, Marks::Any, rng);
            let n = rng.range(1, e.len() as u64) as usize;
            e.truncate(n);
            ev.extend(e);
        }
        let alt = rng.bool();
        let mut e = rng.bool();
        if rng.chance(1, 6) {
            // a drone: the same interval over and over, edges in a pattern
            let n = match rng.below(300) {
                0 if !cfg!(miri) => 70_000,
                1..=40 => rng.range(250, 1500),
                _ => rng.range(30, 300),
            };
            let d = any_dur(f, rng);
            let per = rng.range(1, 4);
            for i in 0..n {
                ev.push((d, alt ^ (if per == 1 { false } else { i % per == 0 })));
            }
        }
        for _ in 0..rng.range(1, 60) {
            e = if alt { !e } else { rng.bool() };
            ev.push((any_dur(f, rng), e));
        }
    }
    if wide {
        for x in ev.iter_mut() {
            if rng.chance(1, 20) {
                x.0 = match rng.below(3) {
                    0 => u64::MAX - rng.below(10),
                    1 => 1 << rng.below(64),
                    _ => rng.next(),
                };
            }
        }
    }
    ev
}

fn drive<T, M: Mono>(f: u32, ev: &[Ev], rng: &mut Rng) -> u64
where
    T: DecoderBuilder<M>,
    T::Cmd: Canon,
{
    let mut calls = 0;
    match rng.below(6) {
        0 => {
            let mut r = Receiver::<T, NoPin, M>::new(f);
            for (d, e) in ev {
                black_box(out(r.event(M::dur(*d), *e)));
                calls += 1;
            }
        }
        1 => {
            // clocks that run on, jump and go backwards
            let mut r = Receiver::<T, NoPin, M>::new(f);
            let mut t = 0u64;
            for (d, e) in ev {
                t = match rng.below(12) {
                    0 => rng.next(),
                    1 => t.wrapping_sub(*d),
                    2 => u64::MAX,
                    3 => 0,
                    _ => t.wrapping_add(*d),
                };
                black_box(out(r.event_instant(M::inst(t), *e)));
                calls += 1;
            }
        }
        2 => {
            let pin = Pin::default();
            let mut r = Receiver::<T, Pin, M>::with_pin(f, pin.clone());
            let mut t = 0u64;
            for (d, e) in ev {
                pin.mark.set(*e);
                pin.fail.set(rng.chance(1, 10).then(|| rng.u32()));
                if rng.bool() {
                    black_box(out_pin(r.event(M::dur(*d))));
                } else {
                    t = if rng.chance(1, 10) { rng.next() } else { t.wrapping_add(*d) };
                    black_box(out_pin(r.event_instant(M::inst(t))));
                }
                calls += 1;
            }
            black_box(r.pin().id);
            r.pin_mut().id = 3;
            black_box(r.release().id);
        }
        3 | 4 => {
            // a bare decoder, driven past completion and errors
            let mut d = T::build(f);
            black_box(d.spans().check_overlaps());
            for (dt, e) in ev {
                black_box(d.event(*e, M::dur(*dt)));
                if rng.chance(1, 4) {
                    black_box(d.command().map(|c| c.canon()));
                }
                if rng.chance(1, 40) {
                    d.reset();
                }
                calls += 1;
            }
        }
        _ => {
            let mut r = infrared::receiver().protocol::<T>().monotonic::<M>().frequency(f).build();
            for (d, e) in ev {
                black_box(out(r.event_edge(M::dur(*d), *e)));
                calls += 1;
            }
        }
    }
    calls
}

fn c09_receivers(c: &mut Case) -> Res {
    let p = ALL[(c.idx % 9) as usize];
    let ty = c.rng.below(24);
    const HZ: [u32; 22] = [
        1, 3, 999, 1000, 20_000, 32_768, 40_000, 333_333, 999_983, 1_000_000, 1_000_003, 1_843_200, 7_372_800, 16_000_000, 72_000_000,
        133_333_333, 168_000_000, 477_219_000, 999_999_937, 2_147_483_648, 4_294_967_291, 4_294_967_295,
    ];
    let f = if ty < 6 { any_freq(&mut c.rng) } else { *c.rng.pick(&HZ) };
    let wide = ty % 2 == 1;
    let ev = any_events(p, f, &mut c.rng, wide);
    c.note = format!("[{} at {f} Hz, time type {ty}]\nevents: {}", p.name(), show(&ev));
    let ev32: Vec<Ev> = ev.iter().map(|(d, e)| (d & 0xffff_ffff, *e)).collect();
    let rng = &mut c.rng;
    macro_rules! fgt {
        ($T:ty; $($h:literal),*) => {
            match f {
                $($h => if wide { drive::<$T, TimerInstantU64<$h>>(f, &ev, rng) } else { drive::<$T, TimerInstantU32<$h>>(f, &ev32, rng) },)*
                _ => unreachable!("frequency table"),
            }
        };
    }
    let calls = with_proto!(p, T => if ty < 6 {
        if wide { drive::<T, u64>(f, &ev, rng) } else { drive::<T, u32>(f, &ev32, rng) }
    } else {
        fgt!(T; 1, 3, 999, 1000, 20_000, 32_768, 40_000, 333_333, 999_983, 1_000_000, 1_000_003, 1_843_200, 7_372_800, 16_000_000,
            72_000_000, 133_333_333, 168_000_000, 477_219_000, 999_999_937, 2_147_483_648, 4_294_967_291, 4_294_967_295)
    });
    c.count("calls", calls);
    c.count("receivers", 1);
    c.distinct(hash64(&[hash_events(&ev), f as u64, ty, p as u64]));
    c.sample(|| format!("{} at {f} Hz, {} edges with extreme intervals: returned normally", p.name(), ev.len()));
    Ok(())
}

fn c09_polled(c: &mut Case) -> Res {
    let p = ALL[(c.idx % 9) as usize];
    let f = any_freq(&mut c.rng);
    c.note = format!("[{} polled at {f} Hz, case {}]", p.name(), c.idx);
    let n = c.rng.range(100, 4000);
    let runs = *c.rng.pick(&[2u64, 10, 40, 400]);
    let pin = Pin::default();
    let h = with_proto!(p, T => {
        let mut a = PeriodicPoll::<T>::new(f);
        let mut b = infrared::receiver().protocol::<T>().pin(pin.clone()).frequency(f).build_polled();
        let mut l = false;
        let mut h = 0u64;
        for _ in 0..n {
            if c.rng.below(runs) == 0 {
                l = !l;
                h = hash64(&[h, 1]);
            }
            h = h.wrapping_add(1);
            black_box(out(a.poll(l)));
            pin.mark.set(l);
            pin.fail.set(c.rng.chance(1, 30).then_some(7));
            black_box(out_pin(b.poll()));
        }
        h
    });
    c.count("polls", 2 * n);
    c.distinct(hash64(&[h, f as u64, p as u64]));
    Ok(())
}

fn c09_buffers(c: &mut Case) -> Res {
    let p = ALL[(c.idx % 9) as usize];
    let f = any_freq(&mut c.rng);
    let wide = c.rng.bool();
    let ev = any_events(p, f, &mut c.rng, wide);
    let ev = if c.rng.chance(1, 20) { vec![] } else { ev };
    c.note = format!("[{} buffer at {f} Hz]\nevents: {}", p.name(), show(&ev));
    with_proto!(p, T => if wide {
        let b: Vec<u64> = ev.iter().map(|e| e.0).collect();
        let mut r = BufferInputReceiver::<T, u64>::with_frequenzy(f);
        black_box(r.iter(&b).count());
    } else {
        let b: Vec<u32> = ev.iter().map(|e| e.0 as u32).collect();
        let mut r = BufferInputReceiver::<T>::with_frequenzy(f);
        let mut it = r.iter(&b);
        let mut n = 0;
        // calling next again after None must be fine too
        for _ in 0..b.len() + 3 {
            n += it.next().is_some() as usize;
        }
        if n > b.len() {
            fail!("more commands than intervals");
        }
        black_box(r.iter_with::<T, u32, <T as Protocol>::Cmd>(f, &b).last().map(|c| c.canon()));
    });
    c.count("buffers", 1);
    c.distinct(hash64(&[hash_events(&ev), f as u64]));
    Ok(())
}

fn c09_multi(c: &mut Case) -> Res {
    let f = any_freq(&mut c.rng);
    let p = *c.rng.pick(&ALL);
    let ev = any_events(p, f, &mut c.rng, false);
    c.note = format!("[multi receiver at {f} Hz]\nevents: {}", show(&ev));
    let pin = Pin::default();
    let mut m2 = MultiReceiver::<2, (SamsungNec, AppleNec), NoPin>::new(f, NoPin);
    let mut m6 = MultiReceiver::<6, (Nec, Rc5, Rc6, Sbp, Denon, AppleNec), Pin>::new(f, pin.clone());
    let mut m3 = MultiReceiver::<3, (Denon, Sbp, SamsungNec), NoPin, u64>::new(f, NoPin);
    let mut m4 = MultiReceiver::<4, (Rc5, Rc6, Nec, Denon), NoPin, TimerInstantU32<333_333>>::new(f, NoPin);
    for (d, e) in &ev {
        black_box(m2.event_generic(*d as u32, *e));
        black_box(m3.event_generic_iter(*d, *e).count());
        black_box(m4.event_generic(<TimerInstantU32<333_333> as Mono>::dur(*d), *e));
        pin.mark.set(*e);
        pin.fail.set(c.rng.chance(1, 20).then_some(1));
        let _ = black_box(m6.event(*d as u32));
        if let Ok(it) = m6.event_iter(*d as u32) {
            black_box(it.count());
        }
    }
    black_box(m6.pin().id);
    c.count("multi_calls", 5 * ev.len() as u64);
    c.distinct(hash64(&[hash_events(&ev), f as u64]));
    Ok(())
}

fn any_cmd(p: P, rng: &mut Rng) -> K {
    // any field values, also ones that do not fit the protocol
    K { p, addr: rng.u32() & 0xffff, cmd: rng.u32() & 0xff, aux: rng.next() & 0xffff_ffff, rep: rng.bool() }
}

fn tx_any<const F: u32>(rng: &mut Rng) -> (u64, u64, u64) {
    let (mut loads, mut ticks, mut h) = (0, 0, F as u64);
    let pwm = Pwm::default();
    let mut s = Sender::<Pwm, F, 96>::new(pwm.clone());
    let mut d = PulsedataSender::<68>::new();
    for _ in 0..rng.range(1, 4) {
        let k = any_cmd(*rng.pick(&SENDABLE), rng);
        h = hash64(&[h, k.w()]);
        with_sendable!(&k, T, cmd => {
            let mut b = [0u32; 68];
            let n = <T as ProtocolEncoder<F>>::encode(&cmd, &mut b);
            // a buffer that just fits, on the heap so that the sanitizer sees its end
            let mut fit = vec![0u32; n].into_boxed_slice();
            black_box(<T as ProtocolEncoder<F>>::encode(&cmd, &mut fit));
            black_box(<T as ProtocolEncoder<F>>::DATA);
            s.load::<T>(&cmd);
            d.load_command::<T, F>(&cmd);
        });
        loads += 3;
        let n = rng.range(0, 2000);
        let mut ts = rng.u32();
        for _ in 0..n {
            s.tick();
            ts = match rng.below(20) {
                0 => rng.u32(),
                1 => ts.wrapping_sub(rng.below(1000) as u32),
                2 => ts,
                _ => ts.wrapping_add(rng.below(100) as u32),
            };
            black_box(d.tick(ts));
        }
        ticks += 2 * n;
        if rng.chance(1, 3) {
            d.reset();
        }
        black_box((s.buffer().len(), d.buffer().len()));
    }
    (loads, ticks, h)
}

type TxFn = fn(&mut Rng) -> (u64, u64, u64);
macro_rules! txs {
    ($($f:expr),* $(,)?) => { &[$(tx_any::<{ $f }> as TxFn),*] };
}
const TX_ANY: &[TxFn] = txs![
    0, 1, 2, 3, 10, 100, 999, 1000, 1001, 1999, 2000, 5000, 10_000, 15_000, 19_999, 20_000, 38_000, 40_000, 100_000, 318_146, 333_333,
    477_219, 1_000_000, 4_831_234, 9_673_351, 9_673_352, 48_000_000, 84_000_000, 168_000_000, 429_496_729, 477_218_588, 477_219_000,
    1_000_000_000, 2_147_483_648, 4_294_967_295,
];

fn c09_senders(c: &mut Case) -> Res {
    let i = (c.idx as usize) % TX_ANY.len();
    c.note = format!("[sender frequency entry {i}]");
    let (l, t, h) = TX_ANY[i](&mut c.rng);
    c.count("loads", l);
    c.count("sender_ticks", t);
    c.distinct(h);
    Ok(())
}

/// Counters driven past 2^32 (not under the sanitizers, which would take too long)
fn c09_endurance(c: &mut Case) -> Res {
    let short = std::env::var_os("VERIF_SCALE").is_some();
    let n: u64 = if cfg!(miri) { 1000 } else if short { 5_000_000 } else { (1 << 32) + 100_000 };
    c.note = format!("[{n} polls or ticks]");
    match c.idx % 4 {
        0 => {
            let mut r = PeriodicPoll::<Rc6>::new(40_000);
            for i in 0..n {
                // an edge now and then, also around the wrap
                black_box(out(r.poll(i >> 20 & 1 == 1 || i >> 32 != 0 && i & 64 != 0)));
            }
            c.count("polls", n);
        }
        1 => {
            let pin = Pin::default();
            let mut r = PeriodicPoll::<Nec, Pin>::with_pin(20_000, pin.clone());
            for i in 0..n {
                if i & 0xffff == 0 {
                    pin.mark.set(i >> 24 & 1 == 1);
                }
                black_box(out_pin(r.poll()));
            }
            c.count("polls", n);
        }
        2 => {
            // idle, then sending: the tick counter runs on while idle
            let pwm = Pwm::default();
            let mut s = Sender::<Pwm, 40_000, 96>::new(pwm.clone());
            let k = any_cmd(P::Nec, &mut c.rng);
            if c.idx >= 4 {
                s.load::<Nec>(&ps::nec(&k));
            }
            for _ in 0..n {
                s.tick();
            }
            s.load::<Nec>(&ps::nec(&k));
            for _ in 0..5000 {
                s.tick();
            }
            c.count("sender_ticks", n);
        }
        _ => {
            let mut s = PulsedataSender::<96>::new();
            let k = any_cmd(P::Nec, &mut c.rng);
            s.load_command::<Nec, 40_000>(&ps::nec(&k));
            for i in 0..n {
                black_box(s.tick(i as u32));
            }
            c.count("sender_ticks", n);
        }
    }
    c.enumerated(1);
    Ok(())
}

fn c09_values(c: &mut Case) -> Res {
    let w = pattern(&mut c.rng, 32) as u32;
    let v = pattern(&mut c.rng, 32) as u32;
    let rep = c.rng.bool();
    c.note = format!("[values {w:#x} {v:#x}]");
    macro_rules! one {
        ($T:ty) => {
            black_box(<$T>::validate(w));
            if let Some(x) = <$T>::unpack(w, rep) {
                black_box(x.canon());
            }
        };
    }
    one!(NecCommand);
    one!(Nec16Command);
    one!(SamsungNecCommand);
    one!(AppleNecCommand);
    one!(NecDebugCmd);
    let k = any_cmd(P::Nec, &mut c.rng);
    black_box((ps::nec(&k).pack(), ps::nec16(&k).pack(), ps::sam(&k).pack(), ps::dbg(&k).pack()));
    black_box((ps::rc5(&k).pack(), Rc5Command::unpack(w as u16)));
    black_box(Rc6Command::from_bits(w as u16, rep));
    black_box(SbpCommand::unpack(w as u16, v));
    macro_rules! gen {
        ($($T:ty),*) => { $(
            if let Some(x) = <$T>::create(w, v) {
                black_box((x.address(), x.command(), x.raw()));
                black_box(AnyCommand::from(x));
            }
        )* };
    }
    gen!(NecCommand, SamsungNecCommand, AppleNecCommand, Rc5Command, Rc6Command, SbpCommand);
    let a = AppleNecCommand { command_page: w as u8, command: v as u8, device_id: 3, repeat: rep };
    black_box((a.address(), a.command(), Apple2009::decode(&a)));
    black_box((SamsungTv::decode(&ps::sam(&k)), SpecialForMp3::decode(&ps::nec(&k))));
    black_box(infrared::ProtocolId::from(w as u8));
    c.count("values", 1);
    c.distinct(hash64(&[w as u64, v as u64]));
    Ok(())
}
