//! C01, C11, C12: encoding and sending.

use crate::fail;
use crate::fw::*;
use crate::gen::*;
use crate::spec::*;
use crate::sut::*;
use infrared::protocol::nec::*;
use infrared::protocol::rc5::Rc5Command;
use infrared::protocol::rc6::Rc6Command;
use infrared::protocol::{Nec, Nec16, NecDebug, Rc5, Rc6, SamsungNec};
use infrared::sender::{ProtocolEncoder, PulsedataSender, Sender, Status};
use std::cell::Cell;
use std::rc::Rc;

pub fn props() -> Vec<Property> {
    vec![c01(), c11(), c12()]
}

pub const SENDABLE: [P; 6] = [P::Nec, P::Nec16, P::Sam, P::Dbg, P::Rc5, P::Rc6];

pub fn nec(k: &K) -> NecCommand {
    NecCommand { addr: k.addr as u8, cmd: k.cmd as u8, repeat: k.rep }
}
pub fn nec16(k: &K) -> Nec16Command {
    Nec16Command { addr: k.addr as u16, cmd: k.cmd as u8, repeat: k.rep }
}
pub fn sam(k: &K) -> SamsungNecCommand {
    SamsungNecCommand { addr: k.addr as u8, cmd: k.cmd as u8, repeat: k.rep }
}
pub fn dbg(k: &K) -> NecDebugCmd {
    NecDebugCmd { bits: k.aux as u32 }
}
pub fn rc5(k: &K) -> Rc5Command {
    Rc5Command { addr: k.addr as u8, cmd: k.cmd as u8, start: k.aux as u8, toggle: k.rep }
}
pub fn rc6(k: &K) -> Rc6Command {
    Rc6Command { addr: k.addr as u8, cmd: k.cmd as u8, toggle: k.rep }
}

/// Run `$body` with `$T` the protocol and `$c` the library command for `$k`
#[macro_export]
macro_rules! with_sendable {
    ($k:expr, $T:ident, $c:ident => $e:expr) => {{
        use $crate::p_send as ps;
        let k: &$crate::spec::K = $k;
        match k.p {
            $crate::spec::P::Nec => { type $T = infrared::protocol::Nec; let $c = ps::nec(k); $e }
            $crate::spec::P::Nec16 => { type $T = infrared::protocol::Nec16; let $c = ps::nec16(k); $e }
            $crate::spec::P::Sam => { type $T = infrared::protocol::SamsungNec; let $c = ps::sam(k); $e }
            $crate::spec::P::Dbg => { type $T = infrared::protocol::NecDebug; let $c = ps::dbg(k); $e }
            $crate::spec::P::Rc5 => { type $T = infrared::protocol::Rc5; let $c = ps::rc5(k); $e }
            $crate::spec::P::Rc6 => { type $T = infrared::protocol::Rc6; let $c = ps::rc6(k); $e }
            _ => unreachable!(),
        }
    }};
}

pub fn enc<const F: u32>(k: &K, b: &mut [u32]) -> usize {
    match k.p {
        P::Nec => <Nec as ProtocolEncoder<F>>::encode(&nec(k), b),
        P::Nec16 => <Nec16 as ProtocolEncoder<F>>::encode(&nec16(k), b),
        P::Sam => <SamsungNec as ProtocolEncoder<F>>::encode(&sam(k), b),
        P::Dbg => <NecDebug as ProtocolEncoder<F>>::encode(&dbg(k), b),
        P::Rc5 => <Rc5 as ProtocolEncoder<F>>::encode(&rc5(k), b),
        P::Rc6 => <Rc6 as ProtocolEncoder<F>>::encode(&rc6(k), b),
        _ => unreachable!(),
    }
}

type Enc = fn(&K, &mut [u32]) -> usize;

macro_rules! table {
    ($name:ident, $fun:ident, $ty:ty, [$($f:expr),* $(,)?]) => {
        pub const $name: &[(u32, $ty)] = &[$(($f, $fun::<{ $f }> as $ty)),*];
    };
}

table!(ENC, enc, Enc, [
    20_000, 20_001, 20_500, 20_999, 21_000, 21_750, 22_000, 22_050, 23_000, 24_000, 25_000, 26_000, 27_000, 28_000,
    29_000, 30_000, 31_250, 32_000, 32_768, 33_333, 34_000, 35_000, 36_000, 36_700, 37_900, 38_000, 38_400, 39_999,
    40_000, 42_000, 44_100, 45_678, 48_000, 50_000, 54_321, 55_000, 56_000, 57_600, 60_000, 62_500, 64_000, 65_536,
    72_000, 75_000, 76_000, 80_000, 96_000, 99_999, 100_000, 115_200, 125_000, 150_000, 192_000, 200_000, 250_000,
    300_000, 318_145, 318_146, 333_333, 381_774, 381_775, 477_218, 477_219, 500_000, 666_667, 750_000, 954_437, 999_999, 1_000_000,
    1_000_001, 1_234_567, 1_500_000, 1_843_200, 1_908_875, 2_000_000, 2_415_617, 3_000_000, 3_686_400, 4_000_000, 4_831_233, 4_831_234,
    6_000_000, 7_372_800, 7_669_585, 8_000_000, 9_673_350, 9_673_351, 10_000_000, 12_000_000, 14_745_600, 16_000_000,
    20_000_000, 24_000_000, 32_000_000, 36_000_000, 48_000_000, 64_000_000, 72_000_000, 80_000_000, 84_000_000,
    96_000_000, 100_000_000, 120_000_000, 133_333_333, 150_000_000, 168_000_000, 180_000_000, 216_000_000, 240_000_000,
    318_145_999, 318_146_000, 400_000_000, 477_219_000, 480_000_000, 600_000_000, 954_437_177, 1_000_000_000,
    1_999_999_999, 2_147_483_648, 3_000_000_000, 4_000_000_000, 4_294_967_295,
]);

pub fn random_sendable(p: P, rng: &mut Rng) -> K {
    random_frame(p, rng).k
}

// ------------------------------------------------------------------ C01

fn c01() -> Property {
    Property {
        id: "C01",
        rule: "distinct (command, tick frequency) pairs encoded by the library and decoded by a receiver of the same frequency, by enumeration of the small command spaces and by hash for the large ones",
        assumptions: &[
            "tick frequencies are compile-time constants of the encoder: a list of over 120 values from 20 kHz to u32::MAX is used",
            "NEC commands carry a clear repeat flag (the encoders send full frames)",
        ],
        required: &["round_trips", "back_to_back", "loopback_frames", "wide_commands"],
        workloads: vec![
            Workload { name: "exhaustive", quick: 1600, thorough: 1600, f: c01_exhaustive },
            Workload { name: "wide", quick: 4096 + 1024, thorough: 4096 + 16384, f: c01_wide },
            Workload { name: "sequences", quick: 400_000, thorough: 4_800_000, f: c01_sequences },
            Workload { name: "soak", quick: 12, thorough: 36, f: c01_soak },
            Workload { name: "loopback", quick: 48_000, thorough: 480_000, f: c01_loopback },
        ],
    }
}

/// Number of enumerated commands
fn space(p: P) -> u64 {
    match p {
        P::Nec | P::Sam => 65536,
        P::Rc5 => 8192,
        P::Rc6 => 131072,
        _ => 0,
    }
}

fn nth(p: P, v: u64) -> K {
    match p {
        P::Nec | P::Sam => K { p, addr: (v >> 8 & 0xff) as u32, cmd: (v & 0xff) as u32, aux: 0, rep: false },
        P::Rc6 => K { p, addr: (v >> 9 & 0xff) as u32, cmd: (v >> 1 & 0xff) as u32, aux: 0, rep: v & 1 == 1 },
        P::Rc5 => K { p, addr: (v >> 8 & 31) as u32, cmd: (v >> 2 & 63) as u32, aux: 2 + (v & 1), rep: v >> 1 & 1 == 1 },
        _ => unreachable!(),
    }
}

fn round_trip(c: &mut Case, k: &K, f: u32, e: Enc, fresh: &mut Option<Box<dyn Rx>>) -> Res {
    let mut b = [0u32; 200];
    let n = e(k, &mut b);
    if n == 0 || n > 200 {
        fail!("encoder returned length {n}");
    }
    let r = fresh.get_or_insert_with(|| rx(k.p, f));
    let mut seen = 0;
    for (i, d) in b[..n].iter().enumerate() {
        match r.ev(*d as u64, i % 2 == 0) {
            Out::None => {}
            Out::Cmd(g) if g == *k => seen += 1,
            o => fail!("{k:?} encoded at {f} Hz is received as {o:?} at entry {i}\nbuffer: {:?}", &b[..n]),
        }
    }
    if seen != 1 {
        fail!("{k:?} encoded at {f} Hz is received {seen} times\nbuffer: {:?}", &b[..n]);
    }
    c.count("round_trips", 1);
    Ok(())
}

fn c01_exhaustive(c: &mut Case) -> Res {
    // 1600 cases: each takes 1/160 of every space for each protocol, or patterns
    let p = SENDABLE[(c.idx % 6) as usize];
    let part = c.idx / 6;
    let parts = 1600 / 6;
    let s = space(p);
    let (a, z) = if s > 0 {
        (s * part / parts, (s * (part + 1) / parts).min(s))
    } else {
        (0, 250)
    };
    let nf = if c.tier == Tier::Quick { 6 } else { ENC.len() };
    for v in a..z {
        let k = if s > 0 { nth(p, v) } else { random_sendable(p, &mut c.rng) };
        for i in 0..nf {
            let (f, e) = if c.tier == Tier::Quick { *c.rng.pick(ENC) } else { ENC[i] };
            round_trip(c, &k, f, e, &mut None)?;
            c.evals(1);
            if c.tier == Tier::Thorough && s > 0 {
                c.enumerated(1);
            } else {
                c.distinct(hash64(&[k.w(), f as u64]));
            }
        }
    }
    if s == 0 || part == 0 {
        // every frequency
        for (f, e) in ENC {
            for _ in 0..3 {
                let k = random_sendable(p, &mut c.rng);
                round_trip(c, &k, *f, *e, &mut None)?;
                c.distinct(hash64(&[k.w(), *f as u64]));
            }
        }
    }
    Ok(())
}

/// Every NEC16 command (cases 0..4096), and 4096 words per case for the debug variant: neighbours
/// of random and of regular words
fn wide(c: &mut Case, i: u64) -> K {
    if c.idx < 4096 {
        let v = c.idx << 12 | i;
        return K { p: P::Nec16, addr: (v >> 8) as u32, cmd: (v & 0xff) as u32, aux: 0, rep: false };
    }
    let w = match c.idx % 3 {
        0 => (c.idx as u32).wrapping_mul(0x9e37_79b9) & 0xffff_f000 | i as u32,
        1 => ((c.idx as u32).wrapping_mul(0x9e37_79b9) & 0xffff_f000 | i as u32).swap_bytes(),
        _ => c.rng.u32(),
    };
    K { p: P::Dbg, addr: 0, cmd: 0, aux: w as u64, rep: false }
}

fn c01_wide(c: &mut Case) -> Res {
    for i in 0..4096 {
        let k = wide(c, i);
        let (f, e) = ENC[((c.idx.wrapping_mul(31) + i) % ENC.len() as u64) as usize];
        round_trip(c, &k, f, e, &mut None)?;
    }
    c.count("wide_commands", 4096);
    c.evals(4095);
    c.enumerated(4096);
    Ok(())
}

fn c12_wide(c: &mut Case) -> Res {
    for i in 0..4096 {
        let k = wide(c, i);
        let (f, e) = ENC[((c.idx.wrapping_mul(31) + i) % ENC.len() as u64) as usize];
        conform(c, &k, f, e)?;
    }
    c.count("wide_commands", 4096);
    c.evals(4095);
    c.enumerated(4096);
    Ok(())
}

/// Frames back to back or with pauses on one receiver
fn c01_sequences(c: &mut Case) -> Res {
    let p = SENDABLE[(c.idx % 6) as usize];
    let (f, e) = ENC[(c.idx / 6) as usize % ENC.len()];
    let w = Wins::new(p, f);
    let n = c.rng.range(2, 12);
    let style = c.rng.below(3);
    let mut ivs: Vec<u64> = vec![];
    let mut want = vec![];
    let mut ks: Vec<K> = vec![];
    for _ in 0..n {
        let k = if c.rng.chance(1, 4) && !ks.is_empty() { *ks.last().unwrap() } else { random_sendable(p, &mut c.rng) };
        let mut b = [0u32; 200];
        let l = e(&k, &mut b);
        let mut fr: Vec<u64> = b[..l].iter().map(|x| *x as u64).collect();
        if style == 1 || (style == 2 && c.rng.bool()) {
            fr[0] += pause(&w, &mut c.rng);
        } else {
            c.count("back_to_back", 1);
        }
        if fr.len() % 2 == 1 {
            fail!("{} frame of {} entries does not end with a mark: {k:?} at {f} Hz", p.name(), fr.len());
        }
        ivs.extend(fr);
        want.push(k);
        ks.push(k);
    }
    let ev: Vec<Ev> = ivs.iter().enumerate().map(|(i, d)| (*d, i % 2 == 0)).collect();
    let mut r = rx_any(p, f, c);
    let o = feed(&mut *r, &ev);
    if let Some(i) = o.iter().position(|x| matches!(x, Out::Err(_))) {
        fail!("{} at {f} Hz: frames {want:?}: error {:?} at entry {i}\nevents: {}", p.name(), o[i], show(&ev));
    }
    let got = commands(&o);
    if got != want {
        fail!("{} at {f} Hz: sent {want:?}\nreceived {got:?}\nevents: {}", p.name(), show(&ev));
    }
    // and from a buffer
    let buf: Vec<u32> = ivs.iter().map(|x| *x as u32).collect();
    let got: Vec<K> = with_proto!(p, T => {
        let mut r = infrared::BufferInputReceiver::<T>::with_frequenzy(f);
        r.iter(&buf).map(|k| k.canon()).collect()
    });
    if got != want {
        fail!("{} at {f} Hz: sent {want:?}\nbuffer receiver returned {got:?}\nevents: {}", p.name(), show(&ev));
    }
    c.count("round_trips", n);
    c.distinct(hash_events(&ev));
    c.sample(|| format!("{} at {f} Hz: {n} frames ({} entries) received as sent", p.name(), ivs.len()));
    Ok(())
}

/// More than 2^16 frames, back to back, on one receiver
fn c01_soak(c: &mut Case) -> Res {
    let p = SENDABLE[(c.idx % 6) as usize];
    let (f, e) = *c.rng.pick(ENC);
    let mut r = Some(rx_any(p, f, c));
    for _ in 0..70_000 {
        let k = random_sendable(p, &mut c.rng);
        round_trip(c, &k, f, e, &mut r)?;
    }
    c.count("back_to_back", 70_000);
    c.enumerated(1);
    Ok(())
}

// ------------------------------------------------------------- sender

/// Pwm pin that only records its state
#[derive(Clone, Default)]
pub struct Pwm {
    pub on: Rc<Cell<bool>>,
    pub other: Rc<Cell<u64>>,
}

impl embedded_hal::PwmPin for Pwm {
    type Duty = u16;
    fn disable(&mut self) {
        self.on.set(false);
    }
    fn enable(&mut self) {
        self.on.set(true);
    }
    fn get_duty(&self) -> u16 {
        self.other.set(self.other.get() + 1);
        0
    }
    fn get_max_duty(&self) -> u16 {
        self.other.set(self.other.get() + 1);
        1
    }
    fn set_duty(&mut self, _: u16) {
        self.other.set(self.other.get() + 1);
    }
}

/// A sender of any kind: load a command, tick, look at the output
pub trait Tx {
    fn load(&mut self, k: &K);
    fn tick(&mut self) -> bool;
    fn buffer(&self) -> Vec<u32>;
    fn other(&self) -> u64 {
        0
    }
    /// what the last tick reported, if the sender tells
    fn status(&self) -> Option<Status> {
        None
    }
    /// stop and forget everything, if the sender can
    fn reset(&mut self) -> bool {
        false
    }
}

struct HalTx<const F: u32, const S: usize>(Sender<Pwm, F, S>, Pwm);
impl<const F: u32, const S: usize> Tx for HalTx<F, S> {
    fn load(&mut self, k: &K) {
        with_sendable!(k, T, cmd => self.0.load::<T>(&cmd))
    }
    fn tick(&mut self) -> bool {
        self.0.tick();
        self.1.on.get()
    }
    fn buffer(&self) -> Vec<u32> {
        self.0.buffer().to_vec()
    }
    fn other(&self) -> u64 {
        self.1.other.get()
    }
}

struct DataTx<const F: u32, const S: usize>(PulsedataSender<S>, u32, Status);
impl<const F: u32, const S: usize> Tx for DataTx<F, S> {
    fn load(&mut self, k: &K) {
        with_sendable!(k, T, cmd => self.0.load_command::<T, F>(&cmd))
    }
    fn tick(&mut self) -> bool {
        let s = self.0.tick(self.1);
        self.1 = self.1.wrapping_add(1);
        self.2 = s;
        s == Status::Transmit(true)
    }
    fn buffer(&self) -> Vec<u32> {
        self.0.buffer().to_vec()
    }
    fn other(&self) -> u64 {
        (self.2 == Status::Error) as u64
    }
    fn status(&self) -> Option<Status> {
        Some(self.2)
    }
    fn reset(&mut self) -> bool {
        self.0.reset();
        true
    }
}

/// kind 0..3: Sender with buffer sizes 68, 96, 200; 3..6: PulsedataSender
fn mk<const F: u32>(kind: u64, start: u32) -> Box<dyn Tx> {
    let pin = Pwm::default();
    match kind {
        0 => Box::new(HalTx::<F, 68>(Sender::new(pin.clone()), pin)),
        1 => Box::new(HalTx::<F, 96>(Sender::new(pin.clone()), pin)),
        2 => Box::new(HalTx::<F, 200>(Sender::new(pin.clone()), pin)),
        3 => Box::new(DataTx::<F, 68>(PulsedataSender::new(), start, Status::Idle)),
        4 => Box::new(DataTx::<F, 96>(PulsedataSender::new(), start, Status::Idle)),
        _ => Box::new(DataTx::<F, 200>(PulsedataSender::new(), start, Status::Idle)),
    }
}

type Mk = fn(u64, u32) -> Box<dyn Tx>;
table!(TXS, mk, Mk, [20_000, 32_768, 36_000, 38_000, 40_000, 56_000, 100_000, 250_000, 1_000_000]);

pub fn enc_for(f: u32) -> Enc {
    ENC.iter().find(|(g, _)| *g == f).unwrap().1
}

fn c01_loopback(c: &mut Case) -> Res {
    let p = SENDABLE[(c.idx % 6) as usize];
    let (f, mk) = TXS[(c.idx / 6) as usize % 7];
    let kind = c.rng.below(6);
    let start = if c.rng.bool() { 0 } else { u32::MAX - c.rng.below(5000) as u32 };
    let mut tx = mk(kind, start);
    let w = Wins::new(p, f);
    // one extra tick between the end of a transmission and the next
    let mut pp = with_proto!(p, T => Box::new(LoopPoll::<T>(infrared::PeriodicPoll::new(f))) as Box<dyn Poll>);
    let mut line = vec![];
    for _ in 0..c.rng.range(1, 5) {
        let k = random_sendable(p, &mut c.rng);
        tx.load(&k);
        let ticks: u64 = tx.buffer().iter().map(|x| *x as u64).sum::<u64>() + 4;
        let idle = if c.rng.chance(1, 3) { 0 } else { short_pause(&w, &mut c.rng) };
        let mut got = vec![];
        for _ in 0..ticks + idle {
            let on = tx.tick();
            line.push(on);
            match pp.poll(on) {
                Out::None => {}
                o => got.push(o),
            }
        }
        if got != vec![Out::Cmd(k)] {
            fail!("{} sent at {f} Hz (sender kind {kind}, clock from {start}) and polled: sent {k:?}, received {got:?}\nbuffer {:?}", p.name(), tx.buffer());
        }
        c.count("loopback_frames", 1);
        c.distinct(hash64(&[k.w(), f as u64, kind, start as u64]));
    }
    Ok(())
}

trait Poll {
    fn poll(&mut self, l: bool) -> Out;
}
struct LoopPoll<T: infrared::receiver::DecoderBuilder<u32>>(infrared::PeriodicPoll<T>);
impl<T: infrared::receiver::DecoderBuilder<u32>> Poll for LoopPoll<T>
where
    T::Cmd: Canon,
{
    fn poll(&mut self, l: bool) -> Out {
        out(self.0.poll(l))
    }
}

// ------------------------------------------------------------------ C11

fn c11() -> Property {
    Property {
        id: "C11",
        rule: "distinct transmissions (command, frequency, sender kind and buffer size, clock start, position in the history) whose output was compared with the encoded pulse train at every tick",
        assumptions: &[
            "the encoded pulse train is what ProtocolEncoder::encode returns for the command (C12 checks that)",
            "user defined encoders: a delay (if not zero: counted from timestamp zero), then an odd number of entries of at least one tick, or nothing at all",
            "PulsedataSender clocks advance by one per tick, or (cadence) by any steps: each edge then comes at the first tick at which the mark or space has lasted its length",
        ],
        required: &["ticks", "transmissions", "ignored_loads", "clock_wraps", "shorter_after_longer", "long_idle", "user_trains", "delayed_trains", "cut_trains", "resets", "coarse_ticks", "restarts"],
        workloads: vec![
            Workload { name: "history", quick: 120_000, thorough: 1_800_000, f: c11_history },
            Workload { name: "each", quick: 24_000, thorough: 120_000, f: c11_each },
            Workload { name: "cadence", quick: 40_000, thorough: 800_000, f: c11_cadence },
            Workload { name: "trains", quick: 40_000, thorough: 800_000, f: crate::p_custom::c11_trains },
            Workload { name: "soak", quick: 12, thorough: 36, f: c11_soak },
            Workload { name: "longidle", quick: 2, thorough: 12, f: c11_longidle },
        ],
    }
}

/// Play `k`, checking every tick. `extra` idle ticks afterwards. `during`: loads tried while running.
fn play_checked(c: &mut Case, tx: &mut dyn Tx, k: &K, f: u32, extra: u64, during: bool, ctx: &str) -> Res {
    let mut b = [0u32; 200];
    let l = enc_for(f)(k, &mut b);
    let train = &b[..l];
    tx.load(k);
    if tx.buffer() != train {
        fail!("{ctx}: buffer() after loading {k:?} at {f} Hz is {:?}, encoded {train:?}", tx.buffer());
    }
    let mut t = 0u64;
    let mut on = true;
    let try_at: u64 = if during { c.rng.below(train.iter().map(|x| *x as u64).sum::<u64>().max(1)) + 1 } else { u64::MAX };
    for (i, d) in train.iter().enumerate().skip(1) {
        for j in 0..*d {
            if t == try_at {
                // something is running: this must have no effect
                let other = *c.rng.pick(&SENDABLE);
                let o = random_sendable(other, &mut c.rng);
                tx.load(&o);
                c.count("ignored_loads", 1);
                if tx.buffer() != train {
                    fail!("{ctx}: loading {o:?} while {k:?} is being sent changed the buffer ({f} Hz, tick {t})");
                }
            }
            let got = tx.tick();
            if got != on {
                fail!(
                    "{ctx}: {k:?} at {f} Hz: tick {t} (entry {i} of {l}, {j} of {d} ticks in): carrier {}, expected {}\ntrain: {train:?}",
                    got as u8, on as u8
                );
            }
            if let Some(s) = tx.status() {
                if s != Status::Transmit(on) {
                    fail!("{ctx}: {k:?} at {f} Hz: tick {t} (entry {i} of {l}) reports {s:?}, not {:?}\ntrain: {train:?}", Status::Transmit(on));
                }
            }
            t += 1;
        }
        on = !on;
    }
    for j in 0..extra {
        if tx.tick() {
            fail!("{ctx}: {k:?} at {f} Hz: carrier on {j} ticks after the end of the frame\ntrain: {train:?}");
        }
        if j > 0 {
            if let Some(s) = tx.status() {
                if s != Status::Idle {
                    fail!("{ctx}: {k:?} at {f} Hz: reports {s:?} {j} ticks after the end of the frame\ntrain: {train:?}");
                }
            }
        }
    }
    if tx.buffer() != train {
        fail!("{ctx}: buffer() changed during transmission of {k:?}");
    }
    if tx.other() != 0 {
        fail!("{ctx}: the sender touched the duty cycle or reported an error");
    }
    c.count("ticks", t + extra);
    c.count("transmissions", 1);
    Ok(())
}

fn c11_history(c: &mut Case) -> Res {
    let (f, mk) = match c.rng.below(40) {
        0 => TXS[8],
        1 => TXS[7],
        _ => TXS[c.rng.below(7) as usize],
    };
    let kind = c.rng.below(6);
    let start = match c.rng.below(4) {
        0 => 0,
        1 => c.rng.u32(),
        _ => u32::MAX - c.rng.below(if f <= 100_000 { 9_000 } else { 90_000 }) as u32,
    };
    let mut tx = mk(kind, start);
    let mut prev = 0usize;
    let mut clock = start as u64;
    let mut trace = String::new();
    if c.rng.bool() {
        // idle before anything was loaded
        let n = c.rng.range(1, 300);
        for j in 0..n {
            if tx.tick() {
                fail!("sender kind {kind} at {f} Hz: carrier on at tick {j} though nothing was loaded");
            }
        }
        clock += n;
    }
    for _ in 0..c.rng.range(1, 6) {
        let p = *c.rng.pick(&SENDABLE);
        let k = random_sendable(p, &mut c.rng);
        trace.push_str(p.name());
        trace.push(' ');
        // at least one tick until the sender is idle again
        let extra = match c.rng.below(3) {
            0 => 2,
            1 => c.rng.range(2, 50),
            _ => c.rng.range(50, 3000),
        };
        let ctx = format!("sender kind {kind}, clock from {start}, after [{trace}]");
        if kind >= 3 && c.rng.chance(1, 4) {
            // broken off by a reset
            let p = *c.rng.pick(&SENDABLE);
            let o = random_sendable(p, &mut c.rng);
            tx.load(&o);
            let n = c.rng.below(3000);
            for _ in 0..n {
                tx.tick();
            }
            tx.reset();
            if !tx.buffer().is_empty() {
                fail!("{ctx}: {o:?} is still in the buffer after a reset");
            }
            let m = c.rng.below(100);
            for j in 0..m {
                if tx.tick() {
                    fail!("{ctx}: carrier on {j} ticks after a reset");
                }
            }
            clock += n + m;
            trace.push_str("reset ");
            c.count("resets", 1);
        }
        let during = kind < 3 && c.rng.chance(1, 3);
        play_checked(c, &mut *tx, &k, f, extra, during, &ctx)?;
        let len = tx.buffer().len();
        if len < prev {
            c.count("shorter_after_longer", 1);
        }
        prev = len;
        let total: u64 = tx.buffer().iter().map(|x| *x as u64).sum::<u64>() + extra;
        if kind >= 3 && (clock >> 32) != ((clock + total) >> 32) {
            c.count("clock_wraps", 1);
        }
        clock += total;
        c.distinct(hash64(&[k.w(), f as u64, kind, start as u64, hash_str(&trace)]));
    }
    c.sample(|| format!("kind {kind} at {f} Hz, clock from {start}: [{trace}] played tick by tick as encoded"));
    Ok(())
}

/// The sender without a pin, ticked at any times: no edge is early, none is late by
/// more than the step, none is left out. Loading it again starts the new frame
fn c11_cadence(c: &mut Case) -> Res {
    const F: u32 = 100_000;
    let mut s = PulsedataSender::<200>::new();
    let mut ts = match c.rng.below(3) {
        0 => 0,
        1 => c.rng.u32(),
        _ => u32::MAX - c.rng.below(9_000) as u32,
    };
    let style = c.rng.below(5);
    for n in 0..c.rng.range(1, 4) {
        let p = *c.rng.pick(&SENDABLE);
        let k = random_sendable(p, &mut c.rng);
        with_sendable!(&k, T, cmd => s.load_command::<T, F>(&cmd));
        let mut b = [0u32; 200];
        let l = enc::<F>(&k, &mut b);
        let train = &b[..l];
        if s.buffer() != train {
            fail!("{k:?}: buffer() is {:?}, encoded {train:?}", s.buffer());
        }
        // broken off by the next load?
        let stop = if c.rng.chance(1, 3) { c.rng.below(l as u64) as usize } else { usize::MAX };
        let mut began = ts;
        let mut pos = 0;
        let mut log = vec![];
        let mut idle = 0;
        while idle < 3 {
            let got = s.tick(ts);
            let want = if pos == 0 {
                pos = 1;
                began = ts;
                Status::Transmit(true)
            } else if pos == l {
                idle += 1;
                Status::Idle
            } else {
                if ts.wrapping_sub(began) >= train[pos] {
                    pos += 1;
                    began = ts;
                }
                Status::Transmit(pos % 2 == 1)
            };
            if log.len() < 400 {
                log.push((ts, got));
            }
            c.count("coarse_ticks", 1);
            if got != want {
                fail!("load {n}, {k:?}: tick at {ts}: {got:?}, expected {want:?} ({pos} edges so far, the last at {began})\ntrain {train:?}\nticks {log:?}");
            }
            if pos > stop {
                c.count("restarts", 1);
                break;
            }
            ts = ts.wrapping_add(match style {
                0 => 1,
                1 => c.rng.below(3) as u32,
                2 => c.rng.below(40) as u32,
                3 => *c.rng.pick(&[1u32, 2, 7, 44, 45, 56, 57, 88, 89, 168, 169, 450, 900]),
                _ => {
                    if c.rng.chance(1, 50) {
                        c.rng.u32()
                    } else {
                        // just before, at, just after the due time
                        let d = if pos < l { train[pos] } else { 5 };
                        d.saturating_sub(ts.wrapping_sub(began)).saturating_add(c.rng.below(3) as u32).saturating_sub(1)
                    }
                }
            });
        }
        c.distinct(hash64(&[k.w(), style, ts as u64]));
    }
    Ok(())
}

/// Single transmissions with exactly fitting buffers, all patterns
fn c11_each(c: &mut Case) -> Res {
    let p = SENDABLE[(c.idx % 6) as usize];
    let kind = c.idx / 6 % 6;
    let (f, mk) = TXS[c.rng.below(7) as usize];
    let s = space(p);
    for _ in 0..8 {
        let k = if s > 0 { nth(p, c.rng.below(s)) } else { random_sendable(p, &mut c.rng) };
        let mut tx = mk(kind, c.rng.u32());
        let extra = c.rng.range(150, 400);
        play_checked(c, &mut *tx, &k, f, extra, false, &format!("new sender kind {kind}"))?;
        c.distinct(hash64(&[k.w(), f as u64, kind]));
    }
    Ok(())
}

/// More than 2^16 loads of one sender
fn c11_soak(c: &mut Case) -> Res {
    let kind = c.idx % 6;
    let (f, mk) = TXS[0];
    let mut tx = mk(kind, c.rng.u32());
    for i in 0..66_500 {
        let p = if i % 8 == 0 { *c.rng.pick(&SENDABLE) } else { P::Rc5 };
        let k = random_sendable(p, &mut c.rng);
        let extra = c.rng.range(2, 6);
        let during = kind < 3 && c.rng.chance(1, 20);
        play_checked(c, &mut *tx, &k, f, extra, during, &format!("sender kind {kind}, load number {i}"))?;
    }
    c.count("soak_loads", 66_500);
    c.enumerated(1);
    Ok(())
}

/// Idle for more than 2^32 ticks before, between
fn c11_longidle(c: &mut Case) -> Res {
    let kind = if c.idx % 2 == 0 { 1 } else { 4 };
    let (f, mk) = TXS[4];
    let mut tx = mk(kind, c.rng.u32());
    let p = *c.rng.pick(&SENDABLE);
    let k = random_sendable(p, &mut c.rng);
    play_checked(c, &mut *tx, &k, f, 10, false, "first")?;
    let n = (1u64 << 32) + c.rng.below(100_000);
    for j in 0..n {
        if tx.tick() {
            fail!("sender kind {kind}: carrier on after {j} idle ticks");
        }
    }
    let k = random_sendable(p, &mut c.rng);
    play_checked(c, &mut *tx, &k, f, 10, false, "after 2^32 idle ticks")?;
    c.count("long_idle", 1);
    c.enumerated(1);
    Ok(())
}

// ------------------------------------------------------------------ C12

fn c12() -> Property {
    Property {
        id: "C12",
        rule: "distinct (command, tick frequency) pairs whose encoded pulse train was compared entry by entry with the protocol definition",
        assumptions: &["the protocol definition is the one in spec.rs"],
        required: &["trains", "entries", "wide_commands"],
        workloads: vec![
            Workload { name: "exhaustive", quick: 1600, thorough: 1600, f: c12_exhaustive },
            Workload { name: "wide", quick: 4096 + 1024, thorough: 4096 + 16384, f: c12_wide },
            Workload { name: "patterns", quick: 3_000_000, thorough: 50_000_000, f: c12_patterns },
        ],
    }
}

fn conform(c: &mut Case, k: &K, f: u32, e: Enc) -> Res {
    let fr = frame_of(k);
    let nom = nominal_us(&fr);
    // entries beyond the frame must not be written: poison them
    let mut b = [0xdead_beefu32; 160];
    let n = e(k, &mut b);
    let unit = match k.p {
        P::Rc5 => 889,
        P::Rc6 => 444,
        _ => 0,
    };
    if n != nom.len() + 1 {
        fail!("{k:?} at {f} Hz: {} entries, the protocol definition has {} (with the leading zero)\nbuffer {:?}", n, nom.len() + 1, &b[..n.min(160)]);
    }
    if b[0] != 0 {
        fail!("{k:?} at {f} Hz: first entry {} instead of 0", b[0]);
    }
    for (i, us) in nom.iter().enumerate() {
        let units = if unit == 0 { 1 } else { (us / unit) as i64 };
        let got = b[i + 1] as i64 * 1_000_000;
        let want = *us as i64 * f as i64;
        if (got - want).abs() >= units * 1_000_000 {
            fail!(
                "{k:?} at {f} Hz: {} {} is {} ticks, nominal {us} us = {:.2} ticks\nbuffer {:?}",
                if i % 2 == 0 { "mark" } else { "space" }, i / 2, b[i + 1], want as f64 / 1e6, &b[..n]
            );
        }
    }
    if n % 2 != 0 {
        fail!("{k:?}: the train does not end with a mark");
    }
    c.count("trains", 1);
    c.count("entries", n as u64);
    Ok(())
}

fn c12_exhaustive(c: &mut Case) -> Res {
    let p = SENDABLE[(c.idx % 6) as usize];
    let part = c.idx / 6;
    let parts = 1600 / 6;
    let s = space(p);
    let (a, z) = if s > 0 { (s * part / parts, (s * (part + 1) / parts).min(s)) } else { (0, 250) };
    let nf = if c.tier == Tier::Quick { 6 } else { ENC.len() };
    for v in a..z {
        let k = if s > 0 { nth(p, v) } else { random_sendable(p, &mut c.rng) };
        for i in 0..nf {
            let (f, e) = if c.tier == Tier::Quick { *c.rng.pick(ENC) } else { ENC[i] };
            conform(c, &k, f, e)?;
            c.evals(1);
            if c.tier == Tier::Thorough && s > 0 {
                c.enumerated(1);
            } else {
                c.distinct(hash64(&[k.w(), f as u64]));
            }
        }
    }
    Ok(())
}

fn c12_patterns(c: &mut Case) -> Res {
    let p = SENDABLE[(c.idx % 6) as usize];
    let (f, e) = ENC[(c.idx / 6) as usize % ENC.len()];
    let k = random_sendable(p, &mut c.rng);
    c.distinct(hash64(&[k.w(), f as u64]));
    c.sample(|| format!("{k:?} at {f} Hz: train as the protocol definition says"));
    conform(c, &k, f, e)
}
