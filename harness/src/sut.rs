//! Adapters around the library's public API.

use crate::spec::{Ev, K, P};
use embedded_hal::digital::v2::InputPin;
use fugit::{TimerInstantU32, TimerInstantU64};
use infrared::protocol::denon::DenonCommand;
use infrared::protocol::nec::*;
use infrared::protocol::rc5::Rc5Command;
use infrared::protocol::rc6::Rc6Command;
use infrared::protocol::sbp::SbpCommand;
use infrared::receiver::time::InfraMonotonic;
use infrared::receiver::{DecoderBuilder, DecodingError, Error, NoPin, ProtocolDecoder, State};
use infrared::{PeriodicPoll, Receiver};
use std::cell::Cell;
use std::rc::Rc;

pub trait Canon {
    fn canon(&self) -> K;
}

impl Canon for NecCommand {
    fn canon(&self) -> K {
        K { p: P::Nec, addr: self.addr as u32, cmd: self.cmd as u32, aux: 0, rep: self.repeat }
    }
}
impl Canon for Nec16Command {
    fn canon(&self) -> K {
        K { p: P::Nec16, addr: self.addr as u32, cmd: self.cmd as u32, aux: 0, rep: self.repeat }
    }
}
impl Canon for SamsungNecCommand {
    fn canon(&self) -> K {
        K { p: P::Sam, addr: self.addr as u32, cmd: self.cmd as u32, aux: 0, rep: self.repeat }
    }
}
impl Canon for AppleNecCommand {
    fn canon(&self) -> K {
        K {
            p: P::Apple,
            addr: self.device_id as u32,
            cmd: self.command as u32,
            aux: self.command_page as u64,
            rep: self.repeat,
        }
    }
}
impl Canon for NecDebugCmd {
    fn canon(&self) -> K {
        K { p: P::Dbg, addr: 0, cmd: 0, aux: self.bits as u64, rep: false }
    }
}
impl Canon for Rc5Command {
    fn canon(&self) -> K {
        K { p: P::Rc5, addr: self.addr as u32, cmd: self.cmd as u32, aux: self.start as u64, rep: self.toggle }
    }
}
impl Canon for Rc6Command {
    fn canon(&self) -> K {
        K { p: P::Rc6, addr: self.addr as u32, cmd: self.cmd as u32, aux: 0, rep: self.toggle }
    }
}
impl Canon for SbpCommand {
    fn canon(&self) -> K {
        K { p: P::Sbp, addr: self.address as u32, cmd: self.command as u32, aux: self.valid as u64, rep: false }
    }
}
impl Canon for DenonCommand {
    fn canon(&self) -> K {
        K { p: P::Denon, addr: 0, cmd: 0, aux: self.bits, rep: false }
    }
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Out {
    None,
    Cmd(K),
    Err(DecodingError),
    /// pin error with its number
    Pin(u32),
}

pub fn out<C: Canon>(r: Result<Option<C>, DecodingError>) -> Out {
    match r {
        Ok(None) => Out::None,
        Ok(Some(c)) => Out::Cmd(c.canon()),
        Err(e) => Out::Err(e),
    }
}

pub fn out_pin<C: Canon>(r: Result<Option<C>, Error<u32>>) -> Out {
    match r {
        Ok(None) => Out::None,
        Ok(Some(c)) => Out::Cmd(c.canon()),
        Err(Error::Address) => Out::Err(DecodingError::Address),
        Err(Error::Data) => Out::Err(DecodingError::Data),
        Err(Error::Validation) => Out::Err(DecodingError::Validation),
        Err(Error::RemoteControlError) => Out::Err(DecodingError::RemoteControlError),
        Err(Error::Hal(n)) => Out::Pin(n),
    }
}

// ------------------------------------------------------------- time types

pub trait Mono: InfraMonotonic {
    const NAME: &'static str;
    fn dur(t: u64) -> Self::Duration;
    fn inst(t: u64) -> Self::Instant;
    fn ticks(d: Self::Duration) -> u64;
}
impl Mono for u32 {
    const NAME: &'static str = "u32";
    fn dur(t: u64) -> u32 {
        t as u32
    }
    fn inst(t: u64) -> u32 {
        t as u32
    }
    fn ticks(d: u32) -> u64 {
        d as u64
    }
}
impl Mono for u64 {
    const NAME: &'static str = "u64";
    fn dur(t: u64) -> u64 {
        t
    }
    fn inst(t: u64) -> u64 {
        t
    }
    fn ticks(d: u64) -> u64 {
        d
    }
}
impl<const N: u32, const D: u32> Mono for fugit::Instant<u32, N, D> {
    const NAME: &'static str = "fugit32";
    fn dur(t: u64) -> Self::Duration {
        fugit::Duration::<u32, N, D>::from_ticks(t as u32)
    }
    fn inst(t: u64) -> Self::Instant {
        fugit::Instant::<u32, N, D>::from_ticks(t as u32)
    }
    fn ticks(d: Self::Duration) -> u64 {
        d.ticks() as u64
    }
}
impl<const N: u32, const D: u32> Mono for fugit::Instant<u64, N, D> {
    const NAME: &'static str = "fugit64";
    fn dur(t: u64) -> Self::Duration {
        fugit::Duration::<u64, N, D>::from_ticks(t)
    }
    fn inst(t: u64) -> Self::Instant {
        fugit::Instant::<u64, N, D>::from_ticks(t)
    }
    fn ticks(d: Self::Duration) -> u64 {
        d.ticks()
    }
}

// ------------------------------------------------------------- pin

/// Pin whose level and failures are controlled by the test
#[derive(Clone, Default)]
pub struct Pin {
    /// true = mark (line low)
    pub mark: Rc<Cell<bool>>,
    pub fail: Rc<Cell<Option<u32>>>,
    pub reads: Rc<Cell<u64>>,
    pub id: u32,
}

impl InputPin for Pin {
    type Error = u32;
    fn is_high(&self) -> Result<bool, u32> {
        self.is_low().map(|l| !l)
    }
    fn is_low(&self) -> Result<bool, u32> {
        self.reads.set(self.reads.get() + 1);
        match self.fail.get() {
            Some(n) => Err(n),
            None => Ok(self.mark.get()),
        }
    }
}

// ------------------------------------------------------------- front ends

/// A receiver front end fed with edges
pub trait Rx {
    fn ev(&mut self, dt: u64, edge: bool) -> Out;
}

pub struct ByEvent<Pr: DecoderBuilder<M>, M: Mono>(pub Receiver<Pr, NoPin, M>);
impl<Pr: DecoderBuilder<M>, M: Mono> Rx for ByEvent<Pr, M>
where
    Pr::Cmd: Canon,
{
    fn ev(&mut self, dt: u64, edge: bool) -> Out {
        out(self.0.event(M::dur(dt), edge))
    }
}

pub struct ByEdge<Pr: DecoderBuilder<M>, M: Mono>(pub Receiver<Pr, NoPin, M>);
impl<Pr: DecoderBuilder<M>, M: Mono> Rx for ByEdge<Pr, M>
where
    Pr::Cmd: Canon,
{
    fn ev(&mut self, dt: u64, edge: bool) -> Out {
        out(self.0.event_edge(M::dur(dt), edge))
    }
}

pub struct ByInstant<Pr: DecoderBuilder<M>, M: Mono>(pub Receiver<Pr, NoPin, M>, pub u64);
impl<Pr: DecoderBuilder<M>, M: Mono> Rx for ByInstant<Pr, M>
where
    Pr::Cmd: Canon,
{
    fn ev(&mut self, dt: u64, edge: bool) -> Out {
        self.1 = self.1.wrapping_add(dt);
        out(self.0.event_instant(M::inst(self.1), edge))
    }
}

pub struct ByPin<Pr: DecoderBuilder<M>, M: Mono>(pub Receiver<Pr, Pin, M>, pub Pin);
impl<Pr: DecoderBuilder<M>, M: Mono> Rx for ByPin<Pr, M>
where
    Pr::Cmd: Canon,
{
    fn ev(&mut self, dt: u64, edge: bool) -> Out {
        self.1.mark.set(edge);
        out_pin(self.0.event(M::dur(dt)))
    }
}

pub struct ByPinInstant<Pr: DecoderBuilder<M>, M: Mono>(pub Receiver<Pr, Pin, M>, pub Pin, pub u64);
impl<Pr: DecoderBuilder<M>, M: Mono> Rx for ByPinInstant<Pr, M>
where
    Pr::Cmd: Canon,
{
    fn ev(&mut self, dt: u64, edge: bool) -> Out {
        self.1.mark.set(edge);
        self.2 = self.2.wrapping_add(dt);
        out_pin(self.0.event_instant(M::inst(self.2)))
    }
}

/// Bare decoder, driven through `event_total`
pub struct ByTotal<Pr: DecoderBuilder<M>, M: Mono>(pub Pr::Decoder);
impl<Pr: DecoderBuilder<M>, M: Mono> Rx for ByTotal<Pr, M>
where
    Pr::Cmd: Canon,
{
    fn ev(&mut self, dt: u64, edge: bool) -> Out {
        out(self.0.event_total(edge, M::dur(dt)))
    }
}

/// Bare decoder, driven by hand
pub struct ByHand<Pr: DecoderBuilder<M>, M: Mono>(pub Pr::Decoder);
impl<Pr: DecoderBuilder<M>, M: Mono> Rx for ByHand<Pr, M>
where
    Pr::Cmd: Canon,
{
    fn ev(&mut self, dt: u64, edge: bool) -> Out {
        match self.0.event(edge, M::dur(dt)) {
            State::Idle | State::Receiving => Out::None,
            State::Done => {
                let c = self.0.command();
                self.0.reset();
                c.map(|c| Out::Cmd(c.canon())).unwrap_or(Out::None)
            }
            State::Error(e) => {
                self.0.reset();
                Out::Err(e)
            }
        }
    }
}

/// Polled: the level before the edge is polled dt - 1 times, then the new one once.
/// Needs alternating edges and dt >= 1
pub struct ByPoll<Pr: DecoderBuilder<u32>>(pub PeriodicPoll<Pr>, pub bool);
impl<Pr: DecoderBuilder<u32>> Rx for ByPoll<Pr>
where
    Pr::Cmd: Canon,
{
    fn ev(&mut self, dt: u64, edge: bool) -> Out {
        for _ in 1..dt {
            let o = out(self.0.poll(self.1));
            if o != Out::None {
                // a result without an edge
                return Out::Pin(999);
            }
        }
        self.1 = edge;
        out(self.0.poll(edge))
    }
}

pub struct ByPollPin<Pr: DecoderBuilder<u32>>(pub PeriodicPoll<Pr, Pin>, pub Pin);
impl<Pr: DecoderBuilder<u32>> Rx for ByPollPin<Pr>
where
    Pr::Cmd: Canon,
{
    fn ev(&mut self, dt: u64, edge: bool) -> Out {
        for _ in 1..dt {
            let o = out_pin(self.0.poll());
            if o != Out::None {
                return Out::Pin(999);
            }
        }
        self.1.mark.set(edge);
        out_pin(self.0.poll())
    }
}

/// Run `$e` with `$T` bound to the library type of protocol `$p`
#[macro_export]
macro_rules! with_proto {
    ($p:expr, $T:ident => $e:expr) => {{
        use $crate::spec::P;
        match $p {
            P::Nec => { type $T = infrared::protocol::Nec; $e }
            P::Nec16 => { type $T = infrared::protocol::Nec16; $e }
            P::Sam => { type $T = infrared::protocol::SamsungNec; $e }
            P::Apple => { type $T = infrared::protocol::AppleNec; $e }
            P::Dbg => { type $T = infrared::protocol::NecDebug; $e }
            P::Rc5 => { type $T = infrared::protocol::Rc5; $e }
            P::Rc6 => { type $T = infrared::protocol::Rc6; $e }
            P::Sbp => { type $T = infrared::protocol::Sbp; $e }
            P::Denon => { type $T = infrared::protocol::Denon; $e }
        }
    }};
}

pub fn rx(p: P, f: u32) -> Box<dyn Rx> {
    with_proto!(p, T => Box::new(ByEvent::<T, u32>(Receiver::new(f))))
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Front {
    Event,
    Edge,
    Instant,
    Pin,
    PinInstant,
    Total,
    Hand,
    Poll,
    PollPin,
    /// 64-bit ticks, by interval and by timestamp
    U64,
    U64Instant,
    /// fugit time by interval (for some rates, otherwise u32)
    Fugit32,
    Fugit64,
}

/// Front ends that take any sequence of edges, with all time types
pub const EVFRONTS: [Front; 11] = [
    Front::Event,
    Front::Edge,
    Front::Instant,
    Front::Pin,
    Front::PinInstant,
    Front::Total,
    Front::Hand,
    Front::U64,
    Front::U64Instant,
    Front::Fugit32,
    Front::Fugit64,
];

pub const FRONTS: [Front; 9] = [
    Front::Event,
    Front::Edge,
    Front::Instant,
    Front::Pin,
    Front::PinInstant,
    Front::Total,
    Front::Hand,
    Front::Poll,
    Front::PollPin,
];

pub fn front(p: P, f: u32, fr: Front) -> Box<dyn Rx> {
    let pin = Pin::default();
    with_proto!(p, T => match fr {
        Front::Event => Box::new(ByEvent::<T, u32>(Receiver::new(f))) as Box<dyn Rx>,
        Front::Edge => Box::new(ByEdge::<T, u32>(Receiver::new(f))),
        Front::Instant => Box::new(ByInstant::<T, u32>(Receiver::new(f), 0)),
        Front::Pin => Box::new(ByPin::<T, u32>(Receiver::with_pin(f, pin.clone()), pin)),
        Front::PinInstant => Box::new(ByPinInstant::<T, u32>(Receiver::with_pin(f, pin.clone()), pin, 0)),
        Front::Total => Box::new(ByTotal::<T, u32>(<T as DecoderBuilder<u32>>::build(f))),
        Front::Hand => Box::new(ByHand::<T, u32>(<T as DecoderBuilder<u32>>::build(f))),
        Front::Poll => Box::new(ByPoll::<T>(PeriodicPoll::new(f), false)),
        Front::PollPin => Box::new(ByPollPin::<T>(PeriodicPoll::with_pin(f, pin.clone()), pin)),
        Front::U64 => Box::new(ByEvent::<T, u64>(Receiver::new(f))),
        Front::U64Instant => Box::new(ByInstant::<T, u64>(Receiver::new(f), 0)),
        Front::Fugit32 => match f {
            40_000 => Box::new(ByEvent::<T, TimerInstantU32<40_000>>(Receiver::new(f))),
            100_000 => Box::new(ByEvent::<T, TimerInstantU32<100_000>>(Receiver::new(f))),
            1_000_000 => Box::new(ByEvent::<T, TimerInstantU32<1_000_000>>(Receiver::new(f))),
            48_000_000 => Box::new(ByEvent::<T, TimerInstantU32<48_000_000>>(Receiver::new(f))),
            _ => Box::new(ByEvent::<T, u32>(Receiver::new(f))),
        },
        Front::Fugit64 => match f {
            40_000 => Box::new(ByEvent::<T, TimerInstantU64<40_000>>(Receiver::new(f))),
            100_000 => Box::new(ByEvent::<T, TimerInstantU64<100_000>>(Receiver::new(f))),
            1_000_000 => Box::new(ByEvent::<T, TimerInstantU64<1_000_000>>(Receiver::new(f))),
            48_000_000 => Box::new(ByEvent::<T, TimerInstantU64<48_000_000>>(Receiver::new(f))),
            _ => Box::new(ByEvent::<T, u32>(Receiver::new(f))),
        },
    })
}

/// Any front end; half of the time the plain event receiver
pub fn rx_any(p: P, f: u32, c: &mut crate::fw::Case) -> Box<dyn Rx> {
    if c.rng.bool() {
        return rx(p, f);
    }
    let k = *c.rng.pick(&EVFRONTS);
    c.note = format!("[through {k:?}]");
    front(p, f, k)
}

pub fn feed(r: &mut dyn Rx, ev: &[Ev]) -> Vec<Out> {
    ev.iter().map(|(d, e)| r.ev(*d, *e)).collect()
}

pub fn commands(o: &[Out]) -> Vec<K> {
    o.iter().filter_map(|o| if let Out::Cmd(k) = o { Some(*k) } else { None }).collect()
}

/// Compact event list for witnesses
pub fn show(ev: &[Ev]) -> String {
    let v: Vec<String> = ev.iter().map(|(d, e)| format!("{}{}", if *e { '+' } else { '-' }, d)).collect();
    v.join(" ")
}
