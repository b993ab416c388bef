//! C17 workload: run recorded signals through every front end that the enabled
//! features offer and print one digest line per (front end, signal). The driver
//! (bin/c17.py) compares the lines of all feature configurations.
#![allow(dead_code, unused_imports, unused_macros, unused_variables)]

#[cfg(feature = "gen")]
#[path = "../../harness/src/fw.rs"]
mod fw;
#[cfg(feature = "gen")]
#[path = "../../harness/src/gen.rs"]
mod gen;
#[cfg(feature = "gen")]
#[path = "../../harness/src/spec.rs"]
mod spec;

use infrared::receiver::{DecoderBuilder, NoPin, ProtocolDecoder};
use infrared::sender::{ProtocolEncoder, PulsedataSender, Status};
use infrared::{BufferInputReceiver, PeriodicPoll, Receiver};
use std::fmt::Debug;

struct Stream {
    proto: String,
    freq: u32,
    ev: Vec<(u32, bool)>,
}

fn load(path: &str) -> Vec<Stream> {
    let txt = std::fs::read_to_string(path).expect("streams");
    txt.lines()
        .map(|l| {
            let mut it = l.split(' ');
            let proto = it.next().unwrap().to_string();
            let freq = it.next().unwrap().parse().unwrap();
            let ev = it.map(|x| (x[1..].parse().unwrap(), x.starts_with('+'))).collect();
            Stream { proto, freq, ev }
        })
        .collect()
}

#[cfg(feature = "gen")]
fn generate(path: &str, seed: u64, per: u64, max: u64) {
    use spec::*;
    let mut s = String::new();
    for p in ALL {
        for i in 0..per {
            let mut rng = fw::case_rng(seed, "C17", p.name(), i);
            let f = if i % 3 == 0 { 1_000_000 } else if i % 3 == 1 { 40_000 } else { random_freq(p, &mut rng) };
            let w = Wins::new(p, f);
            let n = rng.range(2, max);
            let iv = gen::tokens(p, &w, n, &mut rng, false);
            let lead = gen::short_pause(&w, &mut rng);
            let ev = gen::to_events(p, &w, &iv, lead, true, &mut rng);
            s.push_str(&format!("{} {}", p.name(), f));
            for (d, e) in ev {
                s.push_str(&format!(" {}{}", if e { '+' } else { '-' }, d));
            }
            s.push('\n');
        }
    }
    std::fs::write(path, s).expect("write streams");
}

// ------------------------------------------------------------- what to run

/// The part of the work this process does, and whether it does the short version
/// (interpreted runs): only every n-th signal, fewer polls and ticks.
struct Sel {
    k: usize,
    n: usize,
    lite: bool,
}
static SEL: std::sync::OnceLock<Sel> = std::sync::OnceLock::new();
fn sel() -> &'static Sel {
    SEL.get().unwrap()
}
fn mine(i: usize) -> bool {
    i % sel().n == sel().k
}

// ------------------------------------------------------------- digests

struct Dig {
    h: u64,
    cmds: u64,
    errs: u64,
    last: String,
}
impl Dig {
    fn new() -> Self {
        Dig { h: 0xcbf2_9ce4_8422_2325, cmds: 0, errs: 0, last: String::new() }
    }
    fn put(&mut self, s: &str) {
        for b in s.bytes() {
            self.h = (self.h ^ b as u64).wrapping_mul(0x0000_0100_0000_01B3);
        }
        self.h = (self.h ^ 10).wrapping_mul(0x0000_0100_0000_01B3);
    }
    fn res<C: Debug, E: Debug>(&mut self, i: usize, r: Result<Option<C>, E>) {
        let i = i as u32;
        match r {
            Ok(None) => {}
            Ok(Some(c)) => {
                self.cmds += 1;
                self.last = format!("{c:?}");
                let s = format!("{i} {c:?}");
                self.put(&s);
            }
            Err(e) => {
                self.errs += 1;
                let s = format!("{i} {e:?}");
                self.put(&s);
            }
        }
    }
    fn end(self, label: &str, idx: usize) {
        println!("R {label} {idx} {:016x} {} {} {}", self.h, self.cmds, self.errs, self.last.replace(' ', "_"));
    }
}

// ------------------------------------------------------------- pins

#[cfg(feature = "eh")]
#[derive(Clone, Default)]
struct Pin(std::rc::Rc<std::cell::Cell<bool>>);
#[cfg(feature = "eh")]
impl embedded_hal::digital::v2::InputPin for Pin {
    type Error = ();
    fn is_high(&self) -> Result<bool, ()> {
        Ok(!self.0.get())
    }
    fn is_low(&self) -> Result<bool, ()> {
        Ok(self.0.get())
    }
}

#[cfg(feature = "eh")]
#[derive(Clone, Default)]
struct Pwm(std::rc::Rc<std::cell::Cell<bool>>);
#[cfg(feature = "eh")]
impl embedded_hal::PwmPin for Pwm {
    type Duty = u16;
    fn disable(&mut self) {
        self.0.set(false)
    }
    fn enable(&mut self) {
        self.0.set(true)
    }
    fn get_duty(&self) -> u16 {
        0
    }
    fn get_max_duty(&self) -> u16 {
        100
    }
    fn set_duty(&mut self, _: u16) {}
}

// ------------------------------------------------------------- receivers

#[cfg(feature = "fugit")]
trait AllTimes:
    DecoderBuilder<u32>
    + DecoderBuilder<u64>
    + DecoderBuilder<fugit::TimerInstantU32<1_000_000>>
    + DecoderBuilder<fugit::TimerInstantU64<1_000_000>>
{
}
#[cfg(feature = "fugit")]
impl<T> AllTimes for T where
    T: DecoderBuilder<u32>
        + DecoderBuilder<u64>
        + DecoderBuilder<fugit::TimerInstantU32<1_000_000>>
        + DecoderBuilder<fugit::TimerInstantU64<1_000_000>>
{
}
#[cfg(not(feature = "fugit"))]
trait AllTimes: DecoderBuilder<u32> + DecoderBuilder<u64> {}
#[cfg(not(feature = "fugit"))]
impl<T> AllTimes for T where T: DecoderBuilder<u32> + DecoderBuilder<u64> {}

fn receivers<T: AllTimes>(name: &str, streams: &[Stream])
where
    T::Cmd: Debug,
{
    for (i, s) in streams.iter().enumerate().filter(|(i, s)| s.proto == name && mine(*i)) {
        // event, u32
        let mut d = Dig::new();
        let mut r = Receiver::<T>::new(s.freq);
        for (n, (dt, e)) in s.ev.iter().enumerate() {
            d.res(n, r.event(*dt, *e));
        }
        d.end(&format!("{name}/event32"), i);

        // instants, u64
        let mut d = Dig::new();
        let mut r = Receiver::<T, NoPin, u64>::new(s.freq);
        let mut t = 0u64;
        for (n, (dt, e)) in s.ev.iter().enumerate() {
            t += *dt as u64;
            d.res(n, r.event_instant(t, *e));
        }
        d.end(&format!("{name}/instant64"), i);

        // instants, u64, with pauses beyond 32 bits that look like a shorter
        // one when cut off
        let mut d = Dig::new();
        let mut r = Receiver::<T, NoPin, u64>::new(s.freq);
        let mut t = u64::from(u32::MAX) - 5_000;
        for (n, (dt, e)) in s.ev.iter().enumerate() {
            t += *dt as u64 + (((n % 7 == 3) as u64) << (32 + n % 9));
            d.res(n, r.event_instant(t, *e));
        }
        d.end(&format!("{name}/wide64"), i);

        // bare decoder
        let mut d = Dig::new();
        let mut r = <T as DecoderBuilder<u32>>::build(s.freq);
        for (n, (dt, e)) in s.ev.iter().enumerate() {
            d.res(n, r.event_total(*e, *dt));
        }
        d.end(&format!("{name}/total32"), i);

        // buffer
        let mut d = Dig::new();
        let buf: Vec<u32> = s.ev.iter().map(|e| e.0).collect();
        let mut r: BufferInputReceiver<T> = BufferInputReceiver::with_frequenzy(s.freq);
        for (n, c) in r.iter(&buf).enumerate() {
            d.res(n, Ok::<_, ()>(Some(c)));
        }
        d.end(&format!("{name}/buffer"), i);

        let ticks: u64 = s.ev.iter().map(|e| e.0 as u64).sum();
        if ticks < if sel().lite { 6_000 } else { 400_000 } {
            let mut d = Dig::new();
            let mut r: PeriodicPoll<T> = PeriodicPoll::new(s.freq);
            let mut lev = false;
            for (n, (dt, e)) in s.ev.iter().enumerate() {
                for _ in 1..*dt {
                    d.res(usize::MAX, r.poll(lev));
                }
                lev = *e;
                d.res(n, r.poll(lev));
            }
            d.end(&format!("{name}/poll"), i);
            #[cfg(feature = "eh")]
            {
                let mut d = Dig::new();
                let pin = Pin::default();
                let mut r = PeriodicPoll::<T, Pin>::with_pin(s.freq, pin.clone());
                for (n, (dt, e)) in s.ev.iter().enumerate() {
                    for _ in 1..*dt {
                        d.res(usize::MAX, r.poll());
                    }
                    pin.0.set(*e);
                    d.res(n, r.poll());
                }
                d.end(&format!("{name}/pollpin"), i);
            }
        }
        #[cfg(feature = "eh")]
        {
            let mut d = Dig::new();
            let pin = Pin::default();
            let mut r = Receiver::<T, Pin>::with_pin(s.freq, pin.clone());
            for (n, (dt, e)) in s.ev.iter().enumerate() {
                pin.0.set(*e);
                d.res(n, r.event(*dt));
            }
            d.end(&format!("{name}/pin32"), i);
        }
        if s.freq == 1_000_000 {
            #[cfg(feature = "fugit")]
            {
                type I32 = fugit::TimerInstantU32<1_000_000>;
                type I64 = fugit::TimerInstantU64<1_000_000>;
                let mut d = Dig::new();
                let mut r = Receiver::<T, NoPin, I32>::new(s.freq);
                let mut t = 0u32;
                for (n, (dt, e)) in s.ev.iter().enumerate() {
                    t = t.wrapping_add(*dt);
                    d.res(n, r.event_instant(I32::from_ticks(t), *e));
                }
                d.end(&format!("{name}/fugit32"), i);
                let mut d = Dig::new();
                let mut r = Receiver::<T, NoPin, I64>::new(s.freq);
                for (n, (dt, e)) in s.ev.iter().enumerate() {
                    d.res(n, r.event(fugit::TimerDurationU64::<1_000_000>::from_ticks(*dt as u64), *e));
                }
                d.end(&format!("{name}/fugit64"), i);
                #[cfg(feature = "embedded")]
                {
                    let pin = Pin::default();
                    let mut d = Dig::new();
                    let mut r = Receiver::<T, Pin, I32>::with_fugit(pin.clone());
                    for (n, (dt, e)) in s.ev.iter().enumerate() {
                        pin.0.set(*e);
                        d.res(n, r.event(fugit::TimerDurationU32::<1_000_000>::from_ticks(*dt)));
                    }
                    d.end(&format!("{name}/withfugit"), i);
                }
            }
        }
    }
}

/// Receivers made with the builder
macro_rules! built {
    ($name:expr, $streams:expr, $m:ident) => {
        for (i, s) in $streams.iter().enumerate().filter(|(i, s)| s.proto == $name && mine(*i)) {
            let mut d = Dig::new();
            let mut r = infrared::receiver().$m().frequency(s.freq).build();
            for (n, (dt, e)) in s.ev.iter().enumerate() {
                d.res(n, r.event(*dt, *e));
            }
            d.end(&format!("{}/builder", $name), i);
        }
    };
}

/// Remote control on top
#[cfg(feature = "remotes")]
macro_rules! remote {
    ($name:expr, $streams:expr, $m:ident, $rc:ty) => {
        for (i, s) in $streams.iter().enumerate().filter(|(i, s)| s.proto == $name && mine(*i)) {
            let mut d = Dig::new();
            let mut r = infrared::receiver().$m().frequency(s.freq).remotecontrol(<$rc>::default()).build();
            for (n, (dt, e)) in s.ev.iter().enumerate() {
                d.res(
                    n,
                    r.event(*dt, *e).map(|b| {
                        b.map(|b| (b.action(), format!("{:?}", b.command()), b.is_repeat()))
                    }),
                );
            }
            d.end(&format!("{}/remote", $name), i);
        }
    };
}

/// What every command of a remote's protocol and every button maps to
#[cfg(feature = "remotes")]
fn model<R: infrared::remotecontrol::RemoteControlModel>(name: &str, mk: impl Fn(u8, u8) -> R::Cmd)
where
    R::Cmd: Debug,
{
    if !mine(name.len()) {
        return;
    }
    let mut d = Dig::new();
    for a in 0..=255u8 {
        if sel().lite && a as u32 % 32 != R::ADDRESS % 32 {
            continue;
        }
        for c in 0..=255u8 {
            if let Some(act) = R::decode(&mk(a, c)) {
                d.res(a as usize, Ok::<_, ()>(Some((c, act))));
                d.res(a as usize, Ok::<_, ()>(R::encode(&act)));
            }
        }
    }
    d.end(&format!("{name}/model"), 0);
}

macro_rules! multi {
    ($name:expr, $streams:expr, $t:ty) => {
        for (i, s) in $streams.iter().enumerate().filter(|(i, s)| s.proto == $name && mine(*i)) {
            let mut d = Dig::new();
            let mut r = infrared::receiver::MultiReceiver::<2, ($t, $t), NoPin>::new(s.freq, NoPin);
            for (n, (dt, e)) in s.ev.iter().enumerate() {
                for c in r.event_generic_iter(*dt, *e) {
                    d.res(n, Ok::<_, ()>(Some(c)));
                }
            }
            d.end(&format!("{}/multi", $name), i);
        }
    };
}

// ------------------------------------------------------------- values

fn lcg(x: &mut u64) -> u64 {
    *x = x.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407);
    (*x >> 33) ^ (*x << 31)
}

/// Words, partly made to look valid
fn words(i: usize) -> Vec<u32> {
    let mut x = 0x1234_5678_9abc_def0u64 ^ ((i as u64) << 48);
    (0..if sel().lite { 7 } else { 400 })
        .map(|n| {
            let r = lcg(&mut x) as u32;
            let [a, b, c, _] = r.to_le_bytes();
            match n % 5 {
                0 => r,
                1 => u32::from_le_bytes([a, !a, c, !c]),
                2 => u32::from_le_bytes([a, b, c, !c]),
                3 => u32::from_le_bytes([a, a, c, !c]),
                _ => (r & 0xFFFF_F800) | 0x43F,
            }
        })
        .collect()
}

#[cfg(feature = "nec")]
fn nec_values<C: infrared::protocol::nec::NecCommandVariant + Debug>(name: &str) {
    for i in (0..8).filter(|i| mine(*i)) {
        let mut d = Dig::new();
        for w in words(i) {
            let v = C::validate(w);
            d.put(&format!("{w:x} {v}"));
            for rep in [false, true] {
                let c = C::unpack(w, rep);
                d.res(i, Ok::<_, ()>(c.as_ref().map(|c| format!("{c:?}"))));
                if let Some(c) = c {
                    d.put(&format!("{:x}", c.pack()));
                }
            }
        }
        d.end(&format!("{name}/values"), i);
    }
}

/// Commands from numbers and what they say about themselves
fn created<C: infrared::cmd::AddressCommand + Debug>(name: &str) {
    for i in (0..8).filter(|i| mine(*i)) {
        let mut d = Dig::new();
        for w in words(i) {
            for (a, c) in [(w & 255, w >> 24), (w >> 16, w & 255), (w & 31, w >> 26), (w, w >> 7), (w >> 21, w & 2047)] {
                let cmd = C::create(a, c);
                if let Some(c) = &cmd {
                    d.put(&format!("{} {} {} {:?} {}", c.address(), c.command(), c.is_repeat(), C::ID, c.raw()));
                }
                d.res(i, Ok::<_, ()>(cmd.map(|c| format!("{c:?}"))));
            }
        }
        d.end(&format!("{name}/created"), i);
    }
}

fn generic<T: Into<infrared::cmd::AnyCommand>>(name: &str, mk: impl Fn(u32) -> Option<T>) {
    for i in (0..8).filter(|i| mine(*i)) {
        let mut d = Dig::new();
        for w in words(i) {
            d.res(i, Ok::<_, ()>(mk(w).map(|c| {
                let a: infrared::cmd::AnyCommand = c.into();
                format!("{a:?}")
            })));
        }
        d.end(&format!("{name}/generic"), i);
    }
}

// ------------------------------------------------------------- senders

fn sender<T, const F: u32>(name: &str, cmds: &[T::Cmd])
where
    T: ProtocolEncoder<F>,
{
    for (i, c) in cmds.iter().enumerate().filter(|(i, _)| mine(*i)) {
        let max = if sel().lite { 500 } else { 20_000 };
        let mut d = Dig::new();
        let mut buf = [0u32; 96];
        let n = T::encode(c, &mut buf);
        let s = format!("{:?}", &buf[..n]);
        d.put(&s);
        d.cmds += 1;
        d.end(&format!("{name}/encode{F}"), i);

        let mut d = Dig::new();
        let mut s = PulsedataSender::<96>::new();
        s.load_command::<T, F>(c);
        for t in 0..(F / 8).min(max) {
            d.put(match s.tick(t) {
                Status::Transmit(true) => "1",
                Status::Transmit(false) => "0",
                Status::Idle => "i",
                Status::Error => "e",
            });
        }
        d.cmds += 1;
        d.end(&format!("{name}/ticks{F}"), i);
        #[cfg(feature = "eh")]
        {
            let mut d = Dig::new();
            let pwm = Pwm::default();
            let mut s = infrared::sender::Sender::<Pwm, F, 96>::new(pwm.clone());
            s.load::<T>(c);
            for _ in 0..(F / 8).min(max) {
                s.tick();
                d.put(if pwm.0.get() { "1" } else { "0" });
            }
            d.cmds += 1;
            d.end(&format!("{name}/pwm{F}"), i);
        }
    }
}

macro_rules! send {
    ($name:expr, $t:ty, $cmds:expr) => {{
        let cmds = $cmds;
        sender::<$t, 20_000>($name, &cmds);
        sender::<$t, 38_000>($name, &cmds);
        sender::<$t, 1_000_000>($name, &cmds);
    }};
}

#[cfg(feature = "log")]
struct L;
#[cfg(feature = "log")]
impl log::Log for L {
    fn enabled(&self, _: &log::Metadata) -> bool {
        true
    }
    fn log(&self, r: &log::Record) {
        std::hint::black_box(format!("{}", r.args()));
    }
    fn flush(&self) {}
}

#[cfg(feature = "defmt")]
mod dl {
    #[defmt::global_logger]
    struct G;
    unsafe impl defmt::Logger for G {
        fn acquire() {}
        unsafe fn flush() {}
        unsafe fn release() {}
        unsafe fn write(_b: &[u8]) {}
    }
    #[no_mangle]
    fn _defmt_timestamp(_: defmt::Formatter<'_>) {}
    #[no_mangle]
    fn _defmt_panic() -> ! {
        panic!()
    }
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    #[cfg(feature = "gen")]
    if args[1] == "gen" {
        generate(&args[2], args[3].parse().unwrap(), args[4].parse().unwrap(), args.get(5).map_or(10, |a| a.parse().unwrap()));
        return;
    }
    #[cfg(feature = "log")]
    if args.get(2).map(|a| a == "nolog") != Some(true) {
        log::set_logger(&L).unwrap();
        log::set_max_level(log::LevelFilter::Trace);
    }
    let mut part = Sel { k: 0, n: 1, lite: args.iter().any(|a| a == "lite") };
    for a in &args {
        if let Some((k, n)) = a.strip_prefix("part=").and_then(|p| p.split_once('/')) {
            part.k = k.parse().unwrap();
            part.n = n.parse().unwrap();
        }
    }
    let _ = SEL.set(part);
    let st = load(&args[1]);
    #[cfg(feature = "nec")]
    {
        use infrared::protocol::nec::*;
        use infrared::protocol::*;
        receivers::<Nec>("nec", &st);
        receivers::<Nec16>("nec16", &st);
        receivers::<SamsungNec>("samsung", &st);
        receivers::<AppleNec>("apple", &st);
        receivers::<NecDebug>("necdebug", &st);
        built!("nec", st, nec);
        built!("nec16", st, nec16);
        built!("samsung", st, nec_samsung);
        built!("apple", st, nec_apple);
        multi!("nec", st, Nec);
        multi!("samsung", st, SamsungNec);
        multi!("apple", st, AppleNec);
        #[cfg(feature = "remotes")]
        {
            use infrared::remotecontrol::nec::*;
            remote!("nec", st, nec, SpecialForMp3);
            remote!("samsung", st, nec_samsung, SamsungTv);
            remote!("apple", st, nec_apple, Apple2009);
            model::<SpecialForMp3>("nec", |addr, cmd| NecCommand { addr, cmd, repeat: false });
            model::<SamsungTv>("samsung", |addr, cmd| SamsungNecCommand { addr, cmd, repeat: false });
            model::<Apple2009>("apple", |command_page, command| AppleNecCommand { command_page, command, device_id: 3, repeat: false });
        }
        nec_values::<NecCommand>("nec");
        nec_values::<Nec16Command>("nec16");
        nec_values::<SamsungNecCommand>("samsung");
        nec_values::<AppleNecCommand>("apple");
        nec_values::<NecDebugCmd>("necdebug");
        created::<NecCommand>("nec");
        created::<SamsungNecCommand>("samsung");
        created::<AppleNecCommand>("apple");
        generic("nec", |w| NecCommand::unpack(w, false));
        generic("samsung", |w| SamsungNecCommand::unpack(w, true));
        generic("apple", |w| AppleNecCommand::unpack(w, false));
        let v = [(0u8, 0u8), (255, 255), (7, 2), (0x55, 0xaa), (1, 128)];
        send!("nec", Nec, v.map(|(addr, cmd)| NecCommand { addr, cmd, repeat: false }));
        send!("samsung", SamsungNec, v.map(|(addr, cmd)| SamsungNecCommand { addr, cmd, repeat: false }));
        send!("nec16", Nec16, v.map(|(addr, cmd)| Nec16Command { addr: (addr as u16).wrapping_mul(259), cmd, repeat: false }));
        send!("necdebug", NecDebug, v.map(|(addr, cmd)| NecDebugCmd { bits: (addr as u32).wrapping_mul(16843009) ^ cmd as u32 * 65793 }));
    }
    #[cfg(feature = "rc5")]
    {
        use infrared::protocol::rc5::*;
        use infrared::protocol::Rc5;
        receivers::<Rc5>("rc5", &st);
        built!("rc5", st, rc5);
        multi!("rc5", st, Rc5);
        #[cfg(feature = "remotes")]
        {
            remote!("rc5", st, rc5, infrared::remotecontrol::rc5::CdPlayer);
            model::<infrared::remotecontrol::rc5::CdPlayer>("rc5", |a, c| Rc5Command::new(a, c, false));
        }
        created::<Rc5Command>("rc5");
        generic("rc5", |w| Some(Rc5Command::unpack(w as u16)));
        send!("rc5", Rc5, [(0u8, 0u8, false), (31, 63, true), (20, 9, false), (10, 21, true), (1, 32, false)].map(|(a, c, t)| Rc5Command::new(a, c, t)));
    }
    #[cfg(feature = "rc6")]
    {
        use infrared::protocol::rc6::*;
        use infrared::protocol::Rc6;
        receivers::<Rc6>("rc6", &st);
        built!("rc6", st, rc6);
        multi!("rc6", st, Rc6);
        created::<Rc6Command>("rc6");
        generic("rc6", |w| Some(Rc6Command::from_bits(w as u16, w >> 31 != 0)));
        send!("rc6", Rc6, [(0u8, 0u8, false), (255, 255, true), (70, 2, false), (0x55, 0xaa, true), (1, 128, false)].map(|(addr, cmd, toggle)| Rc6Command { addr, cmd, toggle }));
    }
    #[cfg(feature = "sbp")]
    {
        use infrared::protocol::Sbp;
        receivers::<Sbp>("sbp", &st);
        built!("sbp", st, samsung_bluray);
        multi!("sbp", st, Sbp);
        created::<infrared::protocol::sbp::SbpCommand>("sbp");
        generic("sbp", |w| Some(infrared::protocol::sbp::SbpCommand::unpack(w as u16, w)));
        #[cfg(feature = "remotes")]
        {
            use infrared::protocol::sbp::SbpCommand;
            use infrared::remotecontrol::sbp::SamsungBluRayPlayer;
            remote!("sbp", st, samsung_bluray, SamsungBluRayPlayer);
            model::<SamsungBluRayPlayer>("sbp", |a, command| SbpCommand { address: a as u16, command, valid: true });
        }
    }
    #[cfg(feature = "denon")]
    {
        use infrared::protocol::Denon;
        receivers::<Denon>("denon", &st);
        built!("denon", st, denon);
        multi!("denon", st, Denon);
        generic("denon", |w| Some(infrared::protocol::denon::DenonCommand { bits: w as u64 * 65_537 }));
    }
    println!("END");
}
