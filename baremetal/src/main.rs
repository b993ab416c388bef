//! C24 workload for machines without an operating system: recorded signals (built
//! in) through receivers and senders, without the standard library and without a
//! heap. The same program runs natively for comparison.
#![cfg_attr(target_os = "none", no_std)]
#![cfg_attr(target_os = "none", no_main)]

use core::cell::Cell;
use core::fmt::{self, Debug, Write};
use infrared::cmd::AnyCommand;
use infrared::protocol::nec::*;
use infrared::protocol::rc5::Rc5Command;
use infrared::protocol::rc6::Rc6Command;
use infrared::protocol::*;
use infrared::receiver::{DecoderBuilder, MultiReceiver, NoPin, ProtocolDecoder};
use infrared::sender::{ProtocolEncoder, PulsedataSender, Sender, Status};
use infrared::{BufferInputReceiver, PeriodicPoll, Receiver};

/// "name freq +12 -34 ...\n", made by the driver
static STREAMS: &str = include_str!(env!("C24_STREAMS"));

#[cfg(target_os = "none")]
mod os {
    extern "Rust" {
        fn miri_write_to_stdout(b: &[u8]);
    }
    pub fn out(s: &str) {
        unsafe { miri_write_to_stdout(s.as_bytes()) }
    }
    struct O;
    impl core::fmt::Write for O {
        fn write_str(&mut self, s: &str) -> core::fmt::Result {
            out(s);
            Ok(())
        }
    }
    #[panic_handler]
    fn panic(i: &core::panic::PanicInfo) -> ! {
        use core::fmt::Write;
        let _ = write!(O, "\nPANIC {i}\n");
        // makes the interpreter stop with an error
        unsafe { core::hint::unreachable_unchecked() }
    }
    #[no_mangle]
    fn miri_start(_: isize, _: *const *const u8) -> isize {
        super::work();
        0
    }
}
#[cfg(not(target_os = "none"))]
mod os {
    pub fn out(s: &str) {
        print!("{s}")
    }
}
#[cfg(not(target_os = "none"))]
fn main() {
    work()
}

struct Out;
impl Write for Out {
    fn write_str(&mut self, s: &str) -> fmt::Result {
        os::out(s);
        Ok(())
    }
}

struct Dig {
    h: u64,
    cmds: u32,
    errs: u32,
}
impl Write for Dig {
    fn write_str(&mut self, s: &str) -> fmt::Result {
        for b in s.bytes() {
            self.h = (self.h ^ b as u64).wrapping_mul(0x0000_0100_0000_01B3);
        }
        Ok(())
    }
}
impl Dig {
    fn new() -> Self {
        Dig { h: 0xcbf2_9ce4_8422_2325, cmds: 0, errs: 0 }
    }
    fn res<C: Debug, E: Debug>(&mut self, i: u32, r: Result<Option<C>, E>) {
        match r {
            Ok(None) => {}
            Ok(Some(c)) => {
                self.cmds += 1;
                let _ = write!(self, "{i} {c:?}\n");
            }
            Err(e) => {
                self.errs += 1;
                let _ = write!(self, "{i} {e:?}\n");
            }
        }
    }
    fn end(self, name: &str, kind: &str, idx: u32) {
        let _ = write!(Out, "R {name}/bare-{kind} {idx} {:016x} {} {} -\n", self.h, self.cmds, self.errs);
    }
}

#[derive(Clone)]
struct Pin<'a>(&'a Cell<bool>);
impl embedded_hal::digital::v2::InputPin for Pin<'_> {
    type Error = ();
    fn is_high(&self) -> Result<bool, ()> {
        Ok(!self.0.get())
    }
    fn is_low(&self) -> Result<bool, ()> {
        Ok(self.0.get())
    }
}
struct Pwm<'a>(&'a Cell<bool>);
impl embedded_hal::PwmPin for Pwm<'_> {
    type Duty = u16;
    fn disable(&mut self) {
        self.0.set(false)
    }
    fn enable(&mut self) {
        self.0.set(true)
    }
    fn get_duty(&self) -> u16 {
        0
    }
    fn get_max_duty(&self) -> u16 {
        100
    }
    fn set_duty(&mut self, _: u16) {}
}

fn events(line: &str) -> impl Iterator<Item = (u32, bool)> + '_ {
    line.split(' ').skip(2).map(|x| (x[1..].parse().unwrap_or(0), x.starts_with('+')))
}

type F32 = fugit::TimerInstantU32<1_000_000>;

fn receivers<T>(name: &str)
where
    T: DecoderBuilder<u32> + DecoderBuilder<u64> + DecoderBuilder<F32>,
    T::Cmd: Debug,
{
    for (i, line) in STREAMS.lines().enumerate() {
        let i = i as u32;
        let mut it = line.split(' ');
        if it.next() != Some(name) {
            continue;
        }
        let freq: u32 = it.next().and_then(|f| f.parse().ok()).unwrap_or(1);

        let mut d = Dig::new();
        let mut r = Receiver::<T>::new(freq);
        for (n, (dt, e)) in events(line).enumerate() {
            d.res(n as u32, r.event(dt, e));
        }
        d.end(name, "event32", i);

        let mut d = Dig::new();
        let mut r = Receiver::<T, NoPin, u64>::new(freq);
        let mut t = 0u64;
        for (n, (dt, e)) in events(line).enumerate() {
            t += dt as u64;
            d.res(n as u32, r.event_instant(t, e));
        }
        d.end(name, "instant64", i);

        let mut d = Dig::new();
        let mut r = <T as DecoderBuilder<u32>>::build(freq);
        for (n, (dt, e)) in events(line).enumerate() {
            d.res(n as u32, r.event_total(e, dt));
        }
        d.end(name, "total32", i);

        let mut d = Dig::new();
        let mut buf = [0u32; 600];
        let mut len = 0;
        for (dt, _) in events(line).take(600) {
            buf[len] = dt;
            len += 1;
        }
        let mut r: BufferInputReceiver<T> = BufferInputReceiver::with_frequenzy(freq);
        for (n, c) in r.iter(&buf[..len]).enumerate() {
            d.res(n as u32, Ok::<_, ()>(Some(c)));
        }
        d.end(name, "buffer", i);

        let lev = Cell::new(false);
        let mut d = Dig::new();
        let mut r = Receiver::<T, Pin>::with_pin(freq, Pin(&lev));
        for (n, (dt, e)) in events(line).enumerate() {
            lev.set(e);
            d.res(n as u32, r.event(dt));
        }
        d.end(name, "pin32", i);

        if freq == 1_000_000 {
            let mut d = Dig::new();
            let mut r = Receiver::<T, Pin, F32>::with_fugit(Pin(&lev));
            for (n, (dt, e)) in events(line).enumerate() {
                lev.set(e);
                d.res(n as u32, r.event(fugit::TimerDurationU32::<1_000_000>::from_ticks(dt)));
            }
            d.end(name, "fugit32", i);
        }

        if events(line).map(|e| e.0 as u64).sum::<u64>() < 8_000 {
            lev.set(false);
            let mut d = Dig::new();
            let mut r = PeriodicPoll::<T, Pin>::with_pin(freq, Pin(&lev));
            for (n, (dt, e)) in events(line).enumerate() {
                for _ in 1..dt {
                    d.res(u32::MAX, r.poll());
                }
                lev.set(e);
                d.res(n as u32, r.poll());
            }
            d.end(name, "poll", i);
        }
    }
}

fn multi() {
    for (i, line) in STREAMS.lines().enumerate() {
        if i % 3 != 0 {
            continue;
        }
        let freq: u32 = line.split(' ').nth(1).and_then(|f| f.parse().ok()).unwrap_or(1);
        let mut d = Dig::new();
        let mut r = MultiReceiver::<6, (Nec, SamsungNec, Rc5, Rc6, Sbp, Denon), NoPin>::new(freq, NoPin);
        for (n, (dt, e)) in events(line).enumerate() {
            for c in r.event_generic_iter(dt, e) {
                d.res(n as u32, Ok::<_, ()>(Some(Whole(c))));
            }
        }
        d.end("multi", "six", i as u32);
    }
}

/// Shown in full
struct Whole(AnyCommand);
impl Debug for Whole {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        let c = &self.0;
        write!(f, "{:?} {} {} {} {}", c.protocol, c.raw, c.address, c.command, c.repeat)
    }
}

fn sender<T, const F: u32>(name: &str, cmds: &[T::Cmd])
where
    T: ProtocolEncoder<F>,
{
    for (i, c) in cmds.iter().enumerate() {
        let i = i as u32;
        let mut d = Dig::new();
        let mut buf = [0u32; 96];
        let n = T::encode(c, &mut buf);
        for b in &buf[..n] {
            let _ = write!(d, "{b} ");
        }
        d.cmds += 1;
        d.end(name, "encode", i + F);

        let mut d = Dig::new();
        let mut s = PulsedataSender::<96>::new();
        s.load_command::<T, F>(c);
        for t in 0..700 {
            let _ = d.write_str(match s.tick(t) {
                Status::Transmit(true) => "1",
                Status::Transmit(false) => "0",
                Status::Idle => "i",
                Status::Error => "e",
            });
        }
        d.end(name, "ticks", i + F);

        let lev = Cell::new(false);
        let mut d = Dig::new();
        let mut s = Sender::<Pwm, F, 96>::new(Pwm(&lev));
        s.load::<T>(c);
        for _ in 0..700 {
            s.tick();
            let _ = d.write_str(if lev.get() { "1" } else { "0" });
        }
        d.end(name, "pwm", i + F);
    }
}

fn work() {
    receivers::<Nec>("nec");
    receivers::<Nec16>("nec16");
    receivers::<SamsungNec>("samsung");
    receivers::<AppleNec>("apple");
    receivers::<NecDebug>("necdebug");
    receivers::<Rc5>("rc5");
    receivers::<Rc6>("rc6");
    receivers::<Sbp>("sbp");
    receivers::<Denon>("denon");
    multi();
    sender::<Nec, 20_000>("nec", &[NecCommand { addr: 7, cmd: 129, repeat: false }, NecCommand { addr: 240, cmd: 85, repeat: false }]);
    sender::<Nec16, 10_000>("nec16", &[Nec16Command { addr: 0x8123, cmd: 129, repeat: false }]);
    sender::<SamsungNec, 38_000>("samsung", &[SamsungNecCommand { addr: 7, cmd: 2, repeat: false }]);
    sender::<Rc5, 20_000>("rc5", &[Rc5Command::new(20, 9, false), Rc5Command::new(31, 127, true)]);
    sender::<Rc6, 20_000>("rc6", &[Rc6Command { addr: 70, cmd: 2, toggle: false }, Rc6Command { addr: 255, cmd: 0, toggle: true }]);
    os::out("END\n");
}
