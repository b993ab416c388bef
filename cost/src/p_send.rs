//! Commands and pins for the sending workloads.

use crate::spec::*;
use infrared::protocol::nec::*;
use infrared::protocol::rc5::Rc5Command;
use infrared::protocol::rc6::Rc6Command;
use std::cell::Cell;
use std::rc::Rc;

pub const SENDABLE: [P; 6] = [P::Nec, P::Nec16, P::Sam, P::Dbg, P::Rc5, P::Rc6];

pub fn nec(k: &K) -> NecCommand {
    NecCommand { addr: k.addr as u8, cmd: k.cmd as u8, repeat: k.rep }
}
pub fn nec16(k: &K) -> Nec16Command {
    Nec16Command { addr: k.addr as u16, cmd: k.cmd as u8, repeat: k.rep }
}
pub fn sam(k: &K) -> SamsungNecCommand {
    SamsungNecCommand { addr: k.addr as u8, cmd: k.cmd as u8, repeat: k.rep }
}
pub fn dbg(k: &K) -> NecDebugCmd {
    NecDebugCmd { bits: k.aux as u32 }
}
pub fn rc5(k: &K) -> Rc5Command {
    Rc5Command { addr: k.addr as u8, cmd: k.cmd as u8, start: k.aux as u8, toggle: k.rep }
}
pub fn rc6(k: &K) -> Rc6Command {
    Rc6Command { addr: k.addr as u8, cmd: k.cmd as u8, toggle: k.rep }
}

/// Run `$body` with `$T` the protocol and `$c` the library command for `$k`
#[macro_export]
macro_rules! with_sendable {
    ($k:expr, $T:ident, $c:ident => $e:expr) => {{
        use $crate::p_send as ps;
        let k: &$crate::spec::K = $k;
        match k.p {
            $crate::spec::P::Nec => { type $T = infrared::protocol::Nec; let $c = ps::nec(k); $e }
            $crate::spec::P::Nec16 => { type $T = infrared::protocol::Nec16; let $c = ps::nec16(k); $e }
            $crate::spec::P::Sam => { type $T = infrared::protocol::SamsungNec; let $c = ps::sam(k); $e }
            $crate::spec::P::Dbg => { type $T = infrared::protocol::NecDebug; let $c = ps::dbg(k); $e }
            $crate::spec::P::Rc5 => { type $T = infrared::protocol::Rc5; let $c = ps::rc5(k); $e }
            $crate::spec::P::Rc6 => { type $T = infrared::protocol::Rc6; let $c = ps::rc6(k); $e }
            _ => unreachable!(),
        }
    }};
}

/// Pwm pin that only records its state
#[derive(Clone, Default)]
pub struct Pwm {
    pub on: Rc<Cell<bool>>,
    pub other: Rc<Cell<u64>>,
}

impl embedded_hal::PwmPin for Pwm {
    type Duty = u16;
    fn disable(&mut self) {
        self.on.set(false);
    }
    fn enable(&mut self) {
        self.on.set(true);
    }
    fn get_duty(&self) -> u16 {
        self.other.set(self.other.get() + 1);
        0
    }
    fn get_max_duty(&self) -> u16 {
        self.other.set(self.other.get() + 1);
        1
    }
    fn set_duty(&mut self, _: u16) {
        self.other.set(self.other.get() + 1);
    }
}

