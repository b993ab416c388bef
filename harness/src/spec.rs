//! Protocol definitions, written from the protocol descriptions and independent
//! of the library's encoders and decoders. Times in microseconds.

use crate::fw::Rng;

#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash, PartialOrd, Ord)]
pub enum P {
    Nec,
    Nec16,
    Sam,
    Apple,
    Dbg,
    Rc5,
    Rc6,
    Sbp,
    Denon,
}

pub const ALL: [P; 9] = [
    P::Nec,
    P::Nec16,
    P::Sam,
    P::Apple,
    P::Dbg,
    P::Rc5,
    P::Rc6,
    P::Sbp,
    P::Denon,
];
pub const NECS: [P; 5] = [P::Nec, P::Nec16, P::Sam, P::Apple, P::Dbg];

/// Protocol independent view of a command
#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash)]
pub struct K {
    pub p: P,
    pub addr: u32,
    pub cmd: u32,
    /// Apple: page, NEC debug and Denon: raw bits, Rc5: start bits, Sbp: valid
    pub aux: u64,
    /// repeat flag or toggle bit
    pub rep: bool,
}

impl K {
    pub fn w(&self) -> u64 {
        crate::fw::hash64(&[
            self.p as u64,
            self.addr as u64,
            self.cmd as u64,
            self.aux,
            self.rep as u64,
        ])
    }
}

/// One symbol: a nominal duration and its tolerance in percent
#[derive(Clone, Copy, PartialEq, Debug)]
pub struct Sym {
    pub us: u32,
    pub tol: u32,
    /// nominal mark part (pulse distance only)
    pub mark: u32,
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Style {
    /// pulse distance: symbols are rise to rise
    Pd,
    /// bi-phase: symbols are the intervals between edges
    Bi,
}

impl P {
    pub fn style(self) -> Style {
        match self {
            P::Rc5 | P::Rc6 => Style::Bi,
            _ => Style::Pd,
        }
    }
    pub fn is_nec(self) -> bool {
        NECS.contains(&self)
    }
    pub fn name(self) -> &'static str {
        match self {
            P::Nec => "nec",
            P::Nec16 => "nec16",
            P::Sam => "samsung",
            P::Apple => "apple",
            P::Dbg => "necdebug",
            P::Rc5 => "rc5",
            P::Rc6 => "rc6",
            P::Sbp => "sbp",
            P::Denon => "denon",
        }
    }
    /// All symbols the protocol knows, in order of precedence
    pub fn alphabet(self) -> Vec<Sym> {
        let s = |us, tol, mark| Sym { us, tol, mark };
        match self {
            P::Nec | P::Nec16 | P::Apple | P::Dbg => vec![
                s(9000 + 4500, 7, 9000),
                s(9000 + 2250, 7, 9000),
                s(560 + 560, 25, 560),
                s(560 + 1690, 12, 560),
            ],
            P::Sam => vec![
                s(4500 + 4500, 7, 4500),
                s(4500 + 2250, 7, 4500),
                s(560 + 560, 25, 560),
                s(560 + 1690, 12, 560),
            ],
            P::Rc5 => vec![s(889, 12, 0), s(2 * 889, 10, 0)],
            P::Rc6 => (1..=6).map(|n| s(444 * n, 12, 0)).collect(),
            P::Sbp => vec![
                s(4500 + 4500, 5, 4500),
                s(500 + 4500, 5, 500),
                s(500 + 500, 10, 500),
                s(500 + 1500, 10, 500),
            ],
            P::Denon => vec![
                s(3400 + 1600, 8, 3400),
                s(480 + 360, 10, 480),
                s(480 + 1200, 10, 480),
            ],
        }
    }
    pub fn stop_mark(self) -> u32 {
        match self {
            P::Sbp => 500,
            P::Denon => 480,
            P::Rc5 => 889,
            P::Rc6 => 444,
            _ => 560,
        }
    }
}

/// A frame: symbols in order plus the command it carries
#[derive(Clone, Debug)]
pub struct Frame {
    pub p: P,
    pub k: K,
    /// Symbol indices into the alphabet
    pub syms: Vec<u8>,
    /// Bi-phase: does an edge follow the one that completes the command
    /// (i.e. the last half bit is a mark that still has to end)
    pub tail: bool,
}

/// word sent by the nec variants
pub fn nec_word(k: &K) -> u32 {
    let a = k.addr;
    let c = k.cmd;
    match k.p {
        P::Nec => (a & 0xff) | ((!a & 0xff) << 8) | ((c & 0xff) << 16) | ((!c & 0xff) << 24),
        P::Sam => (a & 0xff) | ((a & 0xff) << 8) | ((c & 0xff) << 16) | ((!c & 0xff) << 24),
        P::Nec16 => (a & 0xffff) | ((c & 0xff) << 16) | ((!c & 0xff) << 24),
        P::Dbg => k.aux as u32,
        P::Apple => {
            // page:5 vendor:11 parity:1 command:7 device:8
            let w = (k.aux as u32 & 0x1f) | (0x43f << 5) | ((c & 0x7f) << 17) | ((a & 0xff) << 24);
            if w.count_ones() % 2 == 1 {
                w
            } else {
                w | 1 << 16
            }
        }
        _ => unreachable!(),
    }
}

/// Fields of a received nec word
pub fn nec_fields(p: P, w: u32, rep: bool) -> K {
    let mut k = K { p, addr: 0, cmd: 0, aux: 0, rep };
    match p {
        P::Nec | P::Sam => {
            k.addr = w & 0xff;
            k.cmd = (w >> 16) & 0xff;
        }
        P::Nec16 => {
            k.addr = w & 0xffff;
            k.cmd = (w >> 16) & 0xff;
        }
        P::Dbg => {
            k.aux = w as u64;
            k.rep = false;
        }
        P::Apple => {
            k.addr = w >> 24;
            k.cmd = (w >> 17) & 0x7f;
            k.aux = (w & 0x1f) as u64;
        }
        _ => unreachable!(),
    }
    k
}

pub fn apple_ok(w: u32) -> bool {
    (w >> 5) & 0x7ff == 0x43f && w.count_ones() % 2 == 1
}

pub fn nec_frame_word(p: P, w: u32) -> Frame {
    let mut syms = vec![0u8];
    for i in 0..32 {
        syms.push(if w >> i & 1 == 1 { 3 } else { 2 });
    }
    Frame { p, k: nec_fields(p, w, false), syms, tail: true }
}

pub fn nec_repeat(_: P) -> Vec<u8> {
    vec![1]
}

pub fn sbp_fields(addr: u16, bits: u32) -> K {
    // 4 unknown bits, then command, then inverted command
    let c1 = (bits >> 4) & 0xff;
    let c2 = (bits >> 12) & 0xff;
    K {
        p: P::Sbp,
        addr: addr as u32,
        cmd: c1,
        aux: (c1 ^ c2 == 0xff) as u64,
        rep: false,
    }
}

/// `bits`: 4 unknown bits, command, inverted command (lsb first)
pub fn sbp_frame(addr: u16, bits: u32) -> Frame {
    let mut syms = vec![0u8];
    for i in 0..16 {
        syms.push(if addr >> i & 1 == 1 { 3 } else { 2 });
    }
    syms.push(1);
    for i in 0..20 {
        syms.push(if bits >> i & 1 == 1 { 3 } else { 2 });
    }
    Frame { p: P::Sbp, k: sbp_fields(addr, bits), syms, tail: true }
}

pub fn denon_frame(bits: u64) -> Frame {
    let mut syms = vec![0u8];
    for i in 0..48 {
        syms.push(if bits >> i & 1 == 1 { 2 } else { 1 });
    }
    Frame {
        p: P::Denon,
        k: K { p: P::Denon, addr: 0, cmd: 0, aux: bits & 0xffff_ffff_ffff, rep: false },
        syms,
        tail: true,
    }
}

/// Turn half-unit levels (true = mark) into run lengths, starting at the first mark
fn runs(levels: &[bool]) -> Vec<u32> {
    let start = levels.iter().position(|l| *l).unwrap();
    let mut out = vec![];
    let mut cur = true;
    let mut n = 0;
    for l in &levels[start..] {
        if *l == cur {
            n += 1;
        } else {
            out.push(n);
            cur = *l;
            n = 1;
        }
    }
    // trailing mark counts, trailing space is idle line
    if cur {
        out.push(n);
    }
    out
}

pub fn rc5_levels(start: u32, toggle: bool, addr: u32, cmd: u32) -> Vec<bool> {
    let w = (start & 3) << 12 | (toggle as u32) << 11 | (addr & 31) << 6 | (cmd & 63);
    let mut lv = vec![];
    for i in (0..14).rev() {
        let b = w >> i & 1 == 1;
        // one: space then mark
        lv.push(!b);
        lv.push(b);
    }
    lv
}

/// `start` must have its upper bit set (the first start bit is always one)
pub fn rc5_frame(start: u32, toggle: bool, addr: u32, cmd: u32) -> Frame {
    let r = runs(&rc5_levels(start, toggle, addr, cmd));
    let last_one = cmd & 1 == 1;
    let syms = r.iter().map(|n| (*n - 1) as u8).collect();
    Frame {
        p: P::Rc5,
        k: K { p: P::Rc5, addr: addr & 31, cmd: cmd & 63, aux: (start & 3) as u64, rep: toggle },
        syms,
        tail: last_one,
    }
}

pub fn rc6_levels(mode: u32, toggle: bool, bits: u32) -> Vec<bool> {
    let mut lv = vec![true; 6];
    lv.extend([false; 2]);
    lv.extend([true, false]); // start bit
    for i in (0..3).rev() {
        let b = mode >> i & 1 == 1;
        lv.push(b);
        lv.push(!b);
    }
    lv.extend([toggle, toggle, !toggle, !toggle]);
    for i in (0..16).rev() {
        let b = bits >> i & 1 == 1;
        lv.push(b);
        lv.push(!b);
    }
    lv
}

pub fn rc6_frame(toggle: bool, addr: u32, cmd: u32) -> Frame {
    let bits = (addr & 0xff) << 8 | (cmd & 0xff);
    let r = runs(&rc6_levels(0, toggle, bits));
    Frame {
        p: P::Rc6,
        k: K { p: P::Rc6, addr: addr & 0xff, cmd: cmd & 0xff, aux: 0, rep: toggle },
        syms: r.iter().map(|n| (*n - 1) as u8).collect(),
        // a zero ends with a mark that still has to end
        tail: cmd & 1 == 0,
    }
}

/// Frame for a command (Sbp: valid command with unknown bits zero)
pub fn frame_of(k: &K) -> Frame {
    match k.p {
        P::Rc5 => rc5_frame(k.aux as u32, k.rep, k.addr, k.cmd),
        P::Rc6 => rc6_frame(k.rep, k.addr, k.cmd),
        P::Sbp => sbp_frame(k.addr as u16, (k.cmd & 0xff) << 4 | (!k.cmd & 0xff) << 12),
        P::Denon => denon_frame(k.aux),
        _ => {
            let mut f = nec_frame_word(k.p, nec_word(k));
            f.k = *k;
            f
        }
    }
}

/// A value with interesting bit patterns
pub fn pattern(rng: &mut Rng, bits: u32) -> u64 {
    let mask = if bits == 64 { u64::MAX } else { (1 << bits) - 1 };
    let v = match rng.below(8) {
        0 => 0,
        1 => u64::MAX,
        2 => 1 << rng.below(bits as u64),
        3 => !(1u64 << rng.below(bits as u64)),
        4 => 1 << rng.below(bits as u64) | 1 << rng.below(bits as u64),
        5 => 0x5555_5555_5555_5555 << (rng.next() & 1),
        _ => rng.next(),
    };
    v & mask
}

thread_local! {
    /// Frames drawn earlier in the same case
    static DRAWN: std::cell::RefCell<Vec<Frame>> = const { std::cell::RefCell::new(Vec::new()) };
}

/// Called by the runner before every case
pub fn new_case() {
    DRAWN.with(|d| d.borrow_mut().clear());
}

/// Random well-formed frame; now and then one drawn before (the same command
/// twice in a row, or again after others)
pub fn random_frame(p: P, rng: &mut Rng) -> Frame {
    let again = DRAWN.with(|d| {
        let d = d.borrow();
        let same: Vec<&Frame> = d.iter().filter(|f| f.p == p).collect();
        if same.is_empty() || !rng.chance(1, 5) {
            return None;
        }
        Some(if rng.bool() { same[same.len() - 1] } else { same[rng.below(same.len() as u64) as usize] }.clone())
    });
    if let Some(f) = again {
        return f;
    }
    let f = new_frame(p, rng);
    DRAWN.with(|d| {
        let mut d = d.borrow_mut();
        if d.len() == 8 {
            d.remove(0);
        }
        d.push(f.clone());
    });
    f
}

fn new_frame(p: P, rng: &mut Rng) -> Frame {
    let a8 = pattern(rng, 8) as u32;
    let c8 = pattern(rng, 8) as u32;
    let k = |addr, cmd, aux, rep| K { p, addr, cmd, aux, rep };
    match p {
        P::Nec | P::Sam => frame_of(&k(a8, c8, 0, false)),
        P::Nec16 => frame_of(&k(pattern(rng, 16) as u32, c8, 0, false)),
        P::Dbg => frame_of(&k(0, 0, pattern(rng, 32), false)),
        P::Apple => frame_of(&k(a8, c8 & 0x7f, pattern(rng, 5), false)),
        P::Rc5 => frame_of(&k(a8 & 31, c8 & 63, 2 + rng.below(2), rng.bool())),
        P::Rc6 => frame_of(&k(a8, c8, 0, rng.bool())),
        P::Sbp => {
            let c2 = if rng.chance(1, 3) { pattern(rng, 8) as u32 } else { !c8 & 0xff };
            sbp_frame(pattern(rng, 16) as u16, rng.below(16) as u32 | c8 << 4 | c2 << 12)
        }
        P::Denon => denon_frame(pattern(rng, 48)),
    }
}

// ---------------------------------------------------------------- tick windows

/// Integer tick windows of a symbol at a tick frequency
#[derive(Clone, Copy, Debug)]
pub struct Win {
    /// must be accepted
    pub acc: (u64, u64),
    /// anything outside must be rejected
    pub maybe: (u64, u64),
    /// nominal in ticks
    pub nom: f64,
}

/// Conversion of microseconds to ticks may lose up to this fraction for
/// frequencies that are not a whole number of kHz (MHz)
fn trunc(f: u32) -> f64 {
    if f % 1_000_000 == 0 || (f % 1000 == 0 && f < 300_000_000) || f < 300_000 {
        0.0
    } else {
        0.0035
    }
}

pub fn win(s: &Sym, f: u32) -> Win {
    let n = s.us as f64 * f as f64 / 1e6;
    let t = s.tol as f64 / 100.0;
    if trunc(f) == 0.0 && (s.us as u64 * f as u64) % 1_000_000 == 0 {
        // a whole number of ticks: nothing is rounded and the limits are exact
        let n = s.us as u64 * f as u64 / 1_000_000;
        let d = n * s.tol as u64 / 100;
        let e = (n - d, n + d);
        return Win { acc: e, maybe: e, nom: n as f64 };
    }
    let lo_base = (n * (1.0 - trunc(f)) - 1.0).max(0.0);
    let acc_lo = (n * (1.0 - t) + 1.0).ceil().max(1.0);
    let acc_hi = (lo_base * (1.0 + t) - 1.0).floor().max(0.0);
    let m_lo = (lo_base * (1.0 - t) - 1.0).floor().max(0.0);
    let m_hi = (n * (1.0 + t) + 1.0).ceil();
    Win {
        acc: (acc_lo as u64, acc_hi as u64),
        maybe: (m_lo as u64, m_hi as u64),
        nom: n,
    }
}

#[derive(Clone, Debug)]
pub struct Wins {
    pub p: P,
    pub f: u32,
    pub w: Vec<Win>,
}

impl Wins {
    pub fn new(p: P, f: u32) -> Self {
        let mut w: Vec<Win> = p.alphabet().iter().map(|s| win(s, f)).collect();
        // where windows overlap the shorter symbol has precedence (rc6)
        for i in 1..w.len() {
            for j in 0..i {
                let hi = w[j].maybe.1;
                if w[j].nom < w[i].nom && w[i].acc.0 <= hi {
                    w[i].acc.0 = hi + 1;
                }
            }
        }
        Wins { p, f, w }
    }
    /// Is the resolution fine enough for the symbols frames consist of
    pub fn supported(&self) -> bool {
        self.used().iter().all(|i| {
            let w = &self.w[*i];
            w.acc.0 <= w.acc.1
        })
    }
    fn used(&self) -> Vec<usize> {
        match self.p {
            P::Rc6 => vec![0, 1, 2, 5],
            _ => (0..self.w.len()).collect(),
        }
    }
    /// Outside every window for sure
    pub fn surely_out(&self, x: u64) -> bool {
        self.w.iter().all(|w| x < w.maybe.0 || x > w.maybe.1)
    }
    /// Unambiguous class: Some(Some(i)) symbol i, Some(None) no symbol, None: ambiguous
    pub fn class(&self, x: u64) -> Option<Option<usize>> {
        // in order of length: shorter wins
        for (i, w) in self.w.iter().enumerate() {
            if x >= w.acc.0 && x <= w.acc.1 {
                // all shorter ones must be surely out
                let clear = self
                    .w
                    .iter()
                    .enumerate()
                    .all(|(j, v)| j == i || v.nom > w.nom || x < v.maybe.0 || x > v.maybe.1);
                return if clear { Some(Some(i)) } else { None };
            }
        }
        if self.surely_out(x) {
            Some(None)
        } else {
            None
        }
    }
    /// Could x be taken for symbol i
    pub fn possible(&self, i: usize, x: u64) -> bool {
        x >= self.w[i].maybe.0 && x <= self.w[i].maybe.1
    }
    /// The smallest pause (ticks) that is longer than any symbol
    pub fn quiet(&self) -> u64 {
        self.w.iter().map(|w| w.maybe.1).max().unwrap() + 1
    }
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Jit {
    /// nominal, rounded down or up, clamped to the accepted window
    Nominal,
    /// anything accepted
    Any,
    /// the ends of the accepted window
    Extreme,
}

pub fn pick_ticks(w: &Win, j: Jit, rng: &mut Rng) -> u64 {
    let (a, b) = w.acc;
    debug_assert!(a <= b);
    match j {
        Jit::Nominal => {
            let n = w.nom.floor() as u64 + rng.below(2);
            n.clamp(a, b)
        }
        Jit::Any => rng.range(a, b),
        Jit::Extreme => match rng.below(4) {
            0 => a,
            1 => b,
            2 => a + (b - a).min(rng.below(3)),
            _ => b - (b - a).min(rng.below(3)),
        },
    }
}

pub type Ev = (u64, bool);

/// How falling edges are placed in pulse distance symbols
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Marks {
    Nominal,
    Any,
}

pub fn split_mark(total: u64, w: &Win, s: &Sym, m: Marks, rng: &mut Rng) -> u64 {
    match m {
        Marks::Nominal => {
            let r = s.mark as f64 / s.us as f64;
            ((w.nom * r) as u64).clamp(1, total.max(2) - 1)
        }
        Marks::Any => match rng.below(4) {
            0 => 1.min(total),
            1 => total.saturating_sub(1),
            _ => rng.range(0, total),
        },
    }
}

/// Events for symbols, the first event being the rising edge after `gap`.
/// Returns the events and the index of the one that completes the frame.
pub fn play(
    p: P,
    syms: &[u8],
    tail: bool,
    wins: &Wins,
    gap: u64,
    j: Jit,
    m: Marks,
    rng: &mut Rng,
) -> (Vec<Ev>, usize) {
    let alpha = p.alphabet();
    let mut ev = vec![(gap, true)];
    match p.style() {
        Style::Pd => {
            for s in syms {
                let w = &wins.w[*s as usize];
                let t = pick_ticks(w, j, rng);
                let mk = split_mark(t, w, &alpha[*s as usize], m, rng);
                ev.push((mk, false));
                ev.push((t - mk, true));
            }
            let done = ev.len() - 1;
            if tail {
                let n = (p.stop_mark() as f64 * wins.f as f64 / 1e6) as u64;
                ev.push((n.max(1), false));
            }
            (ev, done)
        }
        Style::Bi => {
            let mut edge = true;
            for s in syms {
                edge = !edge;
                let t = pick_ticks(&wins.w[*s as usize], j, rng);
                ev.push((t, edge));
            }
            let done = if tail { ev.len() - 2 } else { ev.len() - 1 };
            (ev, done)
        }
    }
}

pub fn play_frame(fr: &Frame, wins: &Wins, gap: u64, j: Jit, m: Marks, rng: &mut Rng) -> (Vec<Ev>, usize) {
    play(fr.p, &fr.syms, fr.tail, wins, gap, j, m, rng)
}

/// Marks and spaces of a frame in us, first mark first, ending with a mark
pub fn nominal_us(fr: &Frame) -> Vec<u32> {
    let alpha = fr.p.alphabet();
    let mut v = vec![];
    match fr.p.style() {
        Style::Pd => {
            for s in &fr.syms {
                let s = &alpha[*s as usize];
                v.push(s.mark);
                v.push(s.us - s.mark);
            }
            v.push(fr.p.stop_mark());
        }
        Style::Bi => {
            for s in &fr.syms {
                v.push(alpha[*s as usize].us);
            }
        }
    }
    v
}

/// Frequencies worth trying
pub const FREQS: [u32; 40] = [
    20_000, 22_050, 25_000, 30_000, 32_000, 32_768, 36_000, 38_000, 40_000, 44_100, 48_000, 50_000,
    56_000, 64_000, 76_000, 80_000, 96_000, 100_000, 125_000, 200_000, 250_000, 318_145, 318_146,
    333_333, 500_000, 750_000, 1_000_000, 1_843_200, 2_000_000, 4_000_000, 8_000_000, 12_000_000,
    16_000_000, 48_000_000, 72_000_000, 84_000_000, 168_000_000, 318_146_000, 400_000_000,
    1_000_000_000,
];

/// Any frequency the protocol supports
pub fn random_freq(p: P, rng: &mut Rng) -> u32 {
    loop {
        let f = match rng.below(6) {
            0 | 1 => *rng.pick(&FREQS),
            2 => rng.range(20_000, 100_000) as u32,
            3 => rng.range(100_000, 2_000_000) as u32,
            4 => rng.range(1, 400) as u32 * 1_000_000,
            _ => {
                let e = rng.range(15, 31);
                rng.range(1 << e, (1u64 << (e + 1)) - 1) as u32
            }
        };
        if f >= 20_000 && Wins::new(p, f).supported() {
            return f;
        }
    }
}
