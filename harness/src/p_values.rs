//! C13, C14, C15: command values, remote controls, generic commands.

use crate::fail;
use crate::fw::*;
use crate::gen::*;
use crate::p_send as ps;
use crate::spec::*;
use crate::sut::*;
use infrared::cmd::{AddressCommand, AnyCommand, Command};
use infrared::protocol::denon::DenonCommand;
use infrared::protocol::nec::*;
use infrared::protocol::rc5::Rc5Command;
use infrared::protocol::rc6::Rc6Command;
use infrared::protocol::sbp::SbpCommand;
use infrared::protocol::{AppleNec, Nec, Rc5, SamsungNec, Sbp};
use infrared::receiver::{DecoderBuilder, NoPin};
use infrared::remotecontrol::nec::{Apple2009, SamsungTv, SpecialForMp3};
use infrared::remotecontrol::rc5::CdPlayer;
use infrared::remotecontrol::sbp::SamsungBluRayPlayer;
use infrared::remotecontrol::{Action, Button, RemoteControlModel};
use infrared::{BufferInputReceiver, PeriodicPoll, ProtocolId, Receiver};

pub fn props() -> Vec<Property> {
    vec![c13(), c14(), c15()]
}

// ------------------------------------------------------------------ C13

fn c13() -> Property {
    Property {
        id: "C13",
        rule: "distinct raw words and command values given to validate/unpack/pack (all 2^32 words for each NEC variant, all 2^20 Samsung Blu-ray payloads, all RC5/RC6 payloads, all NEC/Samsung/NEC16 commands), plus invalid Apple words sent to receivers",
        assumptions: &["whether unpacking NEC, NEC16 and Samsung words with wrong check bytes yields fields or nothing is left open"],
        required: &["valid_words", "invalid_words", "packed_commands", "apple_frames_rejected", "apple_frames_accepted", "sbp_valid", "sbp_invalid"],
        workloads: vec![
            Workload { name: "words", quick: 4096, thorough: 4096, f: c13_words },
            Workload { name: "commands", quick: 1 << 10, thorough: 1 << 10, f: c13_commands },
            Workload { name: "payloads", quick: 256, thorough: 256, f: c13_payloads },
            Workload { name: "received", quick: 400_000, thorough: 6_400_000, f: c13_received },
        ],
    }
}

#[inline(never)]
fn word_bad<C: NecCommandVariant + Canon>(p: P, w: u32, ok: bool, rep: bool) -> String {
    format!(
        "{} word {w:#010x} (repeat {rep}): validate {}, expected {ok}; unpack {:?}, expected {}{:?}",
        p.name(), C::validate(w), C::unpack(w, rep).map(|c| c.canon()),
        if ok { "" } else { "nothing or " }, nec_fields(p, w, rep)
    )
}

fn c13_words(c: &mut Case) -> Res {
    let base = (c.idx as u32) << 20;
    let mut valid = 0u64;
    for i in 0..1u32 << 20 {
        // spread the blocks over the whole range
        let w = (base | i).rotate_left(8);
        let rep = w.count_ones() & 1 == 1;
        let b0 = w & 0xff;
        let b1 = w >> 8 & 0xff;
        let cmd_ok = (w >> 16 & 0xff) + (w >> 24) == 0xff;
        macro_rules! chk {
            ($p:expr, $T:ty, $ok:expr, $strict:expr, $v:ident => $eq:expr) => {{
                let ok = $ok;
                valid += ok as u64;
                let u = <$T>::unpack(w, rep);
                let fields_ok = match &u {
                    Some($v) => (ok || !$strict) && $eq,
                    None => !ok,
                };
                if <$T>::validate(w) != ok || !fields_ok {
                    fail!("{}", word_bad::<$T>($p, w, ok, rep));
                }
            }};
        }
        chk!(P::Nec, NecCommand, cmd_ok && b0 + b1 == 0xff, false, v => v.addr as u32 == b0 && v.cmd as u32 == w >> 16 & 0xff && v.repeat == rep);
        chk!(P::Sam, SamsungNecCommand, cmd_ok && b0 == b1, false, v => v.addr as u32 == b0 && v.cmd as u32 == w >> 16 & 0xff && v.repeat == rep);
        chk!(P::Nec16, Nec16Command, cmd_ok, false, v => v.addr as u32 == w & 0xffff && v.cmd as u32 == w >> 16 & 0xff && v.repeat == rep);
        chk!(P::Apple, AppleNecCommand, apple_ok(w), true, v => v.command_page as u32 == w & 0x1f
            && v.command as u32 == w >> 17 & 0x7f && v.device_id as u32 == w >> 24 && v.repeat == rep);
        chk!(P::Dbg, NecDebugCmd, true, false, v => v.bits == w);
        let d = NecDebugCmd { bits: w };
        if d.pack() != w {
            fail!("NEC debug packs {w:#x} as {:#x}", d.pack());
        }
    }
    c.count("valid_words", valid);
    c.count("invalid_words", (5 << 20) - valid);
    c.enumerated(5 << 20);
    c.evals((5 << 20) - 1);
    if c.idx == 0 {
        c.sample(|| "0x..: all 2^32 words through validate and unpack of five variants".into());
    }
    Ok(())
}

fn c13_commands(c: &mut Case) -> Res {
    // case: 6 bits of the upper address byte and four quarters of the command
    for i in 0..1u32 << 14 {
        let v = (c.idx as u32) << 14 | i;
        let addr = v >> 8;
        let cmd = v & 0xff;
        for rep in [false, true] {
            let k = K { p: P::Nec16, addr, cmd, aux: 0, rep };
            let x = ps::nec16(&k);
            let w = x.pack();
            if w != nec_word(&k) || Nec16Command::unpack(w, rep) != Some(x) || !Nec16Command::validate(w) {
                fail!("{k:?} packs to {w:#010x} and unpacks to {:?}", Nec16Command::unpack(w, rep));
            }
            if addr < 256 {
                let k = K { p: P::Nec, ..k };
                let x = ps::nec(&k);
                let w = x.pack();
                if w != nec_word(&k) || NecCommand::unpack(w, rep) != Some(x) || !NecCommand::validate(w) {
                    fail!("{k:?} packs to {w:#010x} and unpacks to {:?}", NecCommand::unpack(w, rep));
                }
                let k = K { p: P::Sam, ..k };
                let x = ps::sam(&k);
                let w = x.pack();
                if w != nec_word(&k) || SamsungNecCommand::unpack(w, rep) != Some(x) || !SamsungNecCommand::validate(w) {
                    fail!("{k:?} packs to {w:#010x} and unpacks to {:?}", SamsungNecCommand::unpack(w, rep));
                }
                c.count("packed_commands", 2);
                c.enumerated(2);
            }
            c.enumerated(1);
        }
    }
    c.count("packed_commands", 2 << 14);
    Ok(())
}

fn c13_payloads(c: &mut Case) -> Res {
    // rc5, rc6: all 16 bit words
    for i in 0..256u32 {
        let w = ((c.idx as u32) << 8 | i) as u16;
        let x = Rc5Command::unpack(w);
        let want = K {
            p: P::Rc5,
            addr: (w as u32 >> 6) & 31,
            cmd: w as u32 & 63,
            aux: (w as u64 >> 12) & 3,
            rep: w >> 11 & 1 == 1,
        };
        if x.canon() != want {
            fail!("RC5 word {w:#06x} unpacks to {:?}, expected {want:?}", x.canon());
        }
        if x.pack() != w & 0x3fff {
            fail!("RC5 {:?} packs to {:#06x}, not {:#06x}", x.canon(), x.pack(), w & 0x3fff);
        }
        if w >> 13 == 1 && w >> 12 & 1 == 1 {
            let n = Rc5Command::new(x.addr, x.cmd, x.toggle);
            if n != x {
                fail!("Rc5Command::new({}, {}, {}) is {n:?}", x.addr, x.cmd, x.toggle);
            }
        }
        for t in [false, true] {
            let x = Rc6Command::from_bits(w, t);
            let want = K { p: P::Rc6, addr: w as u32 >> 8, cmd: w as u32 & 0xff, aux: 0, rep: t };
            if x.canon() != want {
                fail!("RC6 bits {w:#06x} toggle {t} give {:?}, expected {want:?}", x.canon());
            }
        }
        let n = Rc6Command::new((w >> 8) as u8, w as u8);
        if n.canon() != Rc6Command::from_bits(w, false).canon() {
            fail!("Rc6Command::new gives {n:?}");
        }
        c.enumerated(3);
    }
    // samsung blu-ray: all 20 bit payloads
    for i in 0..4096u32 {
        let bits = (c.idx as u32) << 12 | i;
        let addr = c.rng.next() as u16;
        let x = SbpCommand::unpack(addr, bits);
        let want = sbp_fields(addr, bits);
        if x.canon() != want {
            fail!("Samsung Blu-ray address {addr:#06x} bits {bits:#07x} unpack to {:?}, expected {want:?}", x.canon());
        }
        c.count(if want.aux == 1 { "sbp_valid" } else { "sbp_invalid" }, 1);
    }
    c.enumerated(4096);
    Ok(())
}

/// Words through a receiver
fn c13_received(c: &mut Case) -> Res {
    let f = random_freq(P::Apple, &mut c.rng);
    let w = Wins::new(P::Apple, f);
    let good = nec_word(&random_frame(P::Apple, &mut c.rng).k);
    let word = match c.rng.below(6) {
        0 => good,
        1 => good ^ 1 << c.rng.below(32),
        2 => good ^ 1 << c.rng.below(32) ^ 1 << c.rng.below(32),
        3 => good ^ 1 << c.rng.range(5, 15) ^ 1 << 16,
        4 => c.rng.u32(),
        _ => pattern(&mut c.rng, 32) as u32,
    };
    let fr = nec_frame_word(P::Apple, word);
    let kind = *c.rng.pick(&[Front::Event, Front::Instant, Front::Pin, Front::Hand, Front::Total]);
    let mut r = front(P::Apple, f, kind);
    let (ev, _) = play_frame(&fr, &w, pause(&w, &mut c.rng), Jit::Any, Marks::Nominal, &mut c.rng);
    let mut o = feed(&mut *r, &ev);
    // a repeat must not resurrect it
    let (ev2, _) = play(P::Apple, &nec_repeat(P::Apple), true, &w, pause(&w, &mut c.rng), Jit::Any, Marks::Nominal, &mut c.rng);
    o.extend(feed(&mut *r, &ev2));
    let got = commands(&o);
    let want: Vec<K> = if apple_ok(word) {
        c.count("apple_frames_accepted", 1);
        vec![fr.k, K { rep: true, ..fr.k }]
    } else {
        c.count("apple_frames_rejected", 1);
        vec![]
    };
    if got != want {
        fail!("Apple word {word:#010x} at {f} Hz through {kind:?}, then a repeat: reported {got:?}, expected {want:?}");
    }
    c.distinct(hash64(&[word as u64, f as u64]));
    Ok(())
}

// ------------------------------------------------------------------ C14

fn c14() -> Property {
    Property {
        id: "C14",
        rule: "distinct (remote, command) pairs mapped to actions and (remote, action) pairs mapped to commands by enumeration; distinct buttons delivered by receivers by hash",
        assumptions: &["the button tables of the bundled remotes are those recorded in p_values.rs", "the Apple remote is receive only (nothing encodes)"],
        required: &["mapped", "unmapped", "encoded", "buttons_received", "repeat_buttons", "user_remotes", "user_encodes"],
        workloads: vec![
            Workload { name: "decode", quick: 256, thorough: 256, f: c14_decode },
            Workload { name: "encode", quick: 5, thorough: 5, f: c14_encode },
            Workload { name: "received", quick: 240_000, thorough: 3_200_000, f: c14_received },
            Workload { name: "models", quick: 20_000, thorough: 400_000, f: c14_models },
        ],
    }
}

use Action::*;

const SAMSUNGTV: &[(u32, Action)] = &[
    (2, Power), (1, Source), (4, One), (5, Two), (6, Three), (8, Four), (9, Five), (10, Six), (12, Seven), (13, Eight),
    (14, Nine), (17, Zero), (44, Teletext), (19, ChannelPrev), (7, VolumeUp), (11, VolumeDown), (15, VolumeMute),
    (107, ChannelList), (18, ChannelListNext), (16, ChannelListPrev), (75, Tools), (31, Info), (88, Return), (45, Exit),
    (104, Enter), (96, Up), (97, Down), (101, Left), (98, Right), (108, Red), (20, Green), (21, Yellow), (22, Blue),
    (63, Emanual), (62, PictureSize), (37, Subtitle), (70, Stop), (69, Rewind), (71, Play), (74, Paus), (72, Forward),
];
const MP3: &[(u32, Action)] = &[
    (69, Power), (70, Mode), (71, Mute), (68, Play_Pause), (64, Prev), (67, Next), (7, Eq), (21, Minus), (9, Plus),
    (22, Zero), (25, Shuffle), (13, U_SD), (12, One), (24, Two), (94, Three), (8, Four), (28, Five), (90, Six),
    (66, Seven), (82, Eight), (74, Nine),
];
const CD: &[(u32, Action)] = &[
    (1, One), (2, Two), (3, Three), (4, Four), (5, Five), (6, Six), (7, Seven), (8, Eight), (9, Nine), (11, Time),
    (12, Power), (16, Up), (17, Down), (18, Setup), (21, Left), (22, Right), (23, Enter), (28, Random), (29, Repeat),
    (32, Next), (33, Prev), (37, PitchReset), (38, PitchPlus), (39, PitchMinus), (41, Prog), (48, Paus), (53, Play),
    (54, Stop),
];
const BLURAY: &[(u32, Action)] = &[
    (2, One), (3, Two), (4, Three), (5, Four), (6, Five), (7, Six), (8, Seven), (9, Eight), (10, Nine),
];
/// page << 7 | command
const APPLE: &[(u32, Action)] = &[
    (0x0E << 7 | 0x01, Menu), (0x0E << 7 | 0x02, Play_Pause), (0x0E << 7 | 0x03, Right), (0x0E << 7 | 0x04, Left),
    (0x0E << 7 | 0x05, Up), (0x0E << 7 | 0x06, Down), (0x0E << 7 | 0x2E, Enter), (0x0E << 7 | 0x2F, Play_Pause2),
    (0x03, BatteryLow), (0x07, BatteryLow),
];
const NAMES: &[(Action, &str)] = &[
    (Power, "power"), (Source, "source"), (One, "one"), (Two, "two"), (Three, "three"), (Four, "four"), (Five, "five"),
    (Six, "six"), (Seven, "seven"), (Eight, "eight"), (Nine, "nine"), (Zero, "zero"), (Teletext, "teletext"),
    (ChannelPrev, "channel_prev"), (VolumeUp, "volume_up"), (VolumeDown, "volume_down"), (VolumeMute, "volume_mute"),
    (ChannelList, "channellist"), (ChannelListNext, "channellist_next"), (ChannelListPrev, "channellist_prev"),
    (Tools, "tools"), (Info, "info"), (Return, "return"), (Exit, "exit"), (Enter, "enter"), (Up, "up"), (Down, "down"),
    (Left, "left"), (Right, "right"), (Red, "red"), (Green, "green"), (Yellow, "yellow"), (Blue, "blue"),
    (Emanual, "e_manual"), (PictureSize, "picture_size"), (Subtitle, "subtitle"), (Stop, "stop"), (Rewind, "rewind"),
    (Play, "play"), (Paus, "pause"), (Play_Pause, "play_pause"), (Play_Pause2, "play_pause2"), (Forward, "forward"),
    (Mode, "mode"), (Shuffle, "shuffle"), (U_SD, "u_sd"), (Plus, "plus"), (Minus, "minus"), (Next, "next"),
    (Prev, "prev"), (Eq, "equalizer"), (Mute, "mute"), (Random, "random"), (Repeat, "repeat"), (Time, "time"),
    (Setup, "setup"), (Menu, "menu"), (PitchReset, "pitch_reset"), (PitchPlus, "pitch_plus"),
    (PitchMinus, "pitch_minus"), (Prog, "program"), (BatteryLow, "battery_low"),
];

/// Expected action
fn golden(p: P, k: &K) -> Option<Action> {
    let (addr, t, code) = match p {
        P::Sam => (7, SAMSUNGTV, k.cmd),
        P::Nec => (0, MP3, k.cmd),
        P::Rc5 => (20, CD, k.cmd),
        P::Sbp => (32, BLURAY, k.cmd),
        P::Apple => (k.addr, APPLE, (k.aux as u32) << 7 | k.cmd),
        _ => unreachable!(),
    };
    if addr != k.addr {
        return None;
    }
    t.iter().find(|(c, _)| *c == code).map(|(_, a)| *a)
}

fn c14_one<R: RemoteControlModel>(c: &mut Case, cmd: R::Cmd) -> Res
where
    R::Cmd: Canon,
{
    let k = cmd.canon();
    let want = golden(k.p, &k);
    let got = R::decode(&cmd);
    let rep = cmd.is_repeat();
    if got != want {
        fail!("{}: {k:?} maps to {got:?}, expected {want:?}", R::MODEL);
    }
    let b: Button<R> = cmd.into();
    if b.action() != want || b.command().canon() != k || b.is_repeat() != rep {
        fail!("{}: button for {k:?} has action {:?}, command {:?}, repeat {}", R::MODEL, b.action(), b.command().canon(), b.is_repeat());
    }
    c.count(if want.is_some() { "mapped" } else { "unmapped" }, 1);
    Ok(())
}

fn c14_decode(c: &mut Case) -> Res {
    let addr = c.idx as u32;
    for cmd in 0..256u32 {
        for rep in [false, true] {
            let k = K { p: P::Nec, addr, cmd, aux: 0, rep };
            c14_one::<SpecialForMp3>(c, ps::nec(&k))?;
            c14_one::<SamsungTv>(c, ps::sam(&k))?;
            for start in [0, 2, 3] {
                c14_one::<CdPlayer>(c, ps::rc5(&K { aux: start, ..k }))?;
            }
            {
                let device_id = c.rng.u8();
                c14_one::<Apple2009>(c, AppleNecCommand { command_page: addr as u8, command: cmd as u8, device_id, repeat: rep })
            }?;
            // addresses that differ only in the upper byte
            let hi = if c.rng.bool() { 0 } else { c.rng.u8() as u16 };
            c14_one::<SamsungBluRayPlayer>(c, SbpCommand { address: addr as u16 | hi << 8, command: cmd as u8, valid: rep })?;
        }
    }
    c.enumerated(256 * 2 * 7);
    c.evals(256 * 2 * 7 - 1);
    Ok(())
}

fn c14_enc<R: RemoteControlModel>(c: &mut Case, p: P, addr: u32, table: &[(u32, Action)], id: ProtocolId) -> Res
where
    R::Cmd: Canon,
{
    if R::ADDRESS != addr || R::PROTOCOL != id {
        fail!("{}: address {} protocol {:?}", R::MODEL, R::ADDRESS, R::PROTOCOL);
    }
    if <R::Cmd as AddressCommand>::ID != id {
        fail!("{}: protocol id {:?} but command id {:?}", R::MODEL, id, <R::Cmd as AddressCommand>::ID);
    }
    for (a, _) in NAMES {
        let want = table.iter().find(|(_, b)| b == a).map(|(n, _)| *n);
        let want = if p == P::Apple { None } else { want };
        match (R::encode(a), want) {
            (None, None) => c.count("not_encoded", 1),
            (Some(cmd), Some(n)) => {
                if cmd.address() != addr || cmd.command() != n || cmd.is_repeat() || R::decode(&cmd) != Some(*a) {
                    fail!("{}: {a:?} encodes to {:?} which decodes to {:?}", R::MODEL, cmd.canon(), R::decode(&cmd));
                }
                c.count("encoded", 1);
            }
            (g, w) => fail!("{}: {a:?} encodes to {:?}, expected code {w:?}", R::MODEL, g.map(|k| k.canon())),
        }
        c.enumerated(1);
    }
    Ok(())
}

fn c14_encode(c: &mut Case) -> Res {
    match c.idx {
        0 => c14_enc::<SpecialForMp3>(c, P::Nec, 0, MP3, ProtocolId::Nec)?,
        1 => c14_enc::<SamsungTv>(c, P::Sam, 7, SAMSUNGTV, ProtocolId::NecSamsung)?,
        2 => c14_enc::<CdPlayer>(c, P::Rc5, 20, CD, ProtocolId::Rc5)?,
        3 => c14_enc::<SamsungBluRayPlayer>(c, P::Sbp, 32, BLURAY, ProtocolId::Sbp)?,
        _ => c14_enc::<Apple2009>(c, P::Apple, 0, APPLE, ProtocolId::NecApple)?,
    }
    for (i, (a, n)) in NAMES.iter().enumerate() {
        if a.to_str() != *n {
            fail!("{a:?} is named {:?}, expected {n:?}", a.to_str());
        }
        for (b, _) in &NAMES[..i] {
            if a.to_str() == b.to_str() || a == b {
                fail!("{a:?} and {b:?} share a name");
            }
        }
        c.enumerated(1);
    }
    Ok(())
}

/// A button as an ordinary value
#[derive(Clone, PartialEq, Debug)]
struct B {
    k: K,
    a: Option<Action>,
    rep: bool,
}

fn b_of<R: RemoteControlModel>(b: &Button<R>) -> B
where
    R::Cmd: Canon,
{
    B { k: b.command().canon(), a: b.action(), rep: b.is_repeat() }
}

fn rx_buttons<T, R>(kind: u64, f: u32, ev: &[Ev]) -> Vec<B>
where
    T: DecoderBuilder<u32, Cmd = R::Cmd> + DecoderBuilder<u64, Cmd = R::Cmd>,
    R: RemoteControlModel,
    R::Cmd: Canon,
    Button<R>: From<R::Cmd>,
{
    let mut v = vec![];
    match kind {
        0 => {
            let mut r = Receiver::<T, NoPin, u32, Button<R>>::new(f);
            for (d, e) in ev {
                if let Ok(Some(b)) = r.event(*d as u32, *e) {
                    v.push(b_of(&b));
                }
            }
        }
        1 => {
            let mut r = infrared::receiver().protocol::<T>().remotecontrol(R::default()).frequency(f).monotonic::<u64>().build();
            let mut t = 0;
            for (d, e) in ev {
                t += d;
                if let Ok(Some(b)) = r.event_instant(t, *e) {
                    v.push(b_of(&b));
                }
            }
        }
        2 => {
            let b: Vec<u32> = ev.iter().map(|e| e.0 as u32).collect();
            let mut r = BufferInputReceiver::<T, u32, Button<R>>::with_frequenzy(f);
            v.extend(r.iter(&b).map(|b| b_of(&b)));
        }
        3 => {
            let pin = Pin::default();
            let mut r = infrared::receiver().pin(pin.clone()).frequency(f).protocol::<T>().remotecontrol(R::default()).build();
            for (d, e) in ev {
                pin.mark.set(*e);
                if let Ok(Some(b)) = r.event(*d as u32) {
                    v.push(b_of(&b));
                }
            }
        }
        _ => {
            let mut r = PeriodicPoll::<T, NoPin, Button<R>>::new(f);
            let mut lvl = false;
            for (d, e) in ev {
                for i in 0..*d {
                    let l = if i + 1 == *d { *e } else { lvl };
                    if let Ok(Some(b)) = r.poll(l) {
                        v.push(b_of(&b));
                    }
                }
                lvl = *e;
            }
        }
    }
    v
}

/// Remotes written by users of the library
fn c14_models(c: &mut Case) -> Res {
    let all: Vec<Action> = NAMES.iter().map(|x| x.0).collect();
    crate::p_custom::c14_models(c, &all)
}

fn c14_received(c: &mut Case) -> Res {
    let p = [P::Nec, P::Sam, P::Rc5, P::Sbp, P::Apple][(c.idx % 5) as usize];
    let f = *c.rng.pick(&[32_768u32, 40_000, 44_100, 100_000]);
    let w = Wins::new(p, f);
    let kind = c.rng.below(5);
    let mut ev: Vec<Ev> = vec![];
    let mut want: Vec<B> = vec![];
    for _ in 0..c.rng.range(1, 4) {
        let mut fr = random_frame(p, &mut c.rng);
        if c.rng.chance(3, 4) {
            // a button of the remote
            let (a, t) = match p {
                P::Sam => (7, SAMSUNGTV),
                P::Nec => (0, MP3),
                P::Rc5 => (20, CD),
                P::Sbp => (32, BLURAY),
                _ => (c.rng.u8() as u32, APPLE),
            };
            let code = c.rng.pick(t).0;
            let mut k = K { addr: a, cmd: code & if p == P::Apple { 0x7f } else { 0xff }, ..fr.k };
            if p == P::Apple {
                k.aux = (code >> 7) as u64;
            }
            if p == P::Sbp {
                k.aux = 1;
            }
            fr = frame_of(&k);
        }
        let g = if kind == 4 { short_pause(&w, &mut c.rng) } else { pause(&w, &mut c.rng) };
        ev.extend(play_frame(&fr, &w, g, Jit::Any, Marks::Nominal, &mut c.rng).0);
        want.push(B { k: fr.k, a: golden(p, &fr.k), rep: p == P::Rc5 && fr.k.rep });
        if p.is_nec() && c.rng.bool() {
            let g = if kind == 4 { short_pause(&w, &mut c.rng) } else { pause(&w, &mut c.rng) };
            ev.extend(play(p, &nec_repeat(p), true, &w, g, Jit::Any, Marks::Nominal, &mut c.rng).0);
            let k = K { rep: true, ..fr.k };
            want.push(B { k, a: golden(p, &k), rep: true });
        }
    }
    let got = match p {
        P::Nec => rx_buttons::<Nec, SpecialForMp3>(kind, f, &ev),
        P::Sam => rx_buttons::<SamsungNec, SamsungTv>(kind, f, &ev),
        P::Rc5 => rx_buttons::<Rc5, CdPlayer>(kind, f, &ev),
        P::Sbp => rx_buttons::<Sbp, SamsungBluRayPlayer>(kind, f, &ev),
        _ => rx_buttons::<AppleNec, Apple2009>(kind, f, &ev),
    };
    if got != want {
        fail!("{} buttons at {f} Hz (receiver kind {kind}): got {got:?}\nexpected {want:?}\nevents: {}", p.name(), show(&ev));
    }
    c.count("buttons_received", want.len() as u64);
    c.count("repeat_buttons", want.iter().filter(|b| b.rep).count() as u64);
    c.distinct(hash64(&[hash_events(&ev), kind]));
    c.sample(|| format!("{} at {f} Hz: buttons {:?}", p.name(), want.iter().map(|b| b.a).collect::<Vec<_>>()));
    Ok(())
}

// ------------------------------------------------------------------ C15

fn c15() -> Property {
    Property {
        id: "C15",
        rule: "distinct command values converted to the generic form (enumerated for the 8-bit protocols), distinct (address, command) pairs given to create (all pairs up to 300, boundary and random 32-bit pairs), all 256 protocol numbers",
        assumptions: &["the generic raw value is compared with the command type's own raw()"],
        required: &["converted", "created", "refused", "created_received", "ids"],
        workloads: vec![
            Workload { name: "any", quick: 256, thorough: 256, f: c15_any },
            Workload { name: "create", quick: 301, thorough: 301, f: c15_create_small },
            Workload { name: "create_big", quick: 3_000_000, thorough: 40_000_000, f: c15_create_big },
            Workload { name: "travel", quick: 300_000, thorough: 4_500_000, f: c15_travel },
            Workload { name: "ids", quick: 1, thorough: 1, f: c15_ids },
        ],
    }
}

fn pid(p: P) -> ProtocolId {
    match p {
        P::Nec => ProtocolId::Nec,
        P::Nec16 => ProtocolId::Nec16,
        P::Sam => ProtocolId::NecSamsung,
        P::Apple => ProtocolId::NecApple,
        P::Rc5 => ProtocolId::Rc5,
        P::Rc6 => ProtocolId::Rc6,
        P::Sbp => ProtocolId::Sbp,
        P::Denon => ProtocolId::Denon,
        P::Dbg => ProtocolId::Unknown,
    }
}

/// Expected generic address and command
pub fn any_parts(k: &K) -> (u32, u32) {
    match k.p {
        P::Apple => (0, (k.aux as u32) << 7 | k.cmd),
        P::Denon => (0, 0),
        _ => (k.addr, k.cmd),
    }
}

pub fn any_eq(a: &AnyCommand, k: &K, raw: u64) -> bool {
    let (ad, cm) = any_parts(k);
    let rep = k.rep && k.p != P::Denon;
    a.protocol == pid(k.p) && a.address == ad && a.command == cm && a.raw == raw && a.repeat == rep
}

fn c15_conv<C: AddressCommand + Canon>(c: &mut Case, cmd: C) -> Res {
    let k = cmd.canon();
    let raw = cmd.raw();
    let rep = cmd.is_repeat();
    if (cmd.address(), cmd.command()) != any_parts(&k) {
        fail!("{k:?}: address() {} command() {}, expected {:?}", cmd.address(), cmd.command(), any_parts(&k));
    }
    if rep != k.rep {
        fail!("{k:?}: is_repeat() is {rep}");
    }
    let a: AnyCommand = cmd.into();
    if !any_eq(&a, &k, raw) {
        fail!("{k:?} (raw {raw:#x}) becomes {a:?}");
    }
    c.count("converted", 1);
    Ok(())
}

fn c15_any(c: &mut Case) -> Res {
    let addr = c.idx as u32;
    for cmd in 0..256u32 {
        for rep in [false, true] {
            let k = K { p: P::Nec, addr, cmd, aux: 0, rep };
            c15_conv(c, ps::nec(&k))?;
            c15_conv(c, ps::sam(&k))?;
            c15_conv(c, ps::rc6(&k))?;
            if addr < 32 && cmd < 64 {
                for start in [2, 3] {
                    c15_conv(c, ps::rc5(&K { aux: start, ..k }))?;
                }
            }
            if addr < 32 && cmd < 128 {
                {
                    let device_id = c.rng.u8();
                    c15_conv(c, AppleNecCommand { command_page: addr as u8, command: cmd as u8, device_id, repeat: rep })
                }?;
            }
        }
        for valid in [false, true] {
            let hi = c.rng.u8() as u16;
            c15_conv(c, SbpCommand { address: addr as u16 | hi << 8, command: cmd as u8, valid })?;
        }
        let bits = pattern(&mut c.rng, 48);
        let a: AnyCommand = DenonCommand { bits }.into();
        let k = K { p: P::Denon, addr: 0, cmd: 0, aux: bits, rep: false };
        if !any_eq(&a, &k, bits) {
            fail!("Denon {bits:#x} becomes {a:?}");
        }
    }
    c.enumerated(256 * 9);
    c.evals(256 * 9 - 1);
    Ok(())
}

fn fits(p: P, a: u32, n: u32) -> bool {
    match p {
        P::Nec | P::Sam | P::Rc6 => a <= 255 && n <= 255,
        P::Rc5 => a <= 31 && n <= 63,
        P::Sbp => a <= 65535 && n <= 255,
        _ => false,
    }
}

fn c15_cr<C: AddressCommand + Canon>(c: &mut Case, p: P, a: u32, n: u32) -> Res {
    match (C::create(a, n), fits(p, a, n)) {
        (None, false) => c.count("refused", 1),
        (Some(x), true) => {
            let k = x.canon();
            let want = K {
                p,
                addr: a,
                cmd: n,
                aux: match p {
                    P::Rc5 => 3,
                    P::Sbp => 1,
                    _ => 0,
                },
                rep: false,
            };
            if k != want || x.address() != a || x.command() != n || x.is_repeat() {
                fail!("{} create({a}, {n}) gives {k:?} with address() {} command() {}", p.name(), x.address(), x.command());
            }
            c.count("created", 1);
        }
        (Some(x), false) => fail!("{} create({a:#x}, {n:#x}) does not fit but gives {:?}", p.name(), x.canon()),
        (None, true) => fail!("{} create({a}, {n}) gives nothing", p.name()),
    }
    Ok(())
}

fn c15_create_all(c: &mut Case, a: u32, n: u32) -> Res {
    c15_cr::<NecCommand>(c, P::Nec, a, n)?;
    c15_cr::<SamsungNecCommand>(c, P::Sam, a, n)?;
    c15_cr::<AppleNecCommand>(c, P::Apple, a, n)?;
    c15_cr::<Rc5Command>(c, P::Rc5, a, n)?;
    c15_cr::<Rc6Command>(c, P::Rc6, a, n)?;
    c15_cr::<SbpCommand>(c, P::Sbp, a, n)
}

fn c15_create_small(c: &mut Case) -> Res {
    for n in 0..=300 {
        c15_create_all(c, c.idx as u32, n)?;
    }
    c.enumerated(301 * 6);
    Ok(())
}

fn c15_create_big(c: &mut Case) -> Res {
    let mut v = || match c.rng.below(6) {
        0 => c.rng.below(300) as u32,
        1 => c.rng.below(70_000) as u32,
        2 => 1 << c.rng.below(32),
        3 => (1u64 << c.rng.range(1, 32)).wrapping_sub(1 + c.rng.below(2)) as u32,
        4 => (c.rng.below(256) as u32) << (8 * c.rng.below(4)),
        _ => c.rng.u32(),
    };
    let (a, n) = (v(), v());
    c.distinct(hash64(&[a as u64, n as u64]));
    c15_create_all(c, a, n)
}

/// A created command survives sending and receiving
fn c15_travel(c: &mut Case) -> Res {
    let p = [P::Nec, P::Sam, P::Rc5, P::Rc6, P::Sbp][(c.idx % 5) as usize];
    let (am, cm) = match p {
        P::Rc5 => (31, 63),
        P::Sbp => (65535, 255),
        _ => (255, 255),
    };
    let a = if c.rng.chance(1, 8) { am } else { c.rng.range(0, am) } as u32;
    let n = if c.rng.chance(1, 8) { cm } else { c.rng.range(0, cm) } as u32;
    let f = 40_000;
    let mut b = [0u32; 100];
    use infrared::sender::ProtocolEncoder as PE;
    const F: u32 = 40_000;
    macro_rules! cr {
        ($C:ty) => {
            match <$C>::create(a, n) {
                Some(x) => x,
                None => fail!("{} create({a}, {n}) gives nothing", p.name()),
            }
        };
    }
    let ev: Vec<Ev> = match p {
        P::Sbp => {
            let k = cr!(SbpCommand).canon();
            let w = Wins::new(p, f);
            play_frame(&frame_of(&k), &w, w.quiet(), Jit::Nominal, Marks::Nominal, &mut c.rng).0
        }
        _ => {
            let l = match p {
                P::Nec => <Nec as PE<F>>::encode(&cr!(NecCommand), &mut b),
                P::Sam => <SamsungNec as PE<F>>::encode(&cr!(SamsungNecCommand), &mut b),
                P::Rc5 => <Rc5 as PE<F>>::encode(&cr!(Rc5Command), &mut b),
                _ => <infrared::protocol::Rc6 as PE<F>>::encode(&cr!(Rc6Command), &mut b),
            };
            b[..l].iter().enumerate().map(|(i, d)| (*d as u64, i % 2 == 0)).collect()
        }
    };
    let got = commands(&feed(&mut *rx(p, f), &ev));
    let want = K {
        p,
        addr: a,
        cmd: n,
        aux: match p {
            P::Rc5 => 3,
            P::Sbp => 1,
            _ => 0,
        },
        rep: false,
    };
    if got != vec![want] {
        fail!("{} command created from ({a}, {n}) is received as {got:?}", p.name());
    }
    c.count("created_received", 1);
    c.distinct(hash64(&[p as u64, a as u64, n as u64]));
    c.sample(|| format!("{} create({a}, {n}) received as {want:?}", p.name()));
    Ok(())
}

fn c15_ids(c: &mut Case) -> Res {
    use ProtocolId as I;
    let known = [(I::Nec, 1u8), (I::Nec16, 2), (I::NecSamsung, 3), (I::NecApple, 4), (I::Rc5, 5), (I::Rc6, 6), (I::Sbp, 7), (I::Denon, 8), (I::Unknown, 255)];
    for (id, n) in known {
        if id as u8 != n || I::from(n) != id || I::from(id as u8) != id {
            fail!("protocol id {id:?}: number {}, back {:?}", id as u8, I::from(id as u8));
        }
        c.count("ids", 1);
    }
    for n in 0..=255u8 {
        let want = known.iter().find(|(_, m)| *m == n).map(|(i, _)| *i).unwrap_or(I::Unknown);
        if I::from(n) != want {
            fail!("protocol number {n} is {:?}, expected {want:?}", I::from(n));
        }
        c.enumerated(1);
    }
    let ids = [
        (<NecCommand as AddressCommand>::ID, I::Nec),
        (<SamsungNecCommand as AddressCommand>::ID, I::NecSamsung),
        (<AppleNecCommand as AddressCommand>::ID, I::NecApple),
        (<Rc5Command as AddressCommand>::ID, I::Rc5),
        (<Rc6Command as AddressCommand>::ID, I::Rc6),
        (<SbpCommand as AddressCommand>::ID, I::Sbp),
    ];
    for (a, b) in ids {
        if a != b {
            fail!("command id {a:?}, expected {b:?}");
        }
    }
    Ok(())
}
