//! Signal generators shared by the monitors.

use crate::fw::Rng;
use crate::spec::*;

/// A length inside a window, plus a multiple of a power of two: what a counter
/// that is too narrow would make a window of
pub fn alias(w: &Wins, rng: &mut Rng) -> u64 {
    let v = *rng.pick(&w.w);
    if v.acc.0 > v.acc.1 {
        return w.quiet();
    }
    let s = *rng.pick(&[8u64, 12, 15, 16, 16, 16, 20, 24, 28, 30]);
    let k = if s < 24 { rng.range(1, 4) } else { 1 };
    (rng.range(v.acc.0, v.acc.1) + (k << s)).min((1 << 31) - 1)
}

/// A pause longer than any interval of the protocol, in ticks
pub fn pause(w: &Wins, rng: &mut Rng) -> u64 {
    let q = w.quiet();
    let v = match rng.below(9) {
        8 => alias(w, rng),
        0 => q,
        1 => q + rng.below(5),
        2 => q + q / 4 + rng.below(q),
        3 => rng.range(q, 20 * q),
        4 => rng.range(q, 1 << 31),
        5 => (1 << 31) - rng.below(5),
        _ => rng.range(2 * q, 6 * q),
    };
    v.clamp(q, 1 << 31)
}

/// A short pause (cheap to poll)
pub fn short_pause(w: &Wins, rng: &mut Rng) -> u64 {
    let q = w.quiet();
    rng.range(q, 2 * q)
}

/// A duration that is in no window
pub fn outside(w: &Wins, rng: &mut Rng) -> u64 {
    for _ in 0..200 {
        let q = w.quiet();
        let x = match rng.below(11) {
            10 => alias(w, rng),
            0 => 0,
            1 => 1,
            2 => q + rng.below(q * 3),
            3 => rng.range(q, (1 << 31) - 1),
            // close to a window
            4 | 5 => {
                let v = rng.pick(&w.w);
                v.maybe.1 + 1 + rng.below(3)
            }
            6 | 7 => {
                let v = rng.pick(&w.w);
                v.maybe.0.saturating_sub(1 + rng.below(3))
            }
            _ => rng.below(q),
        };
        if w.surely_out(x) {
            return x;
        }
    }
    w.quiet()
}

/// Any duration whose class is unambiguous
pub fn clear_ticks(w: &Wins, rng: &mut Rng) -> u64 {
    for _ in 0..100 {
        let x = match rng.below(6) {
            0 => outside(w, rng),
            1 => rng.below(w.quiet() + 1),
            _ => {
                let v = rng.pick(&w.w);
                if v.acc.0 > v.acc.1 {
                    continue;
                }
                rng.range(v.acc.0, v.acc.1)
            }
        };
        if w.class(x).is_some() {
            return x;
        }
    }
    0
}

/// A list of unambiguous intervals mixing frames, broken frames, repeats and
/// noise. Pulse distance: rise-to-rise intervals. Bi-phase: edge-to-edge
/// intervals; the first one follows a rising edge.
pub fn tokens(p: P, w: &Wins, segs: u64, rng: &mut Rng, big: bool) -> Vec<u64> {
    let mut out: Vec<u64> = vec![];
    let bi = p.style() == Style::Bi;
    for _ in 0..segs {
        let jit = *rng.pick(&[Jit::Nominal, Jit::Any, Jit::Extreme]);
        let mut seg: Vec<u64> = vec![];
        let kind = rng.below(10);
        match kind {
            0..=5 => {
                let fr = random_frame(p, rng);
                seg.extend(fr.syms.iter().map(|s| pick_ticks(&w.w[*s as usize], jit, rng)));
                match kind {
                    3 => {
                        let n = rng.below(seg.len() as u64) as usize;
                        seg.truncate(n);
                    }
                    4 => {
                        let n = rng.below(seg.len() as u64) as usize;
                        seg[n] = if big { outside(w, rng) } else { outside(w, rng) % (2 * w.quiet()) };
                    }
                    5 => {
                        // swap a symbol for another one
                        let n = rng.below(seg.len() as u64) as usize;
                        seg[n] = clear_ticks(w, rng) % (4 * w.quiet());
                    }
                    _ => {}
                }
            }
            6 if rng.chance(1, 8) => {
                // a drone: the same symbol over and over
                let v = *rng.pick(&w.w);
                if v.acc.0 <= v.acc.1 {
                    let n = rng.range(30, 300);
                    let x = rng.range(v.acc.0, v.acc.1);
                    if rng.bool() {
                        // after the start of a frame
                        let fr = random_frame(p, rng);
                        let k = rng.below(fr.syms.len() as u64) as usize;
                        seg.extend(fr.syms[..k].iter().map(|s| pick_ticks(&w.w[*s as usize], jit, rng)));
                    }
                    seg.extend((0..n).map(|_| x));
                }
            }
            6 => {
                let n = rng.range(1, 60);
                for _ in 0..n {
                    let v = *rng.pick(&w.w);
                    if v.acc.0 <= v.acc.1 {
                        seg.push(rng.range(v.acc.0, v.acc.1));
                    }
                }
            }
            7 => {
                let n = rng.range(1, 20);
                for _ in 0..n {
                    seg.push(clear_ticks(w, rng) % (4 * w.quiet()));
                }
            }
            8 => {
                if p.is_nec() {
                    seg.push(pick_ticks(&w.w[1], jit, rng));
                } else {
                    seg.push(0);
                }
            }
            _ => {
                let n = rng.range(1, 3);
                for _ in 0..n {
                    seg.push(outside(w, rng) % (2 * w.quiet()));
                }
            }
        }
        // separate from what was before
        let sep = rng.below(10) < 7;
        if !out.is_empty() && sep {
            out.push(if big { pause(w, rng) } else { short_pause(w, rng) });
        }
        if bi && out.len() % 2 == 1 {
            // the last edge was a falling one; get to a rising edge
            out.push(if sep {
                if big { pause(w, rng) } else { short_pause(w, rng) }
            } else {
                clear_ticks(w, rng) % (4 * w.quiet())
            });
        }
        out.extend(seg);
    }
    for x in out.iter_mut() {
        let mut n = 0;
        while w.class(*x).is_none() {
            *x = if n < 20 { clear_ticks(w, rng) % (4 * w.quiet()) } else { 0 };
            n += 1;
        }
    }
    out
}

/// Edges for an interval list; the first edge is rising and `lead` after the start
pub fn to_events(p: P, w: &Wins, ivs: &[u64], lead: u64, min1: bool, rng: &mut Rng) -> Vec<Ev> {
    let mut ev = vec![(lead, true)];
    match p.style() {
        Style::Pd => {
            for r in ivs {
                let m = match rng.below(4) {
                    0 => r / 2,
                    1 => rng.range(0, *r),
                    2 => (*r).min(1),
                    _ => (w.f as u64 * 560 / 1_000_000).min(*r),
                };
                let m = if min1 && *r >= 2 { m.clamp(1, r - 1) } else { m };
                ev.push((m, false));
                ev.push((r - m, true));
            }
        }
        Style::Bi => {
            let mut e = true;
            for r in ivs {
                e = !e;
                ev.push((*r, e));
            }
        }
    }
    ev
}

/// Edges in any order with any durations
pub fn chaos(n: u64, f: u32, rng: &mut Rng) -> Vec<Ev> {
    let mut v = vec![];
    let alt = rng.bool();
    let mut e = rng.bool();
    for _ in 0..n {
        let d = match rng.below(12) {
            0 => 0,
            1 => u32::MAX as u64,
            2 => u32::MAX as u64 - rng.below(100),
            3 => 1 << rng.below(32),
            4 => (1u64 << rng.range(1, 32)) - 1,
            5 => rng.next() & 0xffff_ffff,
            _ => {
                // about the size of real intervals
                let us = *rng.pick(&[
                    444u64, 480, 500, 560, 840, 888, 889, 1000, 1120, 1332, 1680, 1778, 2000, 2250, 2664,
                    4500, 5000, 9000, 11250, 13500, 1200, 1500, 360, 1690,
                ]);
                let t = us as f64 * f as f64 / 1e6 * (0.85 + 0.3 * rng.f01());
                (t as u64).min(u32::MAX as u64)
            }
        };
        e = if alt { !e } else { rng.bool() };
        v.push((d, e));
    }
    v
}
