//! Counts what one call costs: basic blocks executed (callbacks of the compiler's
//! coverage instrumentation), stack used, heap requests.

use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;

// n: blocks so far; limit: blocks at which the process is ended; low: lowest stack pointer seen
core::arch::global_asm!(
    ".section .tbss,\"awT\",@nobits",
    ".p2align 3",
    ".globl ircost_tls",
    "ircost_tls: .zero 24",
    ".text",
    ".globl __sanitizer_cov_trace_pc_guard",
    "__sanitizer_cov_trace_pc_guard:",
    "inc qword ptr fs:[ircost_tls@tpoff]",
    "cmp rsp, qword ptr fs:[ircost_tls@tpoff + 16]",
    "jae 2f",
    "mov qword ptr fs:[ircost_tls@tpoff + 16], rsp",
    "2:",
    "mov rax, qword ptr fs:[ircost_tls@tpoff + 8]",
    "test rax, rax",
    "jz 3f",
    "cmp qword ptr fs:[ircost_tls@tpoff], rax",
    "ja 4f",
    "3: ret",
    // no limit for what follows, it is instrumented too
    "4: mov qword ptr fs:[ircost_tls@tpoff + 8], 0",
    "jmp {over}",
    ".globl __sanitizer_cov_trace_pc_guard_init",
    "__sanitizer_cov_trace_pc_guard_init: ret",
    ".globl ircost_tls_addr",
    "ircost_tls_addr:",
    "mov rax, qword ptr fs:[0]",
    "lea rax, [rax + ircost_tls@tpoff]",
    "ret",
    over = sym over,
);

extern "C" {
    fn ircost_tls_addr() -> *mut [u64; 3];
}

fn tls() -> *mut [u64; 3] {
    unsafe { ircost_tls_addr() }
}

thread_local! {
    static ALLOCS: Cell<u64> = const { Cell::new(0) };
    static CTX: Cell<(&'static str, u64, &'static str)> = const { Cell::new(("", 0, "")) };
}

/// Names the case for the message of a call that does not end
pub fn ctx(workload: &'static str, idx: u64) {
    CTX.with(|c| c.set((workload, idx, "")));
}

struct Counting;
unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        ALLOCS.with(|a| a.set(a.get() + 1));
        System.alloc(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        System.dealloc(p, l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        ALLOCS.with(|a| a.set(a.get() + 1));
        System.realloc(p, l, n)
    }
}
#[global_allocator]
static A: Counting = Counting;

/// Called when a call goes on beyond its limit: ends the process with a violation
extern "C" fn over() {
    let (w, i, what) = CTX.with(|c| c.get());
    let d = std::env::var("VERIF_DIR").unwrap_or_else(|_| "/verif".into());
    let env = |k: &str, d: &str| std::env::var(k).unwrap_or_else(|_| d.into());
    let (seed, tier) = (env("VERIF_SEED", "1"), env("VERIF_TIER", "quick"));
    let msg = format!("case {i} of {w}: {what} has not ended after {} basic blocks", unsafe { (*tls())[0] });
    let _ = std::fs::create_dir_all(format!("{d}/replays"));
    let _ = std::fs::create_dir_all(format!("{d}/evidence"));
    let path = format!("{d}/replays/C25.replay");
    let _ = std::fs::write(
        &path,
        format!("property=C25\nworkload={w}\ncase={i}\nseed={seed}\ntier={tier}\nrerun: VERIF_SEED={seed} VERIF_TIER={tier} bash /verif/bin/check.sh C25 --workload {w} --case {i}\n\n{msg}\n"),
    );
    let tier = if tier == "thorough" { "thorough" } else { "quick" };
    let _ = std::fs::write(
        format!("{d}/evidence/C25.json"),
        format!("{{\"property\": \"C25\", \"tier\": \"{tier}\", \"seed\": 1, \"level\": \"exploration\", \"coverage\": {{\"evaluations\": {}, \"distinct_nontrivial\": {}, \"rule\": \"the run ended at the first violation\", \"samples\": [\"{msg}\"]}}, \"assumptions\": [], \"wall_s\": 0, \"violations\": 1}}\n", i + 1, i + 1),
    );
    println!("{msg}\nVIOLATION property=C25 replay={path}");
    std::process::exit(1);
}

#[derive(Clone, Copy, Default, Debug, PartialEq)]
pub struct Cost {
    pub blocks: u64,
    pub stack: u64,
    pub heap: u64,
}

impl Cost {
    pub fn max(self, o: Cost) -> Cost {
        Cost { blocks: self.blocks.max(o.blocks), stack: self.stack.max(o.stack), heap: self.heap.max(o.heap) }
    }
    /// What a call may cost where the dearest ordinary one costs this much. The
    /// constants leave room for rare paths that no ordinary signal takes.
    pub fn bound(self) -> Cost {
        Cost { blocks: 4 * self.blocks + 1000, stack: 2 * self.stack + 8192, heap: 0 }
    }
    pub fn within(self, b: Cost) -> bool {
        self.blocks <= b.blocks && self.stack <= b.stack && self.heap <= b.heap
    }
}

#[inline(never)]
pub fn measure<R>(what: &'static str, limit: u64, f: impl FnOnce() -> R) -> (R, Cost) {
    let c = CTX.with(|c| c.get());
    CTX.with(|x| x.set((c.0, c.1, what)));
    let sp: u64;
    unsafe { core::arch::asm!("mov {}, rsp", out(reg) sp) };
    let a = ALLOCS.with(|a| a.get());
    unsafe {
        *tls() = [0, limit, sp];
    }
    let r = f();
    let [n, _, low] = unsafe { *tls() };
    unsafe {
        (*tls())[1] = 0;
    }
    (r, Cost { blocks: n, stack: sp - low, heap: ALLOCS.with(|x| x.get()) - a })
}
