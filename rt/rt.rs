//! Native replay runtime: executes a script of operations against the real code
//! (the compiler's own output, instrumented at its atomic operations) under a
//! prescribed schedule, and prints everything observable as JSON lines.
#![allow(static_mut_refs, non_snake_case)]
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;
use std::collections::HashMap;
use std::fmt::Write as _;
use std::panic::{catch_unwind, resume_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicUsize, Ordering::*};
use std::sync::{Condvar, Mutex};

const BASE: u64 = 1 << 32;
const CLONE: u64 = 1 << 40;

// ---------------------------------------------------------------- allocator
struct Ledger;
const CAP: usize = 4096;
static LOCK: AtomicBool = AtomicBool::new(false);
// (ptr, size, align, live) of every allocation made inside an operation
static mut TABLE: [(usize, usize, usize, bool); CAP] = [(0, 0, 0, false); CAP];
static mut TABLE_N: usize = 0;
static BAD_FREE: AtomicUsize = AtomicUsize::new(0);
thread_local! {
    static IN_OP: Cell<bool> = const { Cell::new(false) };
    static TID: Cell<usize> = const { Cell::new(0) };
}
fn in_op() -> bool {
    IN_OP.try_with(|x| x.get()).unwrap_or(false)
}
fn lock() {
    while LOCK.swap(true, Acquire) {
        std::hint::spin_loop()
    }
}
fn unlock() {
    LOCK.store(false, Release)
}
fn find(p: usize) -> Option<usize> {
    unsafe { (0..TABLE_N).rev().find(|&i| TABLE[i].0 == p && TABLE[i].3) }
}
fn register(p: usize, size: usize, align: usize) {
    lock();
    unsafe {
        if TABLE_N < CAP {
            TABLE[TABLE_N] = (p, size, align, true);
            TABLE_N += 1;
        }
    }
    unlock();
}
unsafe impl GlobalAlloc for Ledger {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        let p = System.alloc(l);
        if in_op() && !p.is_null() {
            std::ptr::write_bytes(p, 0xA5, l.size());
            register(p as usize, l.size(), l.align());
        }
        p
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        lock();
        let f = find(p as usize);
        let tracked = f.is_some();
        let mut bad = false;
        if let Some(i) = f {
            let e = TABLE[i];
            if e.1 != l.size() || e.2 != l.align() {
                bad = true;
            }
            TABLE[i].3 = false;
            // quarantine: poison, never reuse
            std::ptr::write_bytes(p, 0xDE, e.1);
        } else {
            // inside an operation only memory obtained inside an operation is freed
            bad = (0..TABLE_N).any(|i| p as usize >= TABLE[i].0 && (p as usize) < TABLE[i].0 + TABLE[i].1.max(1));
            bad |= in_op();
        }
        unlock();
        if bad {
            BAD_FREE.fetch_add(1, SeqCst);
        }
        if !tracked && !bad {
            System.dealloc(p, l)
        }
    }
}
#[global_allocator]
static GLOBAL: Ledger = Ledger;

/// run without attributing allocations to the operation under test
fn outside<R>(f: impl FnOnce() -> R) -> R {
    let o = in_op();
    IN_OP.with(|x| x.set(false));
    let r = f();
    IN_OP.with(|x| x.set(o));
    r
}

// ---------------------------------------------------------------- log
static LOG: Mutex<Vec<String>> = Mutex::new(Vec::new());
fn log(s: &str) {
    outside(|| {
        let t = TID.with(|t| t.get());
        let mut l = LOG.lock().unwrap_or_else(|e| e.into_inner());
        let n = l.len();
        l.push(format!("[{},{},{}]", n, t, s));
    })
}
fn flush() {
    outside(|| {
        let l = LOG.lock().unwrap_or_else(|e| e.into_inner());
        let mut s = String::new();
        for x in l.iter() {
            let _ = writeln!(s, "{}", x);
        }
        use std::io::Write;
        let _ = std::io::stdout().write_all(s.as_bytes());
        let _ = std::io::stdout().flush();
    })
}
macro_rules! lg { ($($a:tt)*) => { outside(|| log(&format!($($a)*))) } }

// ---------------------------------------------------------------- scheduler
// Between two scheduling points a thread holds an exclusive token, so that the log
// is the real-time order of what happened.
struct Sched {
    order: Vec<usize>,
    pos: usize,
    live: Vec<bool>,
    freeze: Vec<usize>,
    running: Option<usize>,
    cur: usize,
    tail_steps: usize,
    vc: Vec<Vec<u64>>,
    // accumulated by relaxed reads until an acquire fence / set by the last release fence
    facq: Vec<Vec<u64>>,
    frel: Vec<Vec<u64>>,
    loc: HashMap<usize, Vec<u64>>,
    // plain accesses of shared memory, per byte: last write (thread, clock), last read per thread
    na: HashMap<usize, Shadow>,
    shared: Vec<(usize, usize)>,
}
#[derive(Default, Clone)]
struct Shadow {
    w: Option<(usize, u64)>,
    aw: Vec<u64>,
    r: Vec<u64>,
    ar: Vec<u64>,
}
static SCHED: Mutex<Option<Sched>> = Mutex::new(None);
static CV: Condvar = Condvar::new();
static HUNG: AtomicBool = AtomicBool::new(false);
static TAIL_LIMIT: usize = 60000;

impl Sched {
    fn turn(&mut self) -> Option<usize> {
        // the thread that may take the next visible step
        while self.pos < self.order.len() {
            let t = self.order[self.pos];
            if self.live[t] {
                return Some(t);
            }
            self.pos += 1;
        }
        // the prescribed part is over: a frozen thread stops for good
        let n = self.live.len();
        for k in 0..n {
            let t = (self.cur + k) % n;
            if self.live[t] && !self.freeze.contains(&t) {
                return Some(t);
            }
        }
        None
    }
}

/// give up the token, wait for this thread's turn, then take one step
fn point() {
    let t = TID.with(|t| t.get());
    if t == 0 {
        if MAIN_STEPS.fetch_add(1, Relaxed) > 3_000_000 {
            finish_hang();
        }
        return;
    }
    outside(|| {
        let me = t - 1;
        let mut g = SCHED.lock().unwrap_or_else(|e| e.into_inner());
        if g.as_ref().unwrap().running == Some(me) {
            g.as_mut().unwrap().running = None;
            CV.notify_all();
        }
        loop {
            let s = g.as_mut().unwrap();
            if HUNG.load(SeqCst) {
                drop(g);
                finish_hang();
            }
            if s.running.is_none() && s.turn() == Some(me) {
                s.running = Some(me);
                if s.pos < s.order.len() {
                    s.pos += 1;
                } else {
                    s.tail_steps += 1;
                    if s.tail_steps > TAIL_LIMIT {
                        HUNG.store(true, SeqCst);
                        CV.notify_all();
                        drop(g);
                        finish_hang();
                    }
                    // after the prescribed part: round robin
                    s.cur = (me + 1) % s.live.len();
                }
                s.vc[me][me] += 1;
                return;
            }
            g = CV.wait(g).unwrap_or_else(|e| e.into_inner());
        }
    })
}
static MAIN_STEPS: AtomicUsize = AtomicUsize::new(0);
static FINISHING: AtomicBool = AtomicBool::new(false);
fn finish_hang() -> ! {
    if !FINISHING.swap(true, SeqCst) {
        log("\"hang\"");
        flush();
        std::process::exit(0);
    }
    loop {
        std::thread::sleep(std::time::Duration::from_millis(50));
    }
}
fn join_vc(a: &mut [u64], b: &[u64]) {
    for (x, y) in a.iter_mut().zip(b) {
        *x = (*x).max(*y)
    }
}

/// called before each atomic operation of the code under test.
/// kind: 0 load, 1 store, 2 rmw, 3 cas, 4 fence; ord: bit0 acquire, bit1 release
#[no_mangle]
pub extern "C" fn rt_pre(addr: *mut u8, kind: u32, ord: u32) {
    if kind != 4 {
        point();
    }
    let t = TID.with(|t| t.get());
    if t == 0 || kind == 3 {
        return;
    }
    outside(|| hb(addr as usize, kind, ord, t - 1));
}
#[no_mangle]
pub extern "C" fn rt_cas(addr: *mut u8, ok: bool, ord: u32, ford: u32) {
    let t = TID.with(|t| t.get());
    if t == 0 {
        return;
    }
    outside(|| {
        if ok {
            hb(addr as usize, 2, ord, t - 1)
        } else {
            hb(addr as usize, 0, ford, t - 1)
        }
    });
}
fn hb(addr: usize, kind: u32, ord: u32, t: usize) {
    let mut g = SCHED.lock().unwrap_or_else(|e| e.into_inner());
    let s = g.as_mut().unwrap();
    let n = s.live.len();
    if kind == 4 {
        if ord & 1 != 0 {
            let f = s.facq[t].clone();
            join_vc(&mut s.vc[t], &f);
        }
        if ord & 2 != 0 {
            s.frel[t] = s.vc[t].clone();
        }
        return;
    }
    let mut race = false;
    if s.shared.iter().any(|x| addr >= x.0 && addr < x.0 + x.1) {
        race = touch(s, addr, t, kind != 0, true);
    }
    let l = s.loc.entry(addr).or_insert_with(|| vec![0; n]);
    let old = l.clone();
    match kind {
        1 => *l = if ord & 2 != 0 { s.vc[t].clone() } else { s.frel[t].clone() },
        2 => {
            let v = if ord & 2 != 0 { &s.vc[t] } else { &s.frel[t] };
            join_vc(l, v);
        }
        _ => {}
    }
    if kind != 1 {
        if ord & 1 != 0 {
            join_vc(&mut s.vc[t], &old)
        } else {
            join_vc(&mut s.facq[t], &old)
        }
    }
    drop(g);
    if race {
        log("\"race\"");
    }
}
/// records an access of a shared byte; true if it races with an earlier one
fn touch(s: &mut Sched, a: usize, t: usize, write: bool, atomic: bool) -> bool {
    let n = s.live.len();
    let now = s.vc[t].clone();
    let e = s.na.entry(a).or_default();
    if e.r.is_empty() {
        e.r = vec![0; n];
        e.ar = vec![0; n];
        e.aw = vec![0; n];
    }
    let mut bad = false;
    // against earlier plain accesses
    if let Some((o, c)) = e.w {
        bad |= o != t && now[o] < c;
    }
    for o in 0..n {
        if o == t {
            continue;
        }
        if write {
            bad |= now[o] < e.r[o];
        }
        if !atomic {
            bad |= now[o] < e.aw[o];
            if write {
                bad |= now[o] < e.ar[o];
            }
        }
    }
    let c = now[t];
    match (write, atomic) {
        (true, false) => e.w = Some((t, c)),
        (true, true) => e.aw[t] = c,
        (false, false) => e.r[t] = c,
        (false, true) => e.ar[t] = c,
    }
    bad
}
/// called before each plain memory access of the code under test
#[no_mangle]
pub extern "C" fn rt_na(addr: *mut u8, size: u64, write: u32) {
    let t = TID.try_with(|t| t.get()).unwrap_or(0);
    if t == 0 || size == 0 {
        return;
    }
    let a = addr as usize;
    outside(|| {
        let mut g = SCHED.lock().unwrap_or_else(|e| e.into_inner());
        let s = g.as_mut().unwrap();
        let mut bad = false;
        let sz = size as usize;
        for k in 0..s.shared.len() {
            let (b, n) = s.shared[k];
            let lo = a.max(b);
            let hi = (a + sz).min(b + n);
            for x in lo..hi.max(lo) {
                bad |= touch(s, x, t - 1, write != 0, false);
            }
        }
        drop(g);
        if bad {
            log("\"race\"");
        }
    });
}
fn probe_access(id: u64, write: bool) {
    let t = TID.with(|t| t.get());
    if t == 0 {
        return;
    }
    outside(|| {
        let mut g = SCHED.lock().unwrap_or_else(|e| e.into_inner());
        let bad = touch(g.as_mut().unwrap(), usize::MAX - id as usize, t - 1, write, false);
        drop(g);
        if bad {
            log("\"race\"");
        }
    });
}

// ---------------------------------------------------------------- environment
struct ProbeState {
    len: u64,
    fused: bool,
    hint: u64, // 0 exact, 1 (0,None), 2 (0,Some(len+1)), 3 (len,None), 4 (len-slack.0,Some(len+slack.1))
    slack: (usize, usize),
    panic_at: i64,
    calls: u64,
    pos: u64,
    refs: usize,
    esz: usize,
}
static PROBES: Mutex<Vec<(u64, ProbeState)>> = Mutex::new(Vec::new());
static IN_PROBE: AtomicUsize = AtomicUsize::new(0);
static CLONE_PANIC: AtomicUsize = AtomicUsize::new(usize::MAX);
static USER_PANIC: AtomicUsize = AtomicUsize::new(usize::MAX);
static CLONES: AtomicUsize = AtomicUsize::new(0);
static USERS: AtomicUsize = AtomicUsize::new(0);
// the thread whose clones / closure calls are counted (TID)
static PANIC_THREAD: AtomicUsize = AtomicUsize::new(usize::MAX);
fn counted() -> bool {
    let p = PANIC_THREAD.load(SeqCst);
    p == usize::MAX || p == TID.with(|t| t.get())
}

struct Boom;

#[no_mangle]
pub extern "C" fn env_item(h: u64, i: usize, v: u64) {
    lg!("\"item\",{},{},{}", h, i, v)
}
#[no_mangle]
pub extern "C" fn env_end() {
    log("\"end\"")
}
#[no_mangle]
pub extern "C" fn env_chunk(b: usize, n: usize) {
    lg!("\"chunk\",{},{}", b, n)
}
#[no_mangle]
pub extern "C" fn env_elem(v: u64) {
    lg!("\"elem\",{}", v)
}
#[no_mangle]
pub extern "C" fn env_len(n: usize) {
    lg!("\"len\",{}", n)
}
#[no_mangle]
pub extern "C" fn env_chunk_done() {
    log("\"chunk_done\"")
}
#[no_mangle]
pub extern "C" fn env_chunk_drop() {
    log("\"chunk_drop\"")
}
#[no_mangle]
pub extern "C" fn env_try_len(s: u64, n: usize) {
    lg!("\"trylen\",{},{}", s, n)
}
#[no_mangle]
pub extern "C" fn env_more(t: u64, n: usize) {
    lg!("\"more\",{},{}", t, n)
}
#[no_mangle]
pub extern "C" fn env_seq_hint(lo: usize, h: u64, hi: usize) {
    lg!("\"seq_hint\",{},{},{}", lo, h, hi)
}
#[no_mangle]
pub extern "C" fn env_seq(v: u64) {
    lg!("\"seq\",{}", v)
}
#[no_mangle]
pub extern "C" fn env_seq_done() {
    log("\"seq_done\"")
}
#[no_mangle]
pub extern "C" fn env_fold_result(r: u64) {
    lg!("\"foldres\",{}", r)
}
#[no_mangle]
pub extern "C" fn env_obs(t: u64, a: usize, b: usize) {
    lg!("\"obs\",{},{},{}", t, a, b)
}
#[no_mangle]
pub extern "C" fn tok_drop(id: u64) {
    lg!("\"drop\",{}", id)
}
#[no_mangle]
pub extern "C" fn probe_drop(id: u64) {
    lg!("\"probe_drop\",{}", id)
}
#[no_mangle]
pub extern "C-unwind" fn tok_clone(id: u64) -> u64 {
    let c = counted();
    let k = if c { CLONES.fetch_add(1, SeqCst) } else { 0 };
    if c && k == CLONE_PANIC.load(SeqCst) {
        lg!("\"clone_panic\",{}", id);
        resume_unwind(Box::new(Boom));
    }
    lg!("\"clone\",{}", id);
    id.wrapping_add(CLONE)
}
fn user_maybe_panic() {
    let c = counted();
    let k = if c { USERS.fetch_add(1, SeqCst) } else { 0 };
    if c && k == USER_PANIC.load(SeqCst) {
        log("\"user_panic\"");
        resume_unwind(Box::new(Boom));
    }
}
#[no_mangle]
pub extern "C-unwind" fn env_user(h: u64, i: usize, v: u64) {
    lg!("\"user\",{},{},{}", h, i, v);
    user_maybe_panic();
}
#[no_mangle]
pub extern "C-unwind" fn env_fold(acc: u64, v: u64) -> u64 {
    lg!("\"fold\",{},{}", acc, v);
    user_maybe_panic();
    acc.wrapping_add(v)
}
#[no_mangle]
pub unsafe extern "C-unwind" fn probe_next(id: u64, out: *mut u64) -> u64 {
    point();
    probe_access(id, true);
    if IN_PROBE.fetch_add(1, SeqCst) != 0 {
        log("\"overlap\"");
    }
    let r = outside(|| {
        let mut g = PROBES.lock().unwrap_or_else(|e| e.into_inner());
        let p = &mut g.iter_mut().find(|x| x.0 == id).unwrap().1;
        let call = p.calls;
        p.calls += 1;
        if call as i64 == p.panic_at {
            lg!("\"probe_panic\",{}", id);
            return 2;
        }
        // nonfused: after the first None the iterator would produce further items
        if p.pos == p.len || (p.fused && p.pos > p.len) {
            p.pos = p.pos.saturating_add(1);
            lg!("\"probe\",{},{}", id, -1);
            return 0;
        }
        let k = if p.pos > p.len { p.pos - 1 } else { p.pos };
        p.pos += 1;
        lg!("\"probe\",{},{}", id, k);
        *out = if p.refs != 0 { (p.refs + k as usize * p.esz) as u64 } else { BASE + k };
        1
    });
    IN_PROBE.fetch_sub(1, SeqCst);
    if r == 2 {
        resume_unwind(Box::new(Boom));
    }
    r
}
#[no_mangle]
pub unsafe extern "C-unwind" fn probe_hint(id: u64, lo: *mut usize, hi: *mut usize) -> u64 {
    probe_access(id, false);
    outside(|| {
        let g = PROBES.lock().unwrap_or_else(|e| e.into_inner());
        let p = &g.iter().find(|x| x.0 == id).unwrap().1;
        let rest = p.len.saturating_sub(p.pos) as usize;
        match p.hint {
            0 => {
                *lo = rest;
                *hi = rest;
                1
            }
            1 => {
                *lo = 0;
                0
            }
            2 => {
                *lo = 0;
                *hi = rest + 1;
                1
            }
            4 => {
                *lo = rest.saturating_sub(p.slack.0);
                *hi = rest + p.slack.1;
                1
            }
            _ => {
                *lo = rest;
                0
            }
        }
    })
}

// ---------------------------------------------------------------- operation table
type F = unsafe extern "C-unwind" fn(usize, usize, usize, usize) -> usize;
macro_rules! table {
    ($($k:literal),*; $($c:literal),*) => {{
        let mut m: HashMap<String, F> = HashMap::new();
        $( table!(@kind m, $k); )*
        $( table!(@op m, $c, "_clone"); )*
        table!(@op m, "VS", "_check");
        table!(@op m, "VS", "_fin");
        #[cfg(ll)]
        { table!(@ll m, "V"); table!(@ll m, "A2"); table!(@ll m, "I"); }
        m
    }};
    (@kind $m:ident, $k:literal) => {
        table!(@op $m, $k, "_size"); table!(@op $m, $k, "_new"); table!(@op $m, $k, "_next_id"); table!(@op $m, $k, "_next");
        table!(@op $m, $k, "_chunk"); table!(@op $m, $k, "_buf_new"); table!(@op $m, $k, "_buf_next"); table!(@op $m, $k, "_buf_drop");
        table!(@op $m, $k, "_values"); table!(@op $m, $k, "_vals_new"); table!(@op $m, $k, "_vals_next"); table!(@op $m, $k, "_vals_drop");
        table!(@op $m, $k, "_idv_new"); table!(@op $m, $k, "_idv_next"); table!(@op $m, $k, "_idv_drop"); table!(@op $m, $k, "_ids"); table!(@op $m, $k, "_try_len"); table!(@op $m, $k, "_more");
        table!(@op $m, $k, "_skip"); table!(@op $m, $k, "_for_each"); table!(@op $m, $k, "_for_each_id"); table!(@op $m, $k, "_fold");
        table!(@op $m, $k, "_into_seq"); table!(@op $m, $k, "_drop");
    };
    (@ll $m:ident, $k:literal) => {
        table!(@op $m, $k, "_ll0"); table!(@op $m, $k, "_ll1"); table!(@op $m, $k, "_ll2"); table!(@op $m, $k, "_ll3"); table!(@op $m, $k, "_ll4"); table!(@op $m, $k, "_ll5"); table!(@op $m, $k, "_ll6"); table!(@op $m, $k, "_ll7"); table!(@op $m, $k, "_ll8"); table!(@op $m, $k, "_ll9"); table!(@op $m, $k, "_ll10"); table!(@op $m, $k, "_ll11"); table!(@op $m, $k, "_ll12"); table!(@op $m, $k, "_ll13"); table!(@op $m, $k, "_ll14"); table!(@op $m, $k, "_ll15"); table!(@op $m, $k, "_ll16"); table!(@op $m, $k, "_ll17"); table!(@op $m, $k, "_ll18"); table!(@op $m, $k, "_ll19"); table!(@op $m, $k, "_ll20"); table!(@op $m, $k, "_ll21"); table!(@op $m, $k, "_ll22"); table!(@op $m, $k, "_ll23");
    };
    (@op $m:ident, $k:literal, $o:literal) => {{
        extern "C-unwind" {
            #[link_name = concat!($k, $o)]
            fn f(a: usize, b: usize, c: usize, d: usize) -> usize;
        }
        $m.insert(concat!($k, $o).to_string(), f as F);
    }};
}

#[derive(Clone)]
struct Op {
    name: String,
    it: usize,
    a: Vec<usize>,
}

static ITERS: Mutex<Vec<usize>> = Mutex::new(Vec::new());
static ISIZES: Mutex<Vec<(usize, usize)>> = Mutex::new(Vec::new());
static BUFS: Mutex<Vec<usize>> = Mutex::new(Vec::new());

fn run_op(tab: &HashMap<String, F>, kinds: &[String], op: &Op, idx: usize) {
    lg!("\"op\",{},\"{}\",{}", idx, op.name, op.it);
    let con = ITERS.lock().unwrap_or_else(|e| e.into_inner()).get(op.it).copied().unwrap_or(0);
    let k = kinds.get(op.it).cloned().unwrap_or_default();
    let a = |i: usize| op.a.get(i).copied().unwrap_or(0);
    let f = |n: &str| *tab.get(&format!("{}_{}", k, n)).unwrap_or_else(|| panic!("no function {}_{}", k, n));
    let r = unsafe {
        let (f, x): (F, [usize; 4]) = match op.name.as_str() {
            "buf_new" => (f("buf_new"), [con, a(1), 0, 0]),
            "vals_new" | "idv_new" => (f(&op.name), [con, 0, 0, 0]),
            "buf_next" | "buf_drop" | "vals_next" | "vals_drop" | "idv_next" | "idv_drop" => {
                let b = BUFS.lock().unwrap_or_else(|e| e.into_inner())[a(0)];
                (f(&op.name), [con, b, a(1), 0])
            }
            "clone" => {
                let sz = f("size")(0, 0, 0, 0);
                let p = outside(|| System.alloc(Layout::from_size_align(sz.max(8), 16).unwrap())) as usize;
                let mut it = ITERS.lock().unwrap_or_else(|e| e.into_inner());
                while it.len() <= a(0) {
                    it.push(0);
                }
                it[a(0)] = p;
                (f("clone"), [con, p, 0, 0])
            }
            "check" | "fin" => (f(&op.name), [a(0), 0, 0, 0]),
            n => (f(n), [con, a(0), a(1), a(2)]),
        };
        IN_OP.with(|x| x.set(true));
        let r = catch_unwind(AssertUnwindSafe(|| f(x[0], x[1], x[2], x[3])));
        IN_OP.with(|x| x.set(false));
        r
    };
    match r {
        Ok(v) => {
            if op.name == "buf_new" || op.name == "vals_new" || op.name == "idv_new" {
                let mut b = BUFS.lock().unwrap_or_else(|e| e.into_inner());
                while b.len() <= a(0) {
                    b.push(0);
                }
                b[a(0)] = v;
            }
            lg!("\"ret\",{}", idx)
        }
        Err(e) => {
            let own = e.downcast_ref::<Boom>().is_some();
            drop(e);
            lg!("\"panicked\",{},{}", idx, own)
        }
    }
}

fn num(s: &str) -> usize {
    if let Some(x) = s.strip_prefix('-') {
        (x.parse::<i64>().unwrap()).wrapping_neg() as usize
    } else {
        s.parse::<usize>().unwrap()
    }
}

fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    let tab: HashMap<String, F> = table!("S", "VS", "AS3", "CS", "PS", "SC", "V", "VW", "VZ", "A0", "A1", "A2", "A3", "A4", "AW2", "AZ3",
        "R", "RC", "I", "RI", "CI", "RCI", "PI"; "S", "VS", "AS3", "SC", "R", "RC");
    let script = std::fs::read_to_string(std::env::args().nth(1).unwrap()).unwrap();
    let mut kinds: Vec<String> = vec![];
    let mut pre: Vec<Op> = vec![];
    let mut post: Vec<Op> = vec![];
    let mut threads: Vec<Vec<Op>> = vec![];
    let mut frozen: Vec<usize> = vec![];
    let mut order: Vec<usize> = vec![];
    let mut src = (0usize, 0usize); // address, bytes
    let mut src_words = 0usize;
    let mut vec_aux = 0usize;
    for line in script.lines() {
        let w: Vec<&str> = line.split_whitespace().collect();
        if w.is_empty() {
            continue;
        }
        match w[0] {
            // src <count> <words per element> <heap?> <capacity>
            "src" => {
                let (n, words, heap, cap) = (num(w[1]), num(w[2]), num(w[3]), num(w[4]));
                let bytes = cap * words * 8;
                let p = if heap == 1 && bytes > 0 {
                    let p = unsafe { System.alloc(Layout::from_size_align(bytes, 8).unwrap()) } as usize;
                    register(p, bytes, 8);
                    p
                } else if bytes > 0 {
                    unsafe { System.alloc(Layout::from_size_align(bytes, 8).unwrap()) as usize }
                } else {
                    8
                };
                for i in 0..n {
                    for j in 0..words {
                        unsafe { *((p + (i * words + j) * 8) as *mut u64) = BASE + i as u64 };
                    }
                }
                src = (p, bytes);
                src_words = n * words;
                lg!("\"src\",{},{}", p, bytes);
            }
            // probe <id> <len> <fused> <hint> <panic_at> <refs?>
            "probe" => {
                let st = ProbeState {
                    len: num(w[2]) as u64,
                    fused: w[3] == "1",
                    hint: num(w[4]) as u64,
                    slack: if w.len() > 8 { (num(w[7]), num(w[8])) } else { (0, 0) },
                    panic_at: w[5].parse().unwrap(),
                    calls: 0,
                    pos: 0,
                    refs: if w[6] == "1" { src.0 } else { 0 },
                    esz: 8,
                };
                PROBES.lock().unwrap().push((num(w[1]) as u64, st));
            }
            "panic_thread" => PANIC_THREAD.store(num(w[1]) + 1, SeqCst),
            "clone_panic" => CLONE_PANIC.store(num(w[1]), SeqCst),
            "user_panic" => USER_PANIC.store(num(w[1]), SeqCst),
            // new <iter index> <kind> <a> <b> <c>   ("src"/"aux" stand for the addresses)
            "new" => {
                let i = num(w[1]);
                while kinds.len() <= i {
                    kinds.push(String::new());
                }
                kinds[i] = w[2].to_string();
                if vec_aux == 0 {
                    vec_aux = unsafe { System.alloc(Layout::from_size_align(64, 16).unwrap()) } as usize;
                }
                let val = |s: &str| match s {
                    "src" => src.0,
                    "aux" => vec_aux,
                    x => num(x),
                };
                let k = w[2];
                let sz = unsafe { tab[&format!("{}_size", k)](0, 0, 0, 0) };
                let p = unsafe { System.alloc(Layout::from_size_align(sz.max(8), 16).unwrap()) } as usize;
                {
                    let mut it = ITERS.lock().unwrap();
                    while it.len() <= i {
                        it.push(0);
                    }
                    it[i] = p;
                }
                ISIZES.lock().unwrap().push((p, sz.max(8)));
                let (a, b, c) = (val(w[3]), val(w[4]), val(w[5]));
                let f = tab[&format!("{}_new", k)];
                IN_OP.with(|x| x.set(true));
                let r = catch_unwind(AssertUnwindSafe(|| unsafe { f(p, a, b, c) }));
                IN_OP.with(|x| x.set(false));
                if r.is_err() {
                    log("\"new_panicked\"");
                }
            }
            // op <pre|post|thread number> <iter> <name> args
            "kindof" => {
                let i = num(w[1]);
                while kinds.len() <= i {
                    kinds.push(String::new());
                }
                kinds[i] = w[2].to_string();
            }
            "op" => {
                let o = Op {
                    name: w[3].to_string(),
                    it: num(w[2]),
                    a: w[4..].iter().map(|x| if *x == "aux" { vec_aux } else { num(x) }).collect(),
                };
                match w[1] {
                    "pre" => pre.push(o),
                    "post" => post.push(o),
                    t => {
                        let t = num(t);
                        while threads.len() <= t {
                            threads.push(vec![]);
                        }
                        threads[t].push(o);
                    }
                }
            }
            "order" => order.extend(w[1..].iter().map(|x| num(x))),
            "freeze" => frozen.push(num(w[1])),
            _ => panic!("bad line {}", line),
        }
    }
    let mut idx = 0;
    for o in &pre {
        run_op(&tab, &kinds, o, idx);
        idx += 1;
    }
    if !threads.is_empty() {
        let n = threads.len();
        let mut shared: Vec<(usize, usize)> = ISIZES.lock().unwrap().clone();
        if src.1 > 0 {
            shared.push(src);
        }
        unsafe {
            for i in 0..TABLE_N {
                if TABLE[i].3 && TABLE[i].0 != src.0 {
                    shared.push((TABLE[i].0, TABLE[i].1));
                }
            }
        }
        let freeze_any = !frozen.is_empty();
        let zero = || (0..n).map(|_| vec![0u64; n]).collect::<Vec<_>>();
        *SCHED.lock().unwrap() = Some(Sched {
            order,
            pos: 0,
            live: vec![true; n],
            freeze: frozen.clone(),
            running: None,
            cur: 0,
            tail_steps: 0,
            vc: (0..n).map(|i| (0..n).map(|j| (i == j) as u64).collect()).collect(),
            facq: zero(),
            frel: zero(),
            loc: HashMap::new(),
            na: HashMap::new(),
            shared,
        });
        std::thread::scope(|s| {
            let mut base = idx;
            for (t, ops) in threads.iter().enumerate() {
                let (tab, kinds) = (&tab, &kinds);
                let b = base;
                base += ops.len();
                let frozen = &frozen;
                s.spawn(move || {
                    TID.with(|x| x.set(t + 1));
                    for (j, o) in ops.iter().enumerate() {
                        point();
                        run_op(tab, kinds, o, b + j);
                    }
                    let mut g = SCHED.lock().unwrap_or_else(|e| e.into_inner());
                    let sc = g.as_mut().unwrap();
                    sc.live[t] = false;
                    if sc.running == Some(t) {
                        sc.running = None;
                    }
                    if freeze_any && sc.pos >= sc.order.len() && (0..n).all(|i| !sc.live[i] || frozen.contains(&i)) && (0..n).any(|i| sc.live[i]) {
                        // everybody but the frozen threads is done
                        drop(g);
                        log("\"others_done\"");
                        flush();
                        std::process::exit(0);
                    }
                    CV.notify_all();
                });
            }
        });
        idx += threads.iter().map(|x| x.len()).sum::<usize>();
        log("\"joined\"");
    }
    for o in &post {
        run_op(&tab, &kinds, o, idx);
        idx += 1;
    }
    // final ledgers
    unsafe {
        for i in 0..TABLE_N {
            if TABLE[i].3 {
                lg!("\"live\",{},{}", TABLE[i].0, TABLE[i].1);
            }
        }
    }
    let mut words = String::new();
    for i in 0..src_words.min(64) {
        let _ = write!(words, "{}{}", if i > 0 { "," } else { "" }, unsafe { *((src.0 + i * 8) as *const u64) });
    }
    lg!("\"srcmem\",[{}]", words);
    lg!("\"badfree\",{}", BAD_FREE.load(SeqCst));
    log("\"finished\"");
    flush();
}
