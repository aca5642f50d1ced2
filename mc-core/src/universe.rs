//! A `Universe` owns every node block and every element instance of one execution, so that an
//! execution can be started from nothing and its leftovers inspected.
use std::cell::{Cell, UnsafeCell};
use std::collections::HashMap;

pub const ALIVE: u32 = 0xA11_5E;
pub const FREED: u32 = 0xDEAD;

#[repr(C)]
pub struct Hdr {
    pub state: u32,
    pub id: u32,
    pub count: usize,
    pub vsize: u32,
    pub setup: bool,
}

#[derive(Clone, Copy, Default, Debug, PartialEq, Eq)]
pub struct Counters {
    pub alloc: u64,
    pub freed: u64,
    pub rc_clone: u64,
    pub rc_drop: u64,
    pub deref: u64,
    pub copy: u64, // make_mut that had to copy
    pub uniq: u64, // make_mut / get_mut / try_unwrap calls
    pub eq: u64,
    pub cmp: u64,
    pub hash: u64,
    pub tclone: u64,
    pub tdrop: u64,
}

impl Counters {
    pub fn since(&self, o: &Counters) -> Counters {
        Counters {
            alloc: self.alloc - o.alloc,
            freed: self.freed - o.freed,
            rc_clone: self.rc_clone - o.rc_clone,
            rc_drop: self.rc_drop - o.rc_drop,
            deref: self.deref - o.deref,
            copy: self.copy - o.copy,
            uniq: self.uniq - o.uniq,
            eq: self.eq - o.eq,
            cmp: self.cmp - o.cmp,
            hash: self.hash - o.hash,
            tclone: self.tclone - o.tclone,
            tdrop: self.tdrop - o.tdrop,
        }
    }
    /// Everything a structure can spend time on, seen from its parameters.
    pub fn work(&self) -> u64 {
        self.alloc + self.freed + self.rc_clone + self.rc_drop + self.uniq + self.eq + self.cmp + self.hash
            + self.tclone + self.deref
    }
}

/// Callback kinds at which a fault can be injected.
pub const K_EQ: u32 = 1;
pub const K_CMP: u32 = 2;
pub const K_HASH: u32 = 4;
pub const K_CLONE: u32 = 8;
pub const K_DROP: u32 = 16;
pub const K_ITER: u32 = 32;
pub const K_FMT: u32 = 64;
pub const K_ALL: u32 = 127;

pub struct Fault {
    pub mask: u32,
    pub left: u64, // 0 = disarmed; otherwise fires when it counts down to 0
    pub seen: u64,
    pub fired: bool,
}

/// Payload of an injected panic.
pub struct Injected;

pub struct Trace {
    pub h: [u64; 2],
    pub ids: HashMap<u32, u32>,
    pub labels: HashMap<u32, u32>,
    pub rank: Option<HashMap<u32, u32>>,
}

impl Trace {
    pub fn feed(&mut self, x: u64) {
        let a = (self.h[0] ^ x).wrapping_mul(0x9E37_79B9_7F4A_7C15);
        self.h[0] = (a ^ (a >> 29)).wrapping_mul(0xBF58_476D_1CE4_E5B9).rotate_left(17);
        let b = (self.h[1].rotate_left(23) ^ x).wrapping_mul(0xD6E8_FEB8_6659_FD93);
        self.h[1] = b ^ (b >> 32);
    }
    pub fn key(&self) -> u128 {
        ((self.h[0] as u128) << 64) | self.h[1] as u128
    }
    pub fn node(&mut self, id: u32) {
        let n = self.ids.len() as u32;
        let i = *self.ids.entry(id).or_insert(n);
        self.feed(0x5000_0000_0000 + i as u64);
    }
    pub fn label(&mut self, id: u32) {
        let n = self.labels.len() as u32;
        let i = *self.labels.entry(id).or_insert(n);
        self.feed(0x7000_0000_0000 + i as u64);
    }
    pub fn rank(&mut self, v: u32) {
        let r = match &self.rank {
            Some(m) => m.get(&v).copied().unwrap_or(u32::MAX),
            None => v,
        };
        self.feed(0x6000_0000_0000 + r as u64);
    }
}

struct Arena {
    chunks: Vec<(*mut u8, usize)>,
    cur: usize,
    off: usize,
}

const CHUNK: usize = 1 << 16;

impl Arena {
    fn alloc(&mut self, size: usize, align: usize) -> *mut u8 {
        assert!(align <= 16);
        let size = (size + 15) & !15;
        loop {
            if self.cur < self.chunks.len() {
                let (p, cap) = self.chunks[self.cur];
                if self.off + size <= cap {
                    let r = unsafe { p.add(self.off) };
                    self.off += size;
                    return r;
                }
                self.cur += 1;
                self.off = 0;
                continue;
            }
            let cap = CHUNK.max(size).max(if self.chunks.len() > 16 { 1 << 22 } else { 0 });
            let p = unsafe { std::alloc::alloc(std::alloc::Layout::from_size_align(cap, 16).unwrap()) };
            assert!(!p.is_null());
            self.chunks.push((p, cap));
        }
    }
    fn reset(&mut self) {
        // Keep a few chunks for the next execution.
        while self.chunks.len() > 4 {
            let (p, cap) = self.chunks.pop().unwrap();
            unsafe { std::alloc::dealloc(p, std::alloc::Layout::from_size_align(cap, 16).unwrap()) };
        }
        self.cur = 0;
        self.off = 0;
    }
}

impl Drop for Arena {
    fn drop(&mut self) {
        for (p, cap) in self.chunks.drain(..) {
            unsafe { std::alloc::dealloc(p, std::alloc::Layout::from_size_align(cap, 16).unwrap()) };
        }
    }
}

pub struct Inner {
    arena: Arena,
    pub blocks: u32,
    pub live_blocks: u64,
    pub c: Counters,
    pub toks: Vec<u8>,
    pub live_toks: u64,
    pub fault: Fault,
    pub trace: Option<Box<Trace>>,
    pub in_setup: bool,
    /// Element instances that existed when the threads started.
    pub setup_toks: u32,
    pub sched: *const crate::sched::Sched,
    pub fine: bool,
    pub horizon: u64,
    pub error: Option<String>,
}

pub struct Universe(Box<UnsafeCell<Inner>>);
unsafe impl Send for Universe {}

thread_local! {
    static CUR: Cell<*mut Inner> = const { Cell::new(std::ptr::null_mut()) };
    pub static TLS: Tls = const { Tls { depth: Cell::new(0), max_depth: Cell::new(0), base: Cell::new(0), lo: Cell::new(usize::MAX), tid: Cell::new(0) } };
}

/// Per-thread measurements.
pub struct Tls {
    pub depth: Cell<u32>,
    pub max_depth: Cell<u32>,
    pub base: Cell<usize>,
    pub lo: Cell<usize>,
    pub tid: Cell<usize>,
}

pub const HORIZON: u64 = 200_000_000;

impl Universe {
    pub fn new() -> Universe {
        Universe(Box::new(UnsafeCell::new(Inner {
            arena: Arena { chunks: Vec::new(), cur: 0, off: 0 },
            blocks: 0,
            live_blocks: 0,
            c: Counters::default(),
            toks: Vec::new(),
            live_toks: 0,
            fault: Fault { mask: 0, left: 0, seen: 0, fired: false },
            trace: None,
            in_setup: true,
            setup_toks: 0,
            sched: std::ptr::null(),
            fine: false,
            horizon: HORIZON,
            error: None,
        })))
    }
    pub fn raw(&self) -> *mut Inner {
        self.0.get()
    }
    /// Forget everything and become the current universe of this thread.
    pub fn begin(&self) {
        unsafe { (*self.raw()).reset() }
        self.enter();
    }
    pub fn enter(&self) {
        CUR.with(|c| c.set(self.raw()));
    }
}

impl Default for Universe {
    fn default() -> Self {
        Universe::new()
    }
}

#[inline]
pub fn cur() -> *mut Inner {
    CUR.with(|c| c.get())
}

pub fn set_cur(p: *mut Inner) {
    CUR.with(|c| c.set(p));
}

/// Run `f` with the current universe. `f` must not call back into the code under test.
#[inline]
pub fn with<R>(f: impl FnOnce(&mut Inner) -> R) -> R {
    let p = cur();
    assert!(!p.is_null(), "no universe on this thread");
    unsafe { f(&mut *p) }
}

pub fn counters() -> Counters {
    with(|u| u.c)
}
pub fn live_blocks() -> u64 {
    with(|u| u.live_blocks)
}
pub fn live_toks() -> u64 {
    with(|u| u.live_toks)
}
pub fn tok_live(id: u32) -> bool {
    with(|u| u.toks.get(id as usize).copied() == Some(1))
}

/// A memory error: not something an execution can continue from.
pub fn fatal(msg: &str) -> ! {
    crate::run::note_fatal(msg);
    eprintln!("memory error: {msg}");
    unsafe { libc::_exit(77) }
}

/// A non-fatal error noticed inside a callback; the engine picks it up after the step.
pub fn note_error(msg: String) {
    with(|u| {
        if u.error.is_none() {
            u.error = Some(msg)
        }
    });
}
pub fn take_error() -> Option<String> {
    with(|u| u.error.take())
}

/// Forget everything in the current universe. Nothing made in it may be alive.
pub fn restart() {
    with(|u| u.reset());
}

/// Let the `k`-th callback of the kinds in `mask` from now on panic.
pub fn arm(mask: u32, k: u64) {
    with(|u| u.fault = Fault { mask, left: k, seen: 0, fired: false });
}

/// Stop injecting; did the armed fault fire, and how many callbacks were seen?
pub fn disarm() -> (bool, u64) {
    with(|u| {
        let r = (u.fault.fired, u.fault.seen);
        u.fault = Fault { mask: 0, left: 0, seen: 0, fired: false };
        r
    })
}

impl Inner {
    fn reset(&mut self) {
        self.arena.reset();
        self.blocks = 0;
        self.live_blocks = 0;
        self.c = Counters::default();
        self.toks.clear();
        self.live_toks = 0;
        self.fault = Fault { mask: 0, left: 0, seen: 0, fired: false };
        self.trace = None;
        self.in_setup = true;
        self.sched = std::ptr::null();
        self.fine = false;
        self.horizon = HORIZON;
        self.error = None;
    }
    pub fn alloc_block(&mut self, size: usize, align: usize) -> *mut u8 {
        self.arena.alloc(size, align)
    }
    /// A new operation begins: the step horizon is for it alone.
    pub fn refill(&mut self) {
        self.horizon = HORIZON;
    }
    #[inline]
    pub fn spend(&mut self) {
        if self.horizon == 0 {
            crate::run::note_fatal("an operation did not finish within the step horizon");
            eprintln!("step horizon exceeded");
            unsafe { libc::_exit(77) }
        }
        self.horizon -= 1;
    }
}

#[inline]
pub fn stack_probe() {
    let x = 0u8;
    let a = &x as *const u8 as usize;
    TLS.with(|t| {
        if a < t.lo.get() {
            t.lo.set(a)
        }
    });
}

/// Measure the stack extent (bytes below the caller) and the deepest nesting of releases in `f`.
#[inline(never)]
pub fn measure_stack<R>(f: impl FnOnce() -> R) -> (R, usize, u32) {
    let x = 0u8;
    let base = &x as *const u8 as usize;
    TLS.with(|t| {
        t.base.set(base);
        t.lo.set(base);
        t.depth.set(0);
        t.max_depth.set(0);
    });
    let r = f();
    TLS.with(|t| (r, base - t.lo.get(), t.max_depth.get()))
}

/// One callback of kind `k` into user code is about to run.
#[inline]
pub fn tick(k: u32, id: u32) {
    let p = cur();
    if p.is_null() {
        return;
    }
    unsafe {
        let u = &mut *p;
        u.spend();
        match k {
            K_EQ => u.c.eq += 1,
            K_CMP => u.c.cmp += 1,
            K_HASH => u.c.hash += 1,
            K_CLONE => u.c.tclone += 1,
            K_DROP => u.c.tdrop += 1,
            _ => {}
        }
        if u.fault.mask & k != 0 {
            u.fault.seen += 1;
            if u.fault.left > 0 {
                u.fault.left -= 1;
                if u.fault.left == 0 {
                    u.fault.fired = true;
                    u.fault.mask = 0;
                    std::panic::panic_any(Injected);
                }
            }
        }
        if u.fine && !u.sched.is_null() && id < u.setup_toks {
            (*u.sched).point();
        }
    }
    stack_probe();
}

struct Sink;
impl std::fmt::Write for Sink {
    fn write_str(&mut self, s: &str) -> std::fmt::Result {
        with(|u| {
            if let Some(t) = u.trace.as_mut() {
                let mut x: u64 = 0xcbf2_9ce4_8422_2325;
                for b in s.bytes() {
                    x = (x ^ b as u64).wrapping_mul(0x100_0000_01b3);
                }
                t.feed(x);
            }
        });
        Ok(())
    }
}

pub fn refill() {
    with(|u| u.refill());
}

/// Canonical form of the heap graph reachable from `roots` (by their own `Debug` output).
pub fn canon(roots: &[&dyn std::fmt::Debug], rank: Option<HashMap<u32, u32>>) -> u128 {
    use std::fmt::Write;
    with(|u| {
        u.trace = Some(Box::new(Trace { h: [1, 2], ids: HashMap::new(), labels: HashMap::new(), rank }));
    });
    let h = with(|u| u.horizon);
    for r in roots {
        let _ = write!(Sink, "{:?};", r);
    }
    with(|u| {
        u.horizon = h;
        u.trace.take().unwrap().key()
    })
}
