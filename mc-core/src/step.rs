//! Two programs under an instruction-level scheduler: within one thread, every instruction of one
//! program is a point at which the other may take over. The processor's single-step flag stops a
//! program after each instruction; the whole state (heap, stacks, registers) is copied there, the
//! other program is run from it, and the copy is put back. The programs run the shipping code on
//! the shipping pointer kind; executions are sequentially consistent.
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;

/// The allocator of a binary that uses this module. While a program runs, blocks come from the
/// thread's arena: they are never reused, and filled with `POISON` when freed.
pub struct Alloc;

const POISON: u8 = 0xdd;
const HEAP: usize = 8 << 20;
const STACK: usize = 512 << 10;
const LIVE: u64 = 0x4c49_5645_4c49_5645;
const DEAD: u64 = 0x4445_4144_4445_4144;

#[repr(C)]
struct Head {
    state: u64,
    size: u32,
    prev: u32,
}

#[repr(C)]
struct Arena {
    used: usize,
    last: u32,
    live: i64,
    twice: u32,
    foreign: u32,
}

thread_local! {
    static ARENA: Cell<*mut Arena> = const { Cell::new(std::ptr::null_mut()) };
    static ON: Cell<bool> = const { Cell::new(false) };
    static IN_ALLOC: Cell<bool> = const { Cell::new(false) };
    static RESTEP: Cell<bool> = const { Cell::new(false) };
    static CTL: Cell<*mut Ctl> = const { Cell::new(std::ptr::null_mut()) };
}

fn enter() {
    IN_ALLOC.set(true);
    std::sync::atomic::compiler_fence(std::sync::atomic::Ordering::SeqCst);
}

fn leave() {
    std::sync::atomic::compiler_fence(std::sync::atomic::Ordering::SeqCst);
    IN_ALLOC.set(false);
    #[cfg(all(target_arch = "x86_64", target_os = "linux"))]
    if RESTEP.get() {
        RESTEP.set(false);
        unsafe { std::arch::asm!("pushfq", "or qword ptr [rsp], 0x100", "popfq") };
    }
}

fn mine(p: *mut u8) -> *mut Arena {
    let a = ARENA.get();
    if !a.is_null() && (p as usize).wrapping_sub(a as usize) < HEAP { a } else { std::ptr::null_mut() }
}

unsafe impl GlobalAlloc for Alloc {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        if !ON.get() {
            return unsafe { System.alloc(l) };
        }
        enter();
        let p = unsafe {
            let a = ARENA.get();
            let al = l.align().max(16);
            let at = (*a).used + std::mem::size_of::<Head>();
            let at = at.div_ceil(al) * al;
            let end = at + l.size();
            if end + 64 > HEAP {
                std::ptr::null_mut()
            } else {
                let p = (a as *mut u8).add(at);
                *(p as *mut Head).sub(1) = Head { state: LIVE, size: l.size() as u32, prev: (*a).last };
                (*a).used = end.div_ceil(16) * 16;
                (*a).last = at as u32;
                (*a).live += 1;
                p
            }
        };
        leave();
        p
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        let a = mine(p);
        if a.is_null() {
            if ON.get() {
                unsafe { (*ARENA.get()).foreign += 1 };
            }
            return unsafe { System.dealloc(p, l) };
        }
        enter();
        unsafe {
            let h = (p as *mut Head).sub(1);
            if (*h).state == LIVE && (*h).size as usize == l.size() {
                (*h).state = DEAD;
                (*a).live -= 1;
                std::ptr::write_bytes(p, POISON, l.size());
            } else {
                (*a).twice += 1;
            }
        }
        leave();
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        if !ON.get() && mine(p).is_null() {
            return unsafe { System.realloc(p, l, n) };
        }
        unsafe {
            let q = self.alloc(Layout::from_size_align_unchecked(n, l.align()));
            if !q.is_null() {
                std::ptr::copy_nonoverlapping(p, q, l.size().min(n));
                self.dealloc(p, l);
            }
            q
        }
    }
}

/// Run `f` with allocations going to the arena.
pub fn arena<R>(f: impl FnOnce() -> R) -> R {
    let was = ON.replace(true);
    let r = f();
    ON.set(was);
    r
}

/// Run `f` with allocations going to the system, and without stepping from here on. For the panic hook.
pub fn outside<R>(f: impl FnOnce() -> R) -> R {
    let was = ON.replace(false);
    let c = CTL.get();
    if !c.is_null() {
        unsafe { (*c).free_running = true };
    }
    let r = f();
    ON.set(was);
    r
}

const NG: usize = 23;
const FP: usize = 12 << 10;

#[repr(C, align(64))]
struct Saved {
    fp: [u8; FP],
    gregs: [i64; NG],
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
enum Why {
    Step,
    Done,
    Crash(i32),
    Stuck,
}

struct Ctl {
    cur: usize,
    request: bool,
    want: usize,
    stepping: bool,
    free_running: bool,
    why: Why,
    ticks: u32,
    fp_len: usize,
    done: [bool; 3],
    ctx: [Saved; 3],
}

struct Slot {
    f: *mut dyn FnMut(),
    panicked: bool,
}

pub struct Engine {
    base: *mut u8,
    ctl: *mut Ctl,
    slots: [Slot; 2],
    snaps: Vec<Snap>,
    stop: Option<libc::timer_t>,
    pub steps: u64,
    pub points: u64,
    pub runs: u64,
    pub blocked: u64,
}

#[derive(Default)]
struct Snap {
    heap: Vec<u8>,
    stack: [Vec<u8>; 2],
    gregs: [[i64; NG]; 2],
    fp: [Vec<u8>; 2],
    done: [bool; 3],
}

#[cfg(all(target_arch = "x86_64", target_os = "linux"))]
mod sys {
    use super::*;
    use libc::*;

    unsafe fn save(c: *mut Ctl, i: usize, uc: *mut ucontext_t) {
        unsafe {
            let m = &mut (*uc).uc_mcontext;
            let s = &raw mut (*c).ctx[i];
            std::ptr::copy_nonoverlapping(m.gregs.as_ptr(), (&raw mut (*s).gregs) as *mut i64, NG);
            std::ptr::copy_nonoverlapping(m.fpregs as *const u8, (&raw mut (*s).fp) as *mut u8, (*c).fp_len);
        }
    }
    unsafe fn load(c: *mut Ctl, i: usize, uc: *mut ucontext_t) {
        unsafe {
            let m = &mut (*uc).uc_mcontext;
            let s = &raw const (*c).ctx[i];
            std::ptr::copy_nonoverlapping((&raw const (*s).gregs) as *const i64, m.gregs.as_mut_ptr(), NG);
            std::ptr::copy_nonoverlapping((&raw const (*s).fp) as *const u8, m.fpregs as *mut u8, (*c).fp_len);
            let t = i != 0 && (*c).stepping && !(*c).free_running;
            let e = &mut m.gregs[REG_EFL as usize];
            *e = if t { *e | 0x100 } else { *e & !0x100 };
            (*c).cur = i;
        }
    }

    extern "C" fn handler(sig: c_int, _info: *mut siginfo_t, uc: *mut c_void) {
        unsafe {
            let uc = uc as *mut ucontext_t;
            let c = CTL.get();
            let tick = sig == SIGVTALRM;
            if c.is_null() || (*c).cur == 0 && !(sig == SIGTRAP && (*c).request) {
                if !tick {
                    // not ours: as if there were no handler
                    signal(sig, SIG_DFL);
                }
                return;
            }
            if (*c).cur == 0 {
                (*c).request = false;
                if (*c).fp_len == 0 {
                    let f = (*uc).uc_mcontext.fpregs as *const u8;
                    let magic = (f.add(464) as *const u32).read_unaligned();
                    let ext = (f.add(468) as *const u32).read_unaligned() as usize;
                    (*c).fp_len = if magic == 0x4650_5853 { ext.max(512) } else { 512 };
                    if (*c).fp_len > FP {
                        (*c).fp_len = 512;
                    }
                }
                save(c, 0, uc);
                load(c, (*c).want, uc);
                return;
            }
            let why = if tick {
                (*c).ticks += 1;
                if (*c).ticks < 4 {
                    return;
                }
                Why::Stuck
            } else if sig != SIGTRAP {
                Why::Crash(sig)
            } else if (*c).done[(*c).cur] {
                Why::Done
            } else if IN_ALLOC.get() || (*c).free_running || !(*c).stepping {
                // within the allocator, which no other program can observe
                RESTEP.set(IN_ALLOC.get() && !(*c).free_running && (*c).stepping);
                (*uc).uc_mcontext.gregs[REG_EFL as usize] &= !0x100;
                return;
            } else {
                Why::Step
            };
            (*c).why = why;
            save(c, (*c).cur, uc);
            load(c, 0, uc);
        }
    }

    pub fn install() {
        static ONCE: std::sync::Once = std::sync::Once::new();
        ONCE.call_once(|| unsafe {
            for s in [SIGTRAP, SIGSEGV, SIGBUS, SIGILL, SIGFPE, SIGABRT, SIGVTALRM] {
                let mut a: sigaction = std::mem::zeroed();
                a.sa_sigaction = handler as *const () as usize;
                a.sa_flags = SA_SIGINFO | SA_ONSTACK | SA_RESTART;
                sigemptyset(&mut a.sa_mask);
                sigaddset(&mut a.sa_mask, SIGVTALRM);
                libc::sigaction(s, &a, std::ptr::null_mut());
            }
        });
        unsafe {
            let len = 256 << 10;
            let p = mmap(std::ptr::null_mut(), len, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
            assert!(p != MAP_FAILED);
            let s = stack_t { ss_sp: p, ss_flags: 0, ss_size: len };
            sigaltstack(&s, std::ptr::null_mut());
        }
    }

    /// A tick every half second to this thread, by which a program that waits for the other is noticed.
    pub fn timer() -> Option<timer_t> {
        unsafe {
            let mut ev: sigevent = std::mem::zeroed();
            ev.sigev_notify = SIGEV_THREAD_ID;
            ev.sigev_signo = SIGVTALRM;
            ev.sigev_notify_thread_id = syscall(SYS_gettid) as i32;
            let mut t: timer_t = std::mem::zeroed();
            if timer_create(CLOCK_MONOTONIC, &mut ev, &mut t) != 0 {
                return None;
            }
            let half = timespec { tv_sec: 0, tv_nsec: 500_000_000 };
            let it = itimerspec { it_interval: half, it_value: half };
            timer_settime(t, 0, &it, std::ptr::null_mut());
            Some(t)
        }
    }
    pub fn stop(t: timer_t) {
        unsafe { timer_delete(t) };
    }

    #[inline(never)]
    pub fn trap() {
        unsafe { std::arch::asm!("int3") };
    }

    pub extern "C" fn entry(s: *mut Slot) -> ! {
        unsafe {
            let f = (*s).f;
            let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| (*f)()));
            if let Err(p) = r {
                drop(p);
                (*s).panicked = true;
            }
            let c = CTL.get();
            (*c).done[(*c).cur] = true;
            loop {
                trap();
            }
        }
    }

    pub fn start(g: &mut [i64; NG], top: usize, arg: *mut Slot) {
        g[REG_RIP as usize] = entry as *const () as usize as i64;
        g[REG_RSP as usize] = (top - 64 - 8) as i64;
        g[REG_RBP as usize] = 0;
        g[REG_RDI as usize] = arg as i64;
    }
    pub fn sp(g: &[i64; NG]) -> usize {
        g[REG_RSP as usize] as usize - 256
    }
}

#[cfg(not(all(target_arch = "x86_64", target_os = "linux")))]
mod sys {
    use super::*;
    pub fn install() {}
    pub fn timer() -> Option<libc::timer_t> {
        None
    }
    pub fn stop(_: libc::timer_t) {}
    pub fn trap() {}
    pub fn start(_: &mut [i64; NG], _: usize, _: *mut Slot) {}
    pub fn sp(_: &[i64; NG]) -> usize {
        0
    }
}

fn nop() {}

impl Engine {
    pub fn new() -> Engine {
        let len = HEAP + 2 * STACK;
        let base = unsafe { libc::mmap(std::ptr::null_mut(), len, libc::PROT_READ | libc::PROT_WRITE, libc::MAP_PRIVATE | libc::MAP_ANONYMOUS | libc::MAP_NORESERVE, -1, 0) };
        assert!(base != libc::MAP_FAILED);
        sys::install();
        let ctl = unsafe { std::alloc::alloc_zeroed(Layout::new::<Ctl>()) } as *mut Ctl;
        unsafe {
            (&raw mut (*ctl).why).write(Why::Done);
        }
        CTL.set(ctl);
        ARENA.set(base as *mut Arena);
        let n: *mut dyn FnMut() = Box::leak(Box::new(nop));
        let mut e = Engine {
            base: base as *mut u8,
            ctl,
            slots: [Slot { f: n, panicked: false }, Slot { f: n, panicked: false }],
            snaps: (0..8).map(|_| Snap::default()).collect(),
            stop: sys::timer(),
            steps: 0,
            points: 0,
            runs: 0,
            blocked: 0,
        };
        e.reset();
        e
    }

    /// Forget everything in the arena.
    pub fn reset(&mut self) {
        unsafe {
            let a = self.base as *mut Arena;
            *a = Arena { used: 64, last: 0, live: 0, twice: 0, foreign: 0 };
        }
    }

    fn arena(&self) -> &Arena {
        unsafe { &*(self.base as *const Arena) }
    }

    /// What is wrong with the heap once everything has been dropped.
    pub fn heap_verdict(&self) -> Result<(), String> {
        let a = self.arena();
        if a.twice > 0 {
            return Err("a block was freed twice".into());
        }
        if a.live != 0 {
            return Err(format!("{} blocks were never freed", a.live));
        }
        if a.foreign > 0 {
            crate::run::engine_error("a program freed a block from outside");
        }
        let mut at = a.last;
        while at != 0 {
            let (size, prev) = unsafe {
                let h = &*(self.base.add(at as usize) as *const Head).sub(1);
                (h.size as usize, h.prev)
            };
            let b = unsafe { std::slice::from_raw_parts(self.base.add(at as usize), size) };
            if b.iter().any(|x| *x != POISON) {
                return Err("a block was written to after it was freed".into());
            }
            at = prev;
        }
        Ok(())
    }

    fn top(&self, i: usize) -> usize {
        self.base as usize + HEAP + (i + 1) * STACK
    }

    /// Let program `i` run: one instruction, or to its end.
    fn go(&mut self, i: usize, step: bool) -> Why {
        unsafe {
            let c = self.ctl;
            (*c).want = i + 1;
            (*c).stepping = step;
            (*c).free_running = false;
            (*c).ticks = 0;
            (*c).request = true;
            RESTEP.set(false);
            ON.set(true);
            sys::trap();
            ON.set(false);
            if step {
                self.steps += 1;
            }
            (*c).why
        }
    }

    fn snap(&mut self, d: usize) {
        if d >= self.snaps.len() {
            crate::run::engine_error("too many preemptions");
        }
        let used = self.arena().used;
        let tops = [self.top(0), self.top(1)];
        let s = &mut self.snaps[d];
        unsafe {
            let c = self.ctl;
            s.heap.clear();
            s.heap.extend_from_slice(std::slice::from_raw_parts(self.base, used));
            s.done = (*c).done;
            for i in 0..2 {
                let x = &raw const (*c).ctx[i + 1];
                s.gregs[i] = (*x).gregs;
                s.fp[i].clear();
                s.stack[i].clear();
                if !s.done[i + 1] {
                    s.fp[i].extend_from_slice(std::slice::from_raw_parts((&raw const (*x).fp) as *const u8, (*c).fp_len));
                    let sp = sys::sp(&s.gregs[i]);
                    s.stack[i].extend_from_slice(std::slice::from_raw_parts(sp as *const u8, tops[i] - sp));
                }
            }
        }
    }

    fn back(&mut self, d: usize) {
        let tops = [self.top(0), self.top(1)];
        let s = &self.snaps[d];
        unsafe {
            let c = self.ctl;
            std::ptr::copy_nonoverlapping(s.heap.as_ptr(), self.base, s.heap.len());
            (*c).done = s.done;
            for i in 0..2 {
                let x = &raw mut (*c).ctx[i + 1];
                (*x).gregs = s.gregs[i];
                if !s.done[i + 1] {
                    std::ptr::copy_nonoverlapping(s.fp[i].as_ptr(), (&raw mut (*x).fp) as *mut u8, s.fp[i].len());
                    std::ptr::copy_nonoverlapping(s.stack[i].as_ptr(), (tops[i] - s.stack[i].len()) as *mut u8, s.stack[i].len());
                }
            }
        }
    }

    fn fatal(&mut self, why: Why, i: usize) -> Result<(), String> {
        let who = if i == 0 { "the first" } else { "the second" };
        if let Why::Crash(s) = why {
            return Err(format!("{who} program crashed (signal {s})"));
        }
        if self.slots[i].panicked {
            self.slots[i].panicked = false;
            return Err(format!("{who} program {}", crate::run::panic_text()));
        }
        Ok(())
    }

    /// Run program `i` to its end, and if it waits for the other, the other first.
    fn finish(&mut self, i: usize) -> Result<(), String> {
        let done = |e: &Engine, k: usize| unsafe { (*e.ctl).done[k + 1] };
        for _ in 0..3 {
            for k in [i, 1 - i] {
                if !done(self, k) {
                    let w = self.go(k, false);
                    self.fatal(w, k)?;
                    if w == Why::Stuck {
                        self.blocked += 1;
                    }
                }
            }
            if done(self, 0) && done(self, 1) {
                return Ok(());
            }
        }
        Err("a program does not return".into())
    }

    /// Every way to run the rest of both programs, `i` first, with at most `left` more preemptions.
    fn rest(&mut self, i: usize, left: u32, d: usize, judge: &mut dyn FnMut() -> Result<(), String>) -> Result<(), String> {
        if left > 0 {
            loop {
                let w = self.go(i, true);
                self.fatal(w, i)?;
                if w != Why::Step {
                    break;
                }
                if self.blocked > 8 {
                    // a lock: its schedules take seconds each
                    crate::run::CUT.store(true, std::sync::atomic::Ordering::Relaxed);
                    break;
                }
                if unsafe { (*self.ctl).done[2 - i] } {
                    // nothing left to switch to
                    break;
                }
                self.points += 1;
                self.snap(d);
                self.rest(1 - i, left - 1, d + 1, judge)?;
                self.back(d);
                if self.points % 512 == 0 {
                    crate::run::alive();
                    if crate::run::expired() {
                        break;
                    }
                }
            }
        }
        self.finish(i)?;
        self.runs += 1;
        judge()?;
        self.heap_verdict()
    }

    /// All executions of `a` and `b` with at most `bound` preemptions. What the two leave behind, in the
    /// arena, is judged (and dropped) by `judge`. They start from what is in the arena now.
    pub fn explore(&mut self, a: &mut dyn FnMut(), b: &mut dyn FnMut(), bound: u32, judge: &mut dyn FnMut() -> Result<(), String>) -> Result<(), String> {
        unsafe {
            self.slots[0] = Slot { f: std::mem::transmute::<*mut dyn FnMut(), *mut dyn FnMut()>(a), panicked: false };
            self.slots[1] = Slot { f: std::mem::transmute::<*mut dyn FnMut(), *mut dyn FnMut()>(b), panicked: false };
            let c = self.ctl;
            // a switch to where we are, to have something to copy
            (*c).want = 0;
            (*c).request = true;
            sys::trap();
            for i in 0..2 {
                let g = (*c).ctx[0].gregs;
                let x = &raw mut (*c).ctx[i + 1];
                (*x).gregs = g;
                let f = (*c).fp_len;
                std::ptr::copy_nonoverlapping((&raw const (*c).ctx[0].fp) as *const u8, (&raw mut (*x).fp) as *mut u8, f);
                sys::start(&mut (*x).gregs, self.top(i), &raw mut self.slots[i]);
            }
            (*c).done = [false; 3];
        }
        for first in 0..2 {
            self.snap(0);
            let r = self.rest(first, bound, 1, judge);
            self.back(0);
            r?;
        }
        Ok(())
    }

    /// Does stepping work here?
    pub fn works(&mut self) -> bool {
        if !cfg!(all(target_arch = "x86_64", target_os = "linux")) {
            return false;
        }
        self.reset();
        let x: *mut u64 = arena(|| Box::into_raw(Box::new(0)));
        let add = |k: u64| {
            let v = unsafe { x.read_volatile() };
            unsafe { x.write_volatile(v + k) };
        };
        let mut seen = [false; 8];
        let r = self.explore(&mut || add(1), &mut || add(2), 1, &mut || {
            let v = unsafe { Box::from_raw(x) };
            seen[(*v as usize).min(7)] = true;
            Ok(())
        });
        self.reset();
        (self.steps, self.points, self.runs) = (0, 0, 0);
        r.is_ok() && seen == [false, true, true, true, false, false, false, false]
    }
}

impl Drop for Engine {
    fn drop(&mut self) {
        if let Some(t) = self.stop {
            sys::stop(t);
        }
        CTL.set(std::ptr::null_mut());
        ARENA.set(std::ptr::null_mut());
        unsafe { libc::munmap(self.base as *mut _, HEAP + 2 * STACK) };
    }
}
