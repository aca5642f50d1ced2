//! `McK`: a pointer kind with the semantics of `ArcTK`, observed and scheduled by the checker.
use crate::sched::Sched;
use crate::universe::*;
use archery::SharedPointerKind;
use std::mem::ManuallyDrop;

#[repr(C)]
struct Blk<T> {
    h: Hdr,
    v: ManuallyDrop<T>,
}

pub struct McK(*mut Hdr);

unsafe impl Send for McK {}
unsafe impl Sync for McK {}

impl std::fmt::Debug for McK {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.write_str("McK")
    }
}

impl McK {
    #[inline]
    fn blk<T>(&self) -> *mut Blk<T> {
        unsafe {
            if (*self.0).state != ALIVE {
                fatal("a node was used after it was released");
            }
            if (*self.0).vsize as usize != size_of::<T>() {
                fatal("a node was used with another type");
            }
        }
        self.0 as *mut Blk<T>
    }

    /// Scheduling point before an atomic step on this block.
    #[inline]
    fn point(&self) {
        unsafe {
            let u = &mut *cur();
            u.spend();
            if !u.sched.is_null() && (*self.0).setup {
                let s: *const Sched = u.sched;
                (*s).point();
            }
        }
    }
}

fn release<T>(h: *mut Hdr) {
    // The count reached zero: this thread is the only one that can reach the block.
    unsafe {
        (*h).state = FREED;
        {
            let u = &mut *cur();
            u.live_blocks -= 1;
            u.c.freed += 1;
        }
        TLS.with(|t| {
            t.depth.set(t.depth.get() + 1);
            if t.depth.get() > t.max_depth.get() {
                t.max_depth.set(t.depth.get())
            }
        });
        stack_probe();
        struct Dec;
        impl Drop for Dec {
            fn drop(&mut self) {
                TLS.with(|t| t.depth.set(t.depth.get().saturating_sub(1)));
            }
        }
        let _d = Dec;
        ManuallyDrop::drop(&mut (*(h as *mut Blk<T>)).v);
    }
}

unsafe impl SharedPointerKind for McK {
    fn new<T>(v: T) -> McK {
        unsafe {
            let u = &mut *cur();
            u.spend();
            let p = u.alloc_block(size_of::<Blk<T>>(), align_of::<Blk<T>>()) as *mut Blk<T>;
            u.c.alloc += 1;
            u.live_blocks += 1;
            let id = u.blocks;
            u.blocks += 1;
            p.write(Blk {
                h: Hdr { state: ALIVE, id, count: 1, vsize: size_of::<T>() as u32, setup: u.in_setup },
                v: ManuallyDrop::new(v),
            });
            stack_probe();
            McK(p as *mut Hdr)
        }
    }
    fn from_box<T>(v: Box<T>) -> McK {
        McK::new(*v)
    }
    unsafe fn as_ptr<T>(&self) -> *const T {
        let b = self.blk::<T>();
        unsafe { &raw const (*b).v as *const T }
    }
    #[inline]
    unsafe fn deref<T>(&self) -> &T {
        unsafe {
            {
                let u = &mut *cur();
                if let Some(t) = u.trace.as_mut() {
                    if (*self.0).state == ALIVE {
                        t.node((*self.0).id);
                    }
                } else {
                    u.c.deref += 1;
                    u.spend();
                    if u.fine && !u.sched.is_null() && (*self.0).setup {
                        let s = u.sched;
                        (*s).point();
                    }
                    stack_probe();
                }
            }
            let b = self.blk::<T>();
            &*(&raw const (*b).v as *const T)
        }
    }
    unsafe fn try_unwrap<T>(self) -> Result<T, McK> {
        self.point();
        unsafe {
            let b = self.blk::<T>();
            with(|u| u.c.uniq += 1);
            if (*b).h.count == 1 {
                (*b).h.state = FREED;
                with(|u| {
                    u.live_blocks -= 1;
                    u.c.freed += 1;
                });
                Ok(ManuallyDrop::take(&mut (*b).v))
            } else {
                Err(self)
            }
        }
    }
    unsafe fn get_mut<T>(&mut self) -> Option<&mut T> {
        self.point();
        unsafe {
            let b = self.blk::<T>();
            with(|u| u.c.uniq += 1);
            if (*b).h.count == 1 { Some(&mut *(*b).v) } else { None }
        }
    }
    unsafe fn make_mut<T: Clone>(&mut self) -> &mut T {
        self.point();
        unsafe {
            let b = self.blk::<T>();
            with(|u| u.c.uniq += 1);
            if (*b).h.count != 1 {
                let c: T = T::clone(&(*b).v);
                with(|u| u.c.copy += 1);
                let new = McK::new(c);
                let mut old = std::mem::replace(self, new);
                SharedPointerKind::drop::<T>(&mut old);
            }
            let b = self.blk::<T>();
            &mut *(*b).v
        }
    }
    unsafe fn strong_count<T>(&self) -> usize {
        self.point();
        unsafe { (*self.blk::<T>()).h.count }
    }
    unsafe fn clone<T>(&self) -> McK {
        self.point();
        unsafe {
            let b = self.blk::<T>();
            (*b).h.count += 1;
            with(|u| u.c.rc_clone += 1);
        }
        McK(self.0)
    }
    unsafe fn drop<T>(&mut self) {
        self.point();
        unsafe {
            if (*self.0).state != ALIVE {
                fatal("a node was released twice");
            }
            let b = self.blk::<T>();
            with(|u| u.c.rc_drop += 1);
            (*b).h.count -= 1;
            if (*b).h.count == 0 {
                release::<T>(self.0);
            }
        }
    }
}
