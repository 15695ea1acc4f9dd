//! Memory the simulator controls: objects and transport buffers that border
//! unmapped pages, and the handler that turns a stray access into a verdict.

use std::cell::RefCell;
use std::ops::{Deref, DerefMut};

const PAGE: usize = 4096;
/// Exit status of a process whose code under test touched forbidden memory.
pub const FAULT_STATUS: i32 = 77;

extern "C" fn on_fault(sig: libc::c_int, info: *mut libc::siginfo_t, _: *mut libc::c_void) {
    unsafe {
        let addr = (*info).si_addr() as usize;
        let mut msg = *b"MEMORY-FAULT signal 00 addr 0x0000000000000000\n";
        msg[20] = b'0' + (sig / 10) as u8;
        msg[21] = b'0' + (sig % 10) as u8;
        for i in 0..16 {
            msg[30 + i] = b"0123456789abcdef"[(addr >> (60 - 4 * i)) & 15];
        }
        libc::write(2, msg.as_ptr() as *const libc::c_void, msg.len());
        libc::_exit(FAULT_STATUS);
    }
}

/// Report memory faults as exit status 77.
pub fn install_fault_handler() {
    unsafe {
        let mut sa: libc::sigaction = std::mem::zeroed();
        sa.sa_sigaction = on_fault as extern "C" fn(libc::c_int, *mut libc::siginfo_t, *mut libc::c_void) as usize;
        sa.sa_flags = libc::SA_SIGINFO | libc::SA_ONSTACK;
        libc::sigaction(libc::SIGSEGV, &sa, std::ptr::null_mut());
        libc::sigaction(libc::SIGBUS, &sa, std::ptr::null_mut());
        libc::sigaction(libc::SIGILL, &sa, std::ptr::null_mut());
    }
}

/// `pages` accessible pages between two inaccessible ones.
pub struct Region {
    base: *mut u8,
    pages: usize,
}

thread_local! {
    static POOL: RefCell<Vec<Region>> = const { RefCell::new(Vec::new()) };
}

impl Region {
    pub fn new(bytes: usize) -> Region {
        let pages = bytes.div_ceil(PAGE).max(1);
        let reused = POOL.with(|p| {
            let mut p = p.borrow_mut();
            let i = p.iter().position(|r| r.pages == pages)?;
            Some(p.swap_remove(i))
        });
        if let Some(r) = reused {
            r.protect(libc::PROT_READ | libc::PROT_WRITE);
            return r;
        }
        unsafe {
            let p = libc::mmap(
                std::ptr::null_mut(),
                (pages + 2) * PAGE,
                libc::PROT_NONE,
                libc::MAP_PRIVATE | libc::MAP_ANONYMOUS,
                -1,
                0,
            );
            assert!(p != libc::MAP_FAILED, "mmap failed");
            let r = Region { base: p as *mut u8, pages };
            r.protect(libc::PROT_READ | libc::PROT_WRITE);
            r
        }
    }

    pub fn start(&self) -> *mut u8 {
        unsafe { self.base.add(PAGE) }
    }

    pub fn size(&self) -> usize {
        self.pages * PAGE
    }

    pub fn protect(&self, prot: libc::c_int) {
        unsafe {
            let r = libc::mprotect(self.start() as *mut libc::c_void, self.size(), prot);
            assert!(r == 0, "mprotect failed");
        }
    }

    pub fn release(self) {
        let r = std::mem::ManuallyDrop::new(self);
        let r = Region { base: r.base, pages: r.pages };
        POOL.with(|p| {
            let mut p = p.borrow_mut();
            if p.len() < 64 {
                p.push(r);
            }
        });
    }
}

impl Drop for Region {
    fn drop(&mut self) {
        unsafe {
            libc::munmap(self.base as *mut libc::c_void, (self.pages + 2) * PAGE);
        }
    }
}

/// An object in ordinary memory, or directly before (`Some(true)`) or after
/// (`Some(false)`) an inaccessible page.
pub struct Place<T> {
    ptr: *mut T,
    region: Option<Region>,
}

unsafe impl<T: Send> Send for Place<T> {}
unsafe impl<T: Sync> Sync for Place<T> {}

impl<T> Place<T> {
    pub fn new(v: T, guarded: Option<bool>) -> Place<T> {
        match guarded {
            None => Place { ptr: Box::into_raw(Box::new(v)), region: None },
            Some(end) => unsafe {
                let size = std::mem::size_of::<T>();
                let r = Region::new(size);
                let off =
                    if end { (r.size() - size) / std::mem::align_of::<T>() * std::mem::align_of::<T>() } else { 0 };
                let ptr = r.start().add(off) as *mut T;
                ptr.write(v);
                Place { ptr, region: Some(r) }
            },
        }
    }

    pub fn into_inner(self) -> T {
        let mut me = std::mem::ManuallyDrop::new(self);
        unsafe {
            match me.region.take() {
                None => *Box::from_raw(me.ptr),
                Some(r) => {
                    let v = me.ptr.read();
                    r.release();
                    v
                }
            }
        }
    }
}

impl<T> Drop for Place<T> {
    fn drop(&mut self) {
        unsafe {
            match self.region.take() {
                None => drop(Box::from_raw(self.ptr)),
                Some(r) => {
                    std::ptr::drop_in_place(self.ptr);
                    r.release();
                }
            }
        }
    }
}

impl<T> Deref for Place<T> {
    type Target = T;
    fn deref(&self) -> &T {
        unsafe { &*self.ptr }
    }
}

impl<T> DerefMut for Place<T> {
    fn deref_mut(&mut self) -> &mut T {
        unsafe { &mut *self.ptr }
    }
}

/// The transport's buffer for one segment.
pub enum Buf {
    Heap { v: Vec<u8>, off: usize, len: usize },
    Guarded { r: Option<Region>, off: usize, len: usize },
}

impl Buf {
    /// `align` picks the position: for a heap buffer the offset from the
    /// allocation, for a guarded one the distance to the start (even) or end
    /// (odd) of the accessible memory; mostly zero.
    pub fn new(len: usize, align: u64, guarded: bool) -> Buf {
        if guarded {
            let r = Region::new(len + 64);
            let gap = if (align >> 1) % 4 == 3 { (align >> 3) as usize % 64 } else { 0 };
            let off = if align & 1 == 1 { r.size() - len - gap } else { gap };
            Buf::Guarded { r: Some(r), off, len }
        } else {
            let off = align as usize % 64;
            Buf::Heap { v: vec![0x5a; len + 128], off, len }
        }
    }

    pub fn bytes_mut(&mut self) -> &mut [u8] {
        match self {
            Buf::Heap { v, off, len } => &mut v[*off..*off + *len],
            Buf::Guarded { r, off, len } => unsafe {
                std::slice::from_raw_parts_mut(r.as_ref().unwrap().start().add(*off), *len)
            },
        }
    }

    pub fn bytes(&self) -> &[u8] {
        match self {
            Buf::Heap { v, off, len } => &v[*off..*off + *len],
            Buf::Guarded { r, off, len } => unsafe {
                std::slice::from_raw_parts(r.as_ref().unwrap().start().add(*off), *len)
            },
        }
    }

    /// The bytes with their real lifetime hidden. The caller keeps `self`.
    pub fn bytes_static(&self) -> &'static [u8] {
        unsafe { std::slice::from_raw_parts(self.bytes().as_ptr(), self.bytes().len()) }
    }

    /// Make the buffer read-only while the code under test has it.
    pub fn lend(&self) {
        if let Buf::Guarded { r, .. } = self {
            r.as_ref().unwrap().protect(libc::PROT_READ);
        }
    }

    /// The transport takes the buffer back and reuses or unmaps it.
    pub fn reclaim(&mut self) {
        match self {
            Buf::Heap { v, .. } => v.iter_mut().for_each(|b| *b = 0xa5),
            Buf::Guarded { r, .. } => r.as_ref().unwrap().protect(libc::PROT_NONE),
        }
    }
}

impl Drop for Buf {
    fn drop(&mut self) {
        if let Buf::Guarded { r, .. } = self {
            if let Some(r) = r.take() {
                r.release();
            }
        }
    }
}
