//! Continue a running world in a copy of the process, so that many continuations share one expensive prefix.
use crate::engine::{clip, take_panics, Case};
use std::time::{Duration, Instant};

const SIZE: usize = 1 << 16;

/// Shared page: 0 = no answer yet, 1 = passed, 2 = failed, 3 = failed by panicking; then a length and a message.
struct Page(*mut u8);
impl Page {
    fn new() -> Page {
        unsafe {
            let p = libc::mmap(std::ptr::null_mut(), SIZE, libc::PROT_READ | libc::PROT_WRITE, libc::MAP_SHARED | libc::MAP_ANONYMOUS, -1, 0);
            assert!(p != libc::MAP_FAILED, "mmap");
            Page(p as *mut u8)
        }
    }
    fn put(&self, kind: u8, msg: &str) {
        unsafe {
            let b = msg.as_bytes();
            let n = b.len().min(SIZE - 8);
            std::ptr::copy_nonoverlapping(b.as_ptr(), self.0.add(8), n);
            (self.0.add(4) as *mut u32).write_volatile(n as u32);
            self.0.write_volatile(kind);
        }
    }
    fn get(&self) -> (u8, String) {
        unsafe {
            let n = (self.0.add(4) as *const u32).read_volatile() as usize;
            let v = std::slice::from_raw_parts(self.0.add(8), n).to_vec();
            (self.0.read_volatile(), String::from_utf8_lossy(&v).into_owned())
        }
    }
}

/// In the copy: where its verdict goes. Dropping it without one (a panic, a time-out) counts as a failure.
pub struct Slot(Page, bool);
impl Slot {
    pub fn finish(mut self, r: Case) -> ! {
        self.1 = true;
        match r {
            Ok(()) => self.0.put(1, ""),
            Err(e) => {
                let p = take_panics();
                let e = if p.is_empty() { e } else { format!("{e} [library panics: {}]", p.join(" | ")) };
                self.0.put(2, &clip(&e, 30_000))
            }
        }
        unsafe { libc::_exit(0) }
    }
}
impl Drop for Slot {
    fn drop(&mut self) {
        if !self.1 {
            let p = take_panics();
            self.0.put(3, &if p.is_empty() { "it did not come to an end in virtual time".to_string() } else { format!("a library call panicked: {}", p.join(" | ")) });
            unsafe { libc::_exit(0) }
        }
    }
}

pub enum Fork {
    Child(Slot),
    Parent(Waiter),
}
pub struct Waiter(Page, libc::pid_t);
impl Waiter {
    pub fn wait(self, limit: Duration) -> Case {
        let start = Instant::now();
        let mut status = 0;
        loop {
            let r = unsafe { libc::waitpid(self.1, &mut status, libc::WNOHANG) };
            if r == self.1 {
                break;
            }
            if start.elapsed() > limit {
                unsafe {
                    libc::kill(self.1, libc::SIGKILL);
                    libc::waitpid(self.1, &mut status, 0);
                }
                return Err(format!("the continuation was still computing after {} s", limit.as_secs()));
            }
            std::thread::sleep(Duration::from_micros(200));
        }
        let (k, m) = self.0.get();
        unsafe { libc::munmap(self.0 .0 as *mut libc::c_void, SIZE) };
        match k {
            1 => Ok(()),
            2 | 3 => Err(m),
            _ => Err(format!("the continuation ended with status {status:#x}")),
        }
    }
}

pub fn fork() -> Fork {
    let page = Page::new();
    match unsafe { libc::fork() } {
        0 => Fork::Child(Slot(page, false)),
        p if p > 0 => Fork::Parent(Waiter(page, p)),
        _ => panic!("fork"),
    }
}
