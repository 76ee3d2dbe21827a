//! Threads and time of a controlled world: the C functions that the standard library calls are defined here, so that
//! every thread made by a controlled thread belongs to its world. Other threads are not affected.
use crossbeam_channel::world::{self, World};
use std::ffi::{c_char, c_int, c_long, c_void};
use std::sync::Arc;

type Start = extern "C" fn(*mut c_void) -> *mut c_void;
extern "C" {
    fn dlsym(h: *mut c_void, name: *const c_char) -> *mut c_void;
}
const RTLD_NEXT: *mut c_void = -1isize as *mut c_void;

macro_rules! real {
    ($name:literal, $ty:ty) => {{
        static R: std::sync::atomic::AtomicUsize = std::sync::atomic::AtomicUsize::new(0);
        let mut p = R.load(std::sync::atomic::Ordering::Relaxed);
        if p == 0 {
            p = dlsym(RTLD_NEXT, concat!($name, "\0").as_ptr() as *const c_char) as usize;
            R.store(p, std::sync::atomic::Ordering::Relaxed);
        }
        std::mem::transmute::<usize, $ty>(p)
    }};
}

struct Child {
    w: Arc<World>,
    t: u32,
    f: Start,
    arg: *mut c_void,
}
extern "C" fn child(p: *mut c_void) -> *mut c_void {
    let c = unsafe { Box::from_raw(p as *mut Child) };
    c.w.start(c.t);
    let r = (c.f)(c.arg);
    c.w.finish(c.t);
    r
}

/// # Safety
/// As the C function.
#[no_mangle]
pub unsafe extern "C" fn pthread_create(n: *mut usize, attr: *const c_void, f: Start, arg: *mut c_void) -> c_int {
    let real = real!("pthread_create", unsafe extern "C" fn(*mut usize, *const c_void, Start, *mut c_void) -> c_int);
    match world::try_current() {
        None => real(n, attr, f, arg),
        Some((w, _)) => {
            let t = w.spawn();
            let c = Box::into_raw(Box::new(Child { w: w.clone(), t, f, arg }));
            let r = real(n, attr, child, c as *mut c_void);
            assert!(r == 0, "cannot create threads");
            w.set_native(t, *n);
            r
        }
    }
}
/// # Safety
/// As the C function.
#[no_mangle]
pub unsafe extern "C" fn pthread_join(n: usize, out: *mut *mut c_void) -> c_int {
    let real = real!("pthread_join", unsafe extern "C" fn(usize, *mut *mut c_void) -> c_int);
    if let Some((w, _)) = world::try_current() {
        if let Some(t) = w.by_native(n) {
            w.join(t);
        }
    }
    real(n, out)
}
/// # Safety
/// As the C function.
#[no_mangle]
pub unsafe extern "C" fn clock_gettime(id: c_int, ts: *mut [c_long; 2]) -> c_int {
    if world::controlled() {
        // no time passes while an execution runs; timers may fire at any moment
        *ts = [1_000_000, 0];
        return 0;
    }
    let real = real!("clock_gettime", unsafe extern "C" fn(c_int, *mut [c_long; 2]) -> c_int);
    real(id, ts)
}
