//! A runtime for the generated code: every call is logged, qubits are simulated.
//! Runs in a process of its own (forked for each choice of measurement outcomes).
use crate::interp::{Machine, Stop};
use std::collections::HashMap;
use std::os::raw::c_char;

pub struct World {
    pub m: Machine,
    /// refcount of each future and its value
    fut: Vec<(i64, u64)>,
    heap: HashMap<usize, usize>,
    /// whether the next result of a GPU context is a float
    gpu: HashMap<u64, bool>,
    pub fd: i32,
}
pub static mut W: Option<World> = None;
pub fn world(m: Machine, fd: i32) -> World {
    World { m, fut: vec![], heap: HashMap::new(), gpu: HashMap::new(), fd }
}
#[allow(static_mut_refs)]
fn w() -> &'static mut World {
    unsafe { W.as_mut().unwrap() }
}
fn ev(s: String) {
    w().m.ev(|| s)
}
/// End of the run: what happened is written to the pipe.
pub fn end(s: &str) -> ! {
    let w = w();
    let mut t = w.m.rt.take().unwrap_or_default();
    if !s.is_empty() {
        t.push(s.into());
    }
    let left = w.heap.len();
    let o = serde_json::json!({"ev": t, "heap": left, "used": w.m.oracle.pos, "of": w.m.oracle.script.len()}).to_string();
    let b = o.as_bytes();
    let mut i = 0;
    while i < b.len() {
        let n = unsafe { libc::write(w.fd, b[i..].as_ptr() as *const _, b.len() - i) };
        if n <= 0 {
            break;
        }
        i += n as usize;
    }
    unsafe { libc::_exit(0) }
}
fn ok<T>(r: Result<T, Stop>) -> T {
    match r {
        Ok(x) => x,
        Err(Stop::Bad(s)) => end(&format!("ERROR {s}")),
        Err(e) => end(&format!("ERROR {e:?}")),
    }
}
/// A string with its length in front
fn text(p: *const u8) -> String {
    let n = unsafe { *p } as usize;
    let b = unsafe { std::slice::from_raw_parts(p.add(1), n) };
    String::from_utf8_lossy(b).into_owned()
}
fn tag(p: *const u8, n: i64) -> String {
    let t = text(p);
    if t.len() as i64 != n {
        return format!("BAD-LENGTH {n} {t}");
    }
    t
}
extern "C" fn setup(tc: i64) {
    ev(format!("setup {tc}"))
}
extern "C" fn teardown() -> i64 {
    ev("teardown".into());
    77
}
extern "C" fn qalloc() -> i64 {
    let w = w();
    if w.m.alloc_may_fail && w.m.oracle.choose(2) == 1 {
        ev("qalloc -1".into());
        return -1;
    }
    let h = ok(w.m.alloc());
    ev(format!("qalloc {h}"));
    h as i64
}
extern "C" fn qfree(q: i64) {
    ev(format!("qfree {q}"));
    ok(w().m.free(q as usize))
}
extern "C" fn rz(q: i64, a: f64) {
    ev(format!("rz {q} {a:?}"));
    let s = ok(w().m.s(q as usize));
    w().m.st.u1(s, &crate::sim::rz(a / std::f64::consts::PI));
}
extern "C" fn rxy(q: i64, a: f64, b: f64) {
    ev(format!("rxy {q} {a:?} {b:?}"));
    use crate::sim::*;
    let (x, y) = (a / std::f64::consts::PI, b / std::f64::consts::PI);
    let s = ok(w().m.s(q as usize));
    w().m.st.u1(s, &mul2(&crate::sim::rz(y), &mul2(&rx(x), &crate::sim::rz(-y))));
}
extern "C" fn rzz(q: i64, r: i64, a: f64) {
    ev(format!("rzz {q} {r} {a:?}"));
    let (s, t) = (ok(w().m.s(q as usize)), ok(w().m.s(r as usize)));
    if s == t {
        end("ERROR qubit aliased")
    }
    w().m.st.zz(s, t, a / std::f64::consts::PI);
}
extern "C" fn measure(q: i64) -> u8 {
    let b = ok(w().m.collapse(q as usize));
    ev(format!("measure {q} {}", b as u8));
    b as u8
}
extern "C" fn lazy(q: i64) -> i64 {
    let b = ok(w().m.collapse(q as usize));
    let f = w().fut.len();
    w().fut.push((1, b as u64));
    ev(format!("lazy {q} {f}"));
    f as i64
}
extern "C" fn lazy_leaked(q: i64) -> i64 {
    let b = ok(w().m.collapse(q as usize));
    let f = w().fut.len();
    w().fut.push((1, b as u64));
    ev(format!("lazy_leaked {q} {f}"));
    f as i64
}
extern "C" fn reset(q: i64) {
    ev(format!("reset {q}"));
    ok(w().m.reset(q as usize));
}
fn fut(f: i64, what: &str) -> &'static mut (i64, u64) {
    match w().fut.get_mut(f as usize) {
        Some(x) if x.0 > 0 => x,
        _ => end(&format!("ERROR {what} of future {f}, which is gone")),
    }
}
extern "C" fn read_bool(f: i64) -> u8 {
    let v = fut(f, "read").1;
    ev(format!("read_bool {f} {v}"));
    v as u8
}
extern "C" fn read_uint(f: i64) -> i64 {
    let v = fut(f, "read").1;
    ev(format!("read_uint {f} {v}"));
    v as i64
}
extern "C" fn inc(f: i64) {
    fut(f, "duplication").0 += 1;
    ev(format!("inc {f}"));
}
extern "C" fn dec(f: i64) {
    fut(f, "release").0 -= 1;
    ev(format!("dec {f}"));
}
extern "C" fn print_bool(t: *const u8, n: i64, v: u8) {
    ev(format!("print_bool {} {}", tag(t, n), v & 1))
}
extern "C" fn print_int(t: *const u8, n: i64, v: i64) {
    ev(format!("print_int {} {v}", tag(t, n)))
}
extern "C" fn print_uint(t: *const u8, n: i64, v: u64) {
    ev(format!("print_uint {} {v}", tag(t, n)))
}
extern "C" fn print_float(t: *const u8, n: i64, v: f64) {
    ev(format!("print_float {} {v:?}", tag(t, n)))
}
#[repr(C, packed)]
struct Arr<T> {
    x: u32,
    y: u32,
    data: *const T,
    mask: *const u8,
}
fn arr<T: Copy>(a: *const Arr<T>, show: impl Fn(T) -> String) -> String {
    let (x, y, d, m) = unsafe { ((*a).x, (*a).y, (*a).data, (*a).mask) };
    if y != 1 {
        return format!("BAD-ARRAY {x}x{y}");
    }
    let mut s = String::from("[ ");
    for i in 0..x as usize {
        let (v, m) = unsafe { (d.add(i).read_unaligned(), *m.add(i)) };
        s += &if m & 1 == 1 { "MASKED".into() } else { show(v) };
        s += " ";
    }
    s + "]"
}
extern "C" fn print_bool_arr(t: *const u8, n: i64, a: *const Arr<u8>) {
    ev(format!("print_bool_arr {} {}", tag(t, n), arr(a, |v| (v & 1).to_string())))
}
extern "C" fn print_int_arr(t: *const u8, n: i64, a: *const Arr<i64>) {
    ev(format!("print_int_arr {} {}", tag(t, n), arr(a, |v| v.to_string())))
}
extern "C" fn print_uint_arr(t: *const u8, n: i64, a: *const Arr<u64>) {
    ev(format!("print_uint_arr {} {}", tag(t, n), arr(a, |v| v.to_string())))
}
extern "C" fn print_float_arr(t: *const u8, n: i64, a: *const Arr<f64>) {
    ev(format!("print_float_arr {} {}", tag(t, n), arr(a, |v| format!("{v:?}"))))
}
extern "C" fn print_state(t: *const u8, n: i64, a: *const Arr<i64>) {
    let q = arr(a, |v| v.to_string());
    let q: Vec<&str> = q.trim_matches(|c| "[] ".contains(c)).split(' ').filter(|x| !x.is_empty()).collect();
    ev(format!("print_state {} [{}]", tag(t, n), q.join(", ")))
}
extern "C" fn panic(code: i32, msg: *const u8) -> ! {
    end(&format!("panic {} {}", code as u32, text(msg)))
}
extern "C" fn panic_str(code: i32, msg: *const c_char) -> ! {
    let s = unsafe { std::ffi::CStr::from_ptr(msg) }.to_string_lossy().into_owned();
    end(&format!("panic {} {s}", code as u32))
}
const GUARD: usize = 32;
extern "C" fn heap_alloc(n: u64) -> *mut u8 {
    let n = n as usize;
    unsafe {
        let p = libc::malloc(n + GUARD) as *mut u8;
        // contents of new memory are arbitrary
        std::ptr::write_bytes(p, 0xa5, n + GUARD);
        w().heap.insert(p as usize, n);
        p
    }
}
extern "C" fn heap_free(p: *mut u8) {
    let Some(n) = w().heap.remove(&(p as usize)) else { end("ERROR memory freed that was not allocated") };
    if (0..GUARD).any(|i| unsafe { *p.add(n + i) } != 0xa5) {
        end("ERROR write behind an allocation")
    }
    unsafe {
        std::ptr::write_bytes(p, 0x5a, n + GUARD);
    }
}
extern "C" fn random_seed(s: u64) {
    ev(format!("random_seed {s}"));
    w().m.tok += 1;
}
extern "C" fn random_int() -> u32 {
    ev("random_int".into());
    w().m.tok += 1;
    w().m.random("RandomInt", 0) as u32
}
extern "C" fn random_float() -> f64 {
    ev("random_float".into());
    w().m.tok += 1;
    w().m.tok as f64 * 0.125
}
extern "C" fn random_rng(b: u32) -> u32 {
    ev(format!("random_rng {b}"));
    w().m.tok += 1;
    w().m.random("RandomIntBounded", b as u64) as u32
}
extern "C" fn random_advance(d: u64) {
    ev(format!("random_advance {d}"));
    w().m.tok += 1;
}
extern "C" fn shot() -> u64 {
    ev("shot".into());
    7
}
fn gpu(s: String) -> bool {
    ev(s);
    let m = &mut w().m;
    let k = if m.gpu.may_fail { m.oracle.choose(3) } else { 0 };
    if k > 0 {
        unsafe { GPU_FAIL = k }
    }
    k == 0
}
static mut GPU_FAIL: u8 = 0;
fn cstr(p: *const c_char) -> String {
    unsafe { std::ffi::CStr::from_ptr(p) }.to_string_lossy().into_owned()
}
extern "C" fn gpu_validate_api(a: u64, b: u64, c: u64) -> u8 {
    gpu(format!("gpu_validate_api {a} {b} {c}")) as u8
}
extern "C" fn gpu_init(n: u64, out: *mut u64) -> u8 {
    let r = gpu(format!("gpu_init {n}"));
    if r {
        unsafe { *out = w().m.gpu.context() }
    }
    r as u8
}
extern "C" fn gpu_discard(c: u64) -> u8 {
    gpu(format!("gpu_discard {c}")) as u8
}
extern "C" fn gpu_get_error() -> *const c_char {
    ev("gpu_get_error".into());
    static MSG: &std::ffi::CStr = c"the library's own account of what went wrong";
    assert_eq!(MSG.to_str(), Ok(crate::interp::GPU_ERROR));
    match unsafe { GPU_FAIL } {
        1 => MSG.as_ptr(),
        _ => std::ptr::null(),
    }
}
extern "C" fn gpu_get_function_id(name: *const c_char, out: *mut u64) -> u8 {
    let n = cstr(name);
    let r = gpu(format!("gpu_get_function_id {n}"));
    if r {
        unsafe { *out = crate::interp::Gpu::id(&n) }
    }
    r as u8
}
extern "C" fn gpu_call(c: u64, f: u64, size: u64, blob: *const u8, sig: *const c_char) -> u8 {
    let sig = cstr(sig);
    let (ins, out) = sig.split_once(':').unwrap_or((&sig, "?"));
    let b = unsafe { std::slice::from_raw_parts(blob, size as usize) };
    let mut i = 0;
    let mut vals = vec![];
    for k in ins.chars() {
        let n = if k == 'b' { 1 } else { 8 };
        let Some(x) = b.get(i..i + n) else {
            vals.push("END-OF-BLOB".into());
            break;
        };
        i += n;
        let word = || <[u8; 8]>::try_from(x).unwrap();
        vals.push(match k {
            'b' => x[0].to_string(),
            'i' => u64::from_ne_bytes(word()).to_string(),
            'f' => format!("{:?}", f64::from_ne_bytes(word())),
            _ => format!("BAD-TYPE-{k}"),
        });
    }
    if i != b.len() {
        vals.push(format!("AND-{}-MORE-BYTES", b.len() - i));
    }
    w().gpu.insert(c, out == "f");
    gpu(format!("gpu_call {c} {f} {sig} {}", vals.join(","))) as u8
}
extern "C" fn gpu_get_result(c: u64, n: u64, out: *mut u8) -> u8 {
    let r = gpu(format!("gpu_get_result {c} {n}"));
    if r {
        let float = w().gpu.get(&c).copied().unwrap_or(false);
        let x = w().m.gpu.result(float).to_ne_bytes();
        unsafe { std::ptr::copy_nonoverlapping(x.as_ptr(), out, (n as usize).min(8)) }
    }
    r as u8
}
pub fn table() -> Vec<(&'static str, usize)> {
    vec![
        ("setup", setup as *const () as usize),
        ("teardown", teardown as *const () as usize),
        ("___qalloc", qalloc as *const () as usize),
        ("___qfree", qfree as *const () as usize),
        ("___rz", rz as *const () as usize),
        ("___rzz", rzz as *const () as usize),
        ("___rxy", rxy as *const () as usize),
        ("___measure", measure as *const () as usize),
        ("___lazy_measure", lazy as *const () as usize),
        ("___lazy_measure_leaked", lazy_leaked as *const () as usize),
        ("___reset", reset as *const () as usize),
        ("___read_future_bool", read_bool as *const () as usize),
        ("___read_future_uint", read_uint as *const () as usize),
        ("___inc_future_refcount", inc as *const () as usize),
        ("___dec_future_refcount", dec as *const () as usize),
        ("print_bool", print_bool as *const () as usize),
        ("print_int", print_int as *const () as usize),
        ("print_uint", print_uint as *const () as usize),
        ("print_float", print_float as *const () as usize),
        ("print_bool_arr", print_bool_arr as *const () as usize),
        ("print_int_arr", print_int_arr as *const () as usize),
        ("print_uint_arr", print_uint_arr as *const () as usize),
        ("print_float_arr", print_float_arr as *const () as usize),
        ("print_state_result", print_state as *const () as usize),
        ("panic", panic as *const () as usize),
        ("panic_str", panic_str as *const () as usize),
        ("heap_alloc", heap_alloc as *const () as usize),
        ("heap_free", heap_free as *const () as usize),
        ("random_seed", random_seed as *const () as usize),
        ("random_int", random_int as *const () as usize),
        ("random_float", random_float as *const () as usize),
        ("random_rng", random_rng as *const () as usize),
        ("random_advance", random_advance as *const () as usize),
        ("gpu_validate_api", gpu_validate_api as *const () as usize),
        ("gpu_init", gpu_init as *const () as usize),
        ("gpu_discard", gpu_discard as *const () as usize),
        ("gpu_get_error", gpu_get_error as *const () as usize),
        ("gpu_get_function_id", gpu_get_function_id as *const () as usize),
        ("gpu_call", gpu_call as *const () as usize),
        ("gpu_get_result", gpu_get_result as *const () as usize),
        ("get_current_shot", shot as *const () as usize),
    ]
}
