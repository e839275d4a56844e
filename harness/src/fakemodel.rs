//! Stand-in for the robot's model library: every function records its arguments and writes a
//! digest of its own name and of them into the output array.
use std::cell::RefCell;
pub const MAGIC: &[u8] = b"\x7fELF-FAKE-MODEL";
/// An image whose last bytes the loader does not need (like the section headers of a real library).
const LAX: &[u8] = b"\x7fELF-FAKE-LAX..";
pub fn loadable(d: &[u8]) -> bool {
    if d.len() >= 23 && d.starts_with(LAX) {
        return true;
    }
    // magic, u32 total length: a truncated image is not loadable
    d.len() >= MAGIC.len() + 4
        && &d[..MAGIC.len()] == MAGIC
        && u32::from_le_bytes(d[MAGIC.len()..MAGIC.len() + 4].try_into().unwrap()) as usize == d.len()
}
pub fn image(len: usize) -> Vec<u8> {
    let mut v = MAGIC.to_vec();
    v.extend_from_slice(&(len as u32).to_le_bytes());
    let mut x = 12345u32;
    while v.len() < len {
        x = x.wrapping_mul(1664525).wrapping_add(1013904223);
        v.push((x >> 24) as u8);
    }
    v
}
pub fn image_lax(len: usize) -> Vec<u8> {
    let mut v = image(len);
    v[..LAX.len()].copy_from_slice(LAX);
    v
}
#[derive(Clone, Debug, PartialEq)]
pub struct CallRec {
    pub name: &'static str,
    pub args: Vec<Vec<u64>>,
}
thread_local! { pub static CALLS: RefCell<Vec<CallRec>> = const { RefCell::new(Vec::new()) }; }
pub fn take() -> Vec<CallRec> {
    CALLS.with(|c| std::mem::take(&mut *c.borrow_mut()))
}
/// Deterministic output of a model function: a function of name and arguments.
pub fn output(name: &str, args: &[Vec<u64>], n: usize) -> Vec<f64> {
    let mut h = 0xcbf29ce484222325u64;
    let mut eat = |b: u64| {
        h ^= b;
        h = h.wrapping_mul(0x100000001b3);
        h ^= h >> 29;
    };
    for b in name.bytes() {
        eat(b as u64);
    }
    for a in args {
        eat(a.len() as u64);
        for x in a {
            eat(*x);
        }
    }
    (0..n)
        .map(|i| {
            let z = h.wrapping_add((i as u64 + 1).wrapping_mul(0x9E3779B97F4A7C15));
            let z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
            ((z >> 12) as f64) / ((1u64 << 52) as f64) + i as f64
        })
        .collect()
}
unsafe fn arr(p: *const f64, n: usize) -> Vec<u64> {
    std::slice::from_raw_parts(p, n).iter().map(|x| x.to_bits()).collect()
}
unsafe fn finish(name: &'static str, args: Vec<Vec<u64>>, out: *mut f64, n: usize) {
    let o = output(name, &args, n);
    std::ptr::copy_nonoverlapping(o.as_ptr(), out, n);
    let open = crate::world::with(|w| w.k.dl_handles.iter().any(|p| !p.is_empty() && !p.contains("libm.so")));
    let name = if open { name } else { "(a function of the closed library)" };
    CALLS.with(|c| c.borrow_mut().push(CallRec { name, args }));
}
macro_rules! f_out { ($f:ident, $s:expr, $n:expr) => { unsafe extern "C" fn $f(o: *mut f64) { finish($s, vec![], o, $n) } }; }
macro_rules! f_q { ($f:ident, $s:expr, $n:expr) => { unsafe extern "C" fn $f(q: *const f64, o: *mut f64) { finish($s, vec![arr(q, 7)], o, $n) } }; }
macro_rules! f_qt { ($f:ident, $s:expr, $n:expr) => { unsafe extern "C" fn $f(q: *const f64, t: *const f64, o: *mut f64) { finish($s, vec![arr(q, 7), arr(t, 16)], o, $n) } }; }
f_out!(ji1, "Ji_J_J1", 42);
f_q!(ji2, "Ji_J_J2", 42);
f_q!(ji3, "Ji_J_J3", 42);
f_q!(ji4, "Ji_J_J4", 42);
f_q!(ji5, "Ji_J_J5", 42);
f_q!(ji6, "Ji_J_J6", 42);
f_q!(ji7, "Ji_J_J7", 42);
f_q!(ji8, "Ji_J_J8", 42);
f_qt!(ji9, "Ji_J_J9", 42);
f_out!(oj1, "O_J_J1", 42);
f_q!(oj2, "O_J_J2", 42);
f_q!(oj3, "O_J_J3", 42);
f_q!(oj4, "O_J_J4", 42);
f_q!(oj5, "O_J_J5", 42);
f_q!(oj6, "O_J_J6", 42);
f_q!(oj7, "O_J_J7", 42);
f_q!(oj8, "O_J_J8", 42);
f_qt!(oj9, "O_J_J9", 42);
f_q!(ot1, "O_T_J1", 16);
f_q!(ot2, "O_T_J2", 16);
f_q!(ot3, "O_T_J3", 16);
f_q!(ot4, "O_T_J4", 16);
f_q!(ot5, "O_T_J5", 16);
f_q!(ot6, "O_T_J6", 16);
f_q!(ot7, "O_T_J7", 16);
f_q!(ot8, "O_T_J8", 16);
f_qt!(ot9, "O_T_J9", 16);
unsafe extern "C" fn m_ne(q: *const f64, i: *const f64, m: f64, c: *const f64, o: *mut f64) {
    finish("M_NE", vec![arr(q, 7), arr(i, 9), vec![m.to_bits()], arr(c, 3)], o, 49)
}
unsafe extern "C" fn c_ne(q: *const f64, dq: *const f64, i: *const f64, m: f64, c: *const f64, o: *mut f64) {
    finish("c_NE", vec![arr(q, 7), arr(dq, 7), arr(i, 9), vec![m.to_bits()], arr(c, 3)], o, 7)
}
unsafe extern "C" fn g_ne(q: *const f64, g: *const f64, m: f64, c: *const f64, o: *mut f64) {
    finish("g_NE", vec![arr(q, 7), arr(g, 3), vec![m.to_bits()], arr(c, 3)], o, 7)
}
pub fn symbol(n: &str) -> usize {
    match n.trim_end_matches('\0') {
        "M_NE" => m_ne as *const () as usize,
        "c_NE" => c_ne as *const () as usize,
        "g_NE" => g_ne as *const () as usize,
        "Ji_J_J1" => ji1 as *const () as usize,
        "Ji_J_J2" => ji2 as *const () as usize,
        "Ji_J_J3" => ji3 as *const () as usize,
        "Ji_J_J4" => ji4 as *const () as usize,
        "Ji_J_J5" => ji5 as *const () as usize,
        "Ji_J_J6" => ji6 as *const () as usize,
        "Ji_J_J7" => ji7 as *const () as usize,
        "Ji_J_J8" => ji8 as *const () as usize,
        "Ji_J_J9" => ji9 as *const () as usize,
        "O_J_J1" => oj1 as *const () as usize,
        "O_J_J2" => oj2 as *const () as usize,
        "O_J_J3" => oj3 as *const () as usize,
        "O_J_J4" => oj4 as *const () as usize,
        "O_J_J5" => oj5 as *const () as usize,
        "O_J_J6" => oj6 as *const () as usize,
        "O_J_J7" => oj7 as *const () as usize,
        "O_J_J8" => oj8 as *const () as usize,
        "O_J_J9" => oj9 as *const () as usize,
        "O_T_J1" => ot1 as *const () as usize,
        "O_T_J2" => ot2 as *const () as usize,
        "O_T_J3" => ot3 as *const () as usize,
        "O_T_J4" => ot4 as *const () as usize,
        "O_T_J5" => ot5 as *const () as usize,
        "O_T_J6" => ot6 as *const () as usize,
        "O_T_J7" => ot7 as *const () as usize,
        "O_T_J8" => ot8 as *const () as usize,
        "O_T_J9" => ot9 as *const () as usize,
        _ => 0,
    }
}
