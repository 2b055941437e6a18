//! Harness runtime. In the wasm build the functions are requests to the symbolic executor; in the
//! native build they read a concrete model, so that the same harness replays a counterexample
//! against the natively compiled code.

#[cfg(target_arch = "wasm32")]
mod sys {
    #[link(wasm_import_module = "wsym")]
    extern "C" {
        fn sym(name: *const u8, name_len: usize, ptr: *mut u8, len: usize);
        #[link_name = "assume"]
        fn assume_(c: u32);
        fn fail(ptr: *const u8, len: usize) -> !;
        #[link_name = "reach"]
        fn reach_(i: u32);
        #[link_name = "observe"]
        fn observe_(t: *const u8, tl: usize, p: *const u8, l: usize);
        #[link_name = "param"]
        fn param_(i: u32) -> u32;
        #[link_name = "pin"]
        fn pin_(x: u64) -> u64;
        #[link_name = "set_clock"]
        fn set_clock_(ns: u64);
        #[link_name = "set_wall"]
        fn set_wall_(s: u64, ns: u32);
        fn debug(ptr: *const u8, len: usize);
    }
    pub fn fill(name: &str, buf: &mut [u8]) {
        unsafe { sym(name.as_ptr(), name.len(), buf.as_mut_ptr(), buf.len()) }
    }
    pub fn assume(c: bool) {
        unsafe { assume_(c as u32) }
    }
    pub fn failed(msg: &str) -> ! {
        unsafe { fail(msg.as_ptr(), msg.len()) }
    }
    pub fn reach(i: u32) {
        unsafe { reach_(i) }
    }
    pub fn observe(tag: &str, d: &[u8]) {
        unsafe { observe_(tag.as_ptr(), tag.len(), d.as_ptr(), d.len()) }
    }
    pub fn param(i: u32) -> u32 {
        unsafe { param_(i) }
    }
    pub fn pin(x: u64) -> u64 {
        unsafe { pin_(x) }
    }
    pub fn set_clock(ns: u64) {
        unsafe { set_clock_(ns) }
    }
    /// The wall clock in seconds and nanoseconds (symbolic times need no division this way).
    pub fn set_wall(s: u64, ns: u32) {
        unsafe { set_wall_(s, ns) }
    }
    /// A directory for files: of the executor's stub here, a scratch directory in the native run.
    pub fn scratch() -> String {
        std::fs::create_dir("/d").unwrap();
        "/d".to_string()
    }
    pub fn dbg(s: &str) {
        unsafe { debug(s.as_ptr(), s.len()) }
    }
    pub fn init() {
        std::panic::set_hook(Box::new(|i| failed(&super::panic_text(i))));
    }
}

#[cfg(not(target_arch = "wasm32"))]
mod sys {
    use std::collections::HashMap;
    use std::sync::OnceLock;
    static MODEL: OnceLock<HashMap<String, Vec<u8>>> = OnceLock::new();
    static PARAMS: OnceLock<Vec<u32>> = OnceLock::new();
    static CLOCK: std::sync::atomic::AtomicU64 = std::sync::atomic::AtomicU64::new(1_700_000_000_000_000_000);

    fn model() -> &'static HashMap<String, Vec<u8>> {
        MODEL.get_or_init(|| {
            let path = std::env::var("WSYM_MODEL").expect("WSYM_MODEL names a model file");
            let text = std::fs::read_to_string(path).expect("model file");
            // lines: name hexbytes
            text.lines()
                .filter(|l| !l.starts_with('#') && !l.is_empty())
                .map(|l| {
                    let (n, h) = l.rsplit_once(' ').expect("name hex");
                    let b = (0..h.len() / 2).map(|i| u8::from_str_radix(&h[2 * i..2 * i + 2], 16).unwrap()).collect();
                    (n.to_string(), b)
                })
                .collect()
        })
    }
    pub fn fill(name: &str, buf: &mut [u8]) {
        match model().get(name) {
            Some(b) if b.len() == buf.len() => buf.copy_from_slice(b),
            Some(_) => panic!("model has another length for {name}"),
            None => buf.fill(0),
        }
    }
    pub fn assume(c: bool) {
        if !c {
            println!("WSYM-ASSUME");
            std::process::exit(2);
        }
    }
    pub fn failed(msg: &str) -> ! {
        println!("WSYM-FAIL: {msg}");
        std::process::exit(1);
    }
    pub fn reach(_: u32) {}
    pub fn observe(tag: &str, d: &[u8]) {
        let mut h = 0xcbf29ce484222325u64;
        for b in d {
            h = (h ^ *b as u64).wrapping_mul(0x100000001b3);
        }
        println!("WSYM-OBS {tag} {h:016x} {}", d.len());
        if std::env::var("WSYM_SHOW").is_ok() {
            println!("{}", String::from_utf8_lossy(d));
        }
    }
    pub fn param(i: u32) -> u32 {
        let p = PARAMS.get_or_init(|| {
            std::env::var("WSYM_PARAMS").unwrap_or_default().split(',').filter(|x| !x.is_empty()).map(|x| x.parse().unwrap()).collect()
        });
        p.get(i as usize).copied().unwrap_or(0)
    }
    pub fn pin(x: u64) -> u64 {
        x
    }
    pub fn set_clock(ns: u64) {
        CLOCK.store(ns, std::sync::atomic::Ordering::Relaxed);
    }
    pub fn set_wall(s: u64, ns: u32) {
        CLOCK.store(s * 1_000_000_000 + ns as u64, std::sync::atomic::Ordering::Relaxed);
    }
    extern "C" fn clean() {
        let _ = std::fs::remove_dir_all(format!("/tmp/wsym-scratch-{}", std::process::id()));
    }
    pub fn scratch() -> String {
        unsafe extern "C" {
            fn atexit(f: extern "C" fn()) -> i32;
        }
        let d = format!("/tmp/wsym-scratch-{}", std::process::id());
        std::fs::create_dir(&d).unwrap();
        unsafe { atexit(clean) };
        d
    }
    pub fn dbg(s: &str) {
        if std::env::var("WSYM_SHOW").is_ok() {
            println!("[debug] {s}");
        }
    }
    pub fn init() {
        std::panic::set_hook(Box::new(|i| failed(&super::panic_text(i))));
    }
    /// The replay sees the same stubbed clock as the executor: this definition takes the place of
    /// libc's in the replay binary.
    #[unsafe(no_mangle)]
    pub unsafe extern "C" fn clock_gettime(_: i32, ts: *mut i64) -> i32 {
        let ns = CLOCK.load(std::sync::atomic::Ordering::Relaxed);
        unsafe {
            *ts = (ns / 1_000_000_000) as i64;
            *ts.add(1) = (ns % 1_000_000_000) as i64;
        }
        0
    }
}

pub use sys::*;

fn panic_text(i: &std::panic::PanicHookInfo) -> String {
    let mut s = String::from("panic");
    if let Some(l) = i.location() {
        // path below the repository or the registry, whichever build produced it
        let f = l.file();
        let f = f.rfind("/crates/").map(|k| &f[k + 1..]).unwrap_or(f);
        s.push_str(" at ");
        s.push_str(f);
    }
    if let Some(m) = i.payload().downcast_ref::<&str>() {
        s.push_str(": ");
        s.push_str(m);
    } else if let Some(m) = i.payload().downcast_ref::<String>() {
        s.push_str(": ");
        s.push_str(m);
    }
    s
}

pub fn bytes<const N: usize>(name: &str) -> [u8; N] {
    let mut b = [0; N];
    fill(name, &mut b);
    b
}
pub fn u8(name: &str) -> u8 {
    bytes::<1>(name)[0]
}
pub fn u16(name: &str) -> u16 {
    u16::from_le_bytes(bytes(name))
}
pub fn u32(name: &str) -> u32 {
    u32::from_le_bytes(bytes(name))
}
pub fn u64(name: &str) -> u64 {
    u64::from_le_bytes(bytes(name))
}
pub fn i32(name: &str) -> i32 {
    u32(name) as i32
}
pub fn i64(name: &str) -> i64 {
    u64(name) as i64
}
/// A value below `n`.
pub fn choose(name: &str, n: u8) -> u8 {
    let x = u8(name);
    assume(x < n);
    x
}
pub fn flag(name: &str) -> bool {
    choose(name, 2) == 1
}
/// One of `xs`; forks (each outcome continues with concrete bytes).
pub fn pick<'a, T: ?Sized>(name: &str, xs: &[&'a T]) -> &'a T {
    let i = pin(choose(name, xs.len() as u8) as u64) as usize;
    xs[i]
}
pub fn check(c: bool, msg: &str) {
    if !c {
        failed(msg);
    }
}
#[macro_export]
macro_rules! ensure {
    ($c:expr, $($t:tt)*) => { if !$c { $crate::failed(&format!($($t)*)) } };
}

/// Exports each check to the executor and to the native replay binary.
#[macro_export]
macro_rules! checks {
    ($($name:ident),* $(,)?) => {
        #[cfg(target_arch = "wasm32")]
        mod exported {
            $(
                #[unsafe(no_mangle)]
                pub extern "C" fn $name() {
                    $crate::init();
                    super::$name()
                }
            )*
        }
        pub fn dispatch(name: &str) {
            $crate::init();
            match name {
                $(stringify!($name) => $name(),)*
                _ => panic!("no such check {name}"),
            }
        }
    };
}

#[macro_export]
macro_rules! replay_main {
    ($lib:ident) => {
        fn main() {
            let name = std::env::args().nth(1).expect("check name");
            $lib::dispatch(&name);
            println!("WSYM-OK");
        }
    };
}

/// `if c { a } else { b }` without a branch, so that the executor keeps one state with a symbolic
/// value instead of two states. `T` is plain data without padding-dependent meaning.
pub fn sel<T: Copy>(c: bool, a: T, b: T) -> T {
    let m = 0u8.wrapping_sub(c as u8);
    let mut out = b;
    let n = std::mem::size_of::<T>();
    unsafe {
        let pa = &a as *const T as *const u8;
        let pb = &b as *const T as *const u8;
        let po = &mut out as *mut T as *mut u8;
        for i in 0..n {
            let (x, y) = (pa.add(i).read_volatile(), pb.add(i).read_volatile());
            po.add(i).write_volatile(y ^ ((x ^ y) & m));
        }
    }
    out
}

/// Up to `max` symbolic bytes that form valid UTF-8: ASCII and, if `wide`, also the two-byte 'é'
/// (C3 A9). The length is symbolic too (one path per length).
pub fn text(name: &str, max: usize, wide: bool) -> String {
    let n = pin(choose(&format!("{name}.len"), max as u8 + 1) as u64) as usize;
    let mut b = vec![0u8; max];
    fill(name, &mut b);
    b.truncate(n);
    let mut cont = false;
    for (i, x) in b.iter().enumerate() {
        if cont {
            assume(*x == 0xa9);
            cont = false;
        } else if wide && *x >= 0x80 {
            assume(*x == 0xc3 && i + 1 < n);
            cont = true;
        } else {
            assume(*x < 0x80);
        }
    }
    unsafe { String::from_utf8_unchecked(b) }
}

/// Text over an alphabet.
pub fn word(name: &str, max: usize, alphabet: &[u8]) -> String {
    let n = pin(choose(&format!("{name}.len"), max as u8 + 1) as u64) as usize;
    let mut b = vec![0u8; max];
    fill(name, &mut b);
    b.truncate(n);
    let mut allowed = [0u8; 256];
    for a in alphabet {
        allowed[*a as usize] = 1;
    }
    for x in &b {
        assume(allowed[*x as usize] == 1);
    }
    unsafe { String::from_utf8_unchecked(b) }
}
