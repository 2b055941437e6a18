//! C28: the rolling log, over the executor's file system stub and stepped clock; natively over a scratch directory.
use rolling_logger::{RollingLogger, RotateStrategy};
use std::io::Write;

#[cfg(target_arch = "wasm32")]
mod fault {
    #[link(wasm_import_module = "wsym")]
    unsafe extern "C" {
        #[link_name = "fs_fault"]
        fn fs_fault(kind: u64, n: u64);
    }
    pub fn set(kind: u64, n: u64) {
        unsafe { fs_fault(kind, n) }
    }
}

#[cfg(not(target_arch = "wasm32"))]
mod fault {
    //! The same faults for the native run: these definitions take the place of libc's in the replay binary.
    use std::sync::atomic::{AtomicU64, Ordering::Relaxed};
    static KIND: AtomicU64 = AtomicU64::new(0);
    static COUNT: AtomicU64 = AtomicU64::new(0);
    unsafe extern "C" {
        fn syscall(n: i64, ...) -> i64;
        fn __errno_location() -> *mut i32;
    }
    pub fn set(kind: u64, n: u64) {
        COUNT.store(n, Relaxed);
        KIND.store(kind, Relaxed);
    }
    fn fail(e: i32) {
        KIND.store(0, Relaxed);
        unsafe { *__errno_location() = e }
    }
    #[unsafe(no_mangle)]
    pub unsafe extern "C" fn write(fd: i32, p: *const u8, mut n: usize) -> isize {
        if fd > 2 {
            match KIND.load(Relaxed) {
                1 => {
                    n = n.min(COUNT.load(Relaxed) as usize);
                    KIND.store(0, Relaxed);
                }
                2 => {
                    fail(28);
                    return -1;
                }
                _ => {}
            }
        }
        unsafe { syscall(1, fd as i64, p, n) as isize }
    }
    #[unsafe(no_mangle)]
    pub unsafe extern "C" fn rename(a: *const u8, b: *const u8) -> i32 {
        if KIND.load(Relaxed) == 3 {
            fail(5);
            return -1;
        }
        unsafe { syscall(82, a, b) as i32 }
    }
    #[unsafe(no_mangle)]
    pub unsafe extern "C" fn open64(p: *const u8, flags: i32, mode: u32) -> i32 {
        if KIND.load(Relaxed) == 4 {
            fail(5);
            return -1;
        }
        unsafe { syscall(2, p, flags as i64, mode as i64) as i32 }
    }
}

fn pick(name: &str, n: usize) -> usize {
    wrt::pin(wrt::choose(name, n as u8) as u64) as usize
}

const SEC: u64 = 1_000_000_000;
const T0: u64 = 1_700_000_000 * SEC + 123_456_789;
/// The time limits, in seconds; the last two have none.
const LIMITS: [u64; 8] = [60, 3600, 86400, 7 * 86400, 30 * 86400, 365 * 86400, u64::MAX / SEC, u64::MAX / SEC];

fn strategy(i: usize, size: u64) -> RotateStrategy {
    match i {
        0 => RotateStrategy::minutely(),
        1 => RotateStrategy::hourly(),
        2 => RotateStrategy::daily(),
        3 => RotateStrategy::weekly(),
        4 => RotateStrategy::monthly(),
        5 => RotateStrategy::yearly(),
        6 => RotateStrategy::never(),
        _ => RotateStrategy::size(size),
    }
}

type Files = std::collections::BTreeMap<String, Vec<u8>>;

fn files(dir: &str) -> Files {
    let mut names: Vec<String> = std::fs::read_dir(dir).unwrap().map(|e| e.unwrap().file_name().into_string().unwrap()).collect();
    names.sort();
    names.into_iter().map(|n| (n.clone(), std::fs::read(format!("{dir}/{n}")).unwrap())).collect()
}

/// Every interval between the start of the log and the writes, all nanoseconds: rotation exactly when the limit is
/// reached, and the interval starts again at the rotation.
pub fn c28_due() {
    let dir = wrt::scratch();
    let path = format!("{dir}/log");
    let s = pick("strategy", 7);
    let limit = LIMITS[s];
    let mut now = (T0 / SEC, (T0 % SEC) as u32);
    wrt::set_wall(now.0, now.1);
    let mut log = RollingLogger::new(&path, strategy(s, 0)).unwrap();
    let mut start = now;
    let mut rotated = 0;
    for k in 0..wrt::param(0) {
        let t = (wrt::u64(&format!("sec{k}")), wrt::u32(&format!("nano{k}")));
        wrt::assume(t.1 < SEC as u32 && t.0 < 9_000_000_000);
        wrt::assume(t.0 > now.0 || t.0 == now.0 && t.1 >= now.1);
        now = t;
        wrt::set_wall(now.0, now.1);
        let passed = now.0 - start.0 - (now.1 < start.1) as u64;
        let due = s < 6 && passed >= limit;
        if due && rotated > 0 {
            // the name of the next file would be a symbolic time
            wrt::assume(false);
        }
        wrt::ensure!(log.write(b"x").is_ok_and(|n| n == 1), "write {k} failed");
        let f = std::fs::read_dir(&dir).unwrap().count();
        if due {
            wrt::ensure!(f == 2, "not rotated when the limit of {limit} s was reached (write {k})");
            rotated = 1;
            start = now;
            wrt::reach(2);
        } else {
            wrt::ensure!(f == 1 + rotated, "rotated before the limit of {limit} s (write {k})");
            wrt::reach(1);
        }
    }
}

/// Histories of writes with short writes, faults, restarts and a clock in steps.
pub fn c28_history() {
    let n = wrt::param(0) as usize;
    let faults = wrt::param(1) as usize;
    let dir = wrt::scratch();
    let path = format!("{dir}/log");
    let s = [0, 3, 6, 7][pick("strategy", 4)];
    let limit = LIMITS[s];
    let max = if s == 7 { wrt::u64("max") } else { 0 };
    let most = 1000 * 365 * 86400;
    let due_in = limit.saturating_mul(SEC);
    let steps = [0, 999, 1_000_000, (due_in - 1).min(most), due_in.min(most)];
    let nsteps = if s >= 6 { 3 } else { 5 };
    let mut now = T0;
    wrt::set_clock(now);
    let mut size = 0u64;
    if pick("existing", 2) == 1 {
        std::fs::write(&path, b"old").unwrap();
        size = 3;
    }
    // what is in the current file, and the rotated files in order of their creation
    let mut current = std::fs::read(&path).unwrap_or_default();
    let mut older: Vec<(String, Vec<u8>)> = vec![];
    let mut log = RollingLogger::new(&path, strategy(s, max)).unwrap();
    let mut start = now;
    for k in 0..n {
        now += steps[pick(&format!("step{k}"), nsteps)];
        wrt::set_clock(now);
        if pick(&format!("reopen{k}"), 2) == 1 {
            wrt::reach(4);
            drop(log);
            log = RollingLogger::new(&path, strategy(s, max)).unwrap();
            start = now;
        }
        let len = pick(&format!("len{k}"), 3) + 1;
        let data: [u8; 3] = wrt::bytes(&format!("data{k}"));
        let data = &data[..len];
        let due = match s {
            6 => false,
            7 => size >= max,
            _ => now - start >= limit * SEC,
        };
        let fault = if faults > 0 { pick(&format!("fault{k}"), faults) as u64 } else { 0 };
        let short = if fault == 1 { pick(&format!("short{k}"), len) } else { 0 };
        fault::set(fault, short as u64);
        let got = log.write(data);
        fault::set(0, 0);
        let done = match &got {
            Ok(m) => *m,
            Err(_) => 0,
        };
        if fault == 0 || fault == 1 {
            wrt::ensure!(got.is_ok(), "write {k} failed: {got:?}");
        }
        wrt::ensure!(got.is_err() || done == if fault == 1 { short } else { len }, "write {k} of {len} bytes: {got:?}");
        let fs = files(&dir);
        // what was there stays as it was
        for (name, content) in &older {
            wrt::ensure!(fs.get(name) == Some(content), "write {k} changed the rotated file {name}");
        }
        let new: Vec<&String> = fs.keys().filter(|f| *f != "log" && !older.iter().any(|o| o.0 == **f)).collect();
        if fault == 0 || fault == 1 {
            wrt::ensure!(new.len() == due as usize, "write {k}: {} new files, rotation due: {due}", new.len());
        } else {
            wrt::ensure!(new.len() <= due as usize, "write {k}: rotated but not due");
        }
        if let [name] = new[..] {
            wrt::reach(2);
            wrt::ensure!(fs[name] == current, "write {k}: the rotated file does not hold the former log");
            older.push((name.clone(), std::mem::take(&mut current)));
            size = 0;
            start = now;
        }
        current.extend(&data[..done]);
        size += done as u64;
        wrt::ensure!(fs.get("log").map_or(&[] as &[u8], |x| x) == current, "write {k}: the current file is not what was written since the last rotation");
        if got.is_err() {
            wrt::reach(3);
            if fault == 4 && !fs.contains_key("log") {
                // the new file could not be created; the log has to be opened again
                log = RollingLogger::new(&path, strategy(s, max)).unwrap();
                start = now;
            }
        }
        wrt::ensure!(log.flush().is_ok(), "flush");
    }
    wrt::reach(1);
    let fs = files(&dir);
    wrt::ensure!(fs.len() == older.len() + 1, "number of files");
    wrt::observe("current", &current);
}

/// Many rotations at nearly the same time: every rotated file stays.
pub fn c28_burst() {
    let dir = wrt::scratch();
    let path = format!("{dir}/log");
    let mut now = T0;
    wrt::set_clock(now);
    let mut log = RollingLogger::new(&path, RotateStrategy::size(1)).unwrap();
    let n = wrt::param(0) as usize;
    let mut want = vec![];
    for k in 0..n {
        now += [0, 1_000_000][pick(&format!("step{k}"), 2)];
        wrt::set_clock(now);
        let data: [u8; 2] = wrt::bytes(&format!("data{k}"));
        wrt::ensure!(log.write(&data).is_ok_and(|m| m == 2), "write {k} failed");
        want.push(data.to_vec());
        let fs = files(&dir);
        wrt::ensure!(fs.keys().all(|f| f == "log" || f.starts_with("log.")), "files {:?}", fs.keys());
        wrt::ensure!(fs.len() == k + 1, "{} files after {} writes of which each is a file", fs.len(), k + 1);
        let rotated: Vec<&Vec<u8>> = fs.iter().filter(|(f, _)| *f != "log").map(|(_, x)| x).collect();
        for (j, w) in want[..k].iter().enumerate() {
            wrt::ensure!(rotated.iter().filter(|x| **x == w).count() == want[..k].iter().filter(|x| *x == w).count(), "what was written by {j} is lost");
        }
        wrt::ensure!(fs["log"] == data, "the current file");
    }
    wrt::reach(1);
}

wrt::checks! { c28_due, c28_history, c28_burst }
