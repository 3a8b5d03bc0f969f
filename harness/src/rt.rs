//! Harness interface. Under the engine these are uninterpreted externals; natively (feature
//! "native") they replay recorded values, so the same harness code judges the real build.

#[cfg(not(feature = "native"))]
mod imp {
    extern "C" {
        fn rsx_bytes(p: *mut u8, n: u64);
        fn rsx_u64() -> u64;
        fn rsx_u8() -> u8;
        fn rsx_in(lo: u64, hi: u64) -> u8;
        fn rsx_warm();
        fn rsx_choose(n: u64) -> u64;
        fn rsx_concrete(n: u64) -> u64;
        fn rsx_assume(c: bool);
        fn rsx_check(c: bool, p: *const u8, n: u64);
        fn rsx_reach(p: *const u8, n: u64);
        fn rsx_log(v: u64);
        fn rsx_eq(a: *const u8, b: *const u8, n: u64) -> bool;
        fn rsx_maybe(c: bool) -> bool;
        fn rsx_fs_put(p: *const u8, n: u64, d: *const u8, l: u64);
        fn rsx_fs_mkdir(p: *const u8, n: u64);
        fn rsx_fs_get(p: *const u8, n: u64, d: *mut u8, l: u64) -> i64;
        fn rsx_fs_count() -> u64;
        fn rsx_fs_faults(n: u64);
        fn rsx_fs_armed(n: u64);
        fn rsx_fs_nfaults() -> u64;
        fn rsx_fs_nhard() -> u64;
        fn rsx_fs_watch(p: *const u8, n: u64, a: *const u8, al: u64, b: *const u8, bl: u64);
        fn rsx_fs_remove(p: *const u8, n: u64);
        fn rsx_fs_calm(p: *const u8, n: u64, at: u64);
        fn rsx_arg(p: *const u8, n: u64);
        fn rsx_stdout(p: *mut u8, n: u64) -> u64;
        fn rsx_exit_code() -> u64;
    }
    pub fn bytes(b: &mut [u8]) {
        unsafe { rsx_bytes(b.as_mut_ptr(), b.len() as u64) }
    }
    pub fn any_u64() -> u64 {
        unsafe { rsx_u64() }
    }
    pub fn any_u8() -> u8 {
        unsafe { rsx_u8() }
    }
    /// what came before is the same on every path
    pub fn warmed() {
        unsafe { rsx_warm() }
    }
    /// an arbitrary byte in lo..=hi
    pub fn any_in(lo: u8, hi: u8) -> u8 {
        unsafe { rsx_in(lo as u64, hi as u64) }
    }
    pub fn choose(n: usize) -> usize {
        unsafe { rsx_choose(n as u64) as usize }
    }
    pub fn concrete(n: u64) -> u64 {
        unsafe { rsx_concrete(n) }
    }
    pub fn assume(c: bool) {
        unsafe { rsx_assume(c) }
    }
    pub fn check(c: bool, l: &'static str) {
        unsafe { rsx_check(c, l.as_ptr(), l.len() as u64) }
    }
    pub fn reach(l: &'static str) {
        unsafe { rsx_reach(l.as_ptr(), l.len() as u64) }
    }
    pub fn log(v: u64) {
        unsafe { rsx_log(v) }
    }
    /// equality of two byte strings as a single condition
    pub fn eq(a: &[u8], b: &[u8]) -> bool {
        a.len() == b.len() && unsafe { rsx_eq(a.as_ptr(), b.as_ptr(), a.len() as u64) }
    }
    /// false if the condition is plainly false; does not ask the solver
    pub fn maybe(c: bool) -> bool {
        unsafe { rsx_maybe(c) }
    }
    pub fn fs_put(p: &str, d: &[u8]) {
        unsafe { rsx_fs_put(p.as_ptr(), p.len() as u64, d.as_ptr(), d.len() as u64) }
    }
    pub fn fs_mkdir(p: &str) {
        unsafe { rsx_fs_mkdir(p.as_ptr(), p.len() as u64) }
    }
    pub fn fs_get(p: &str) -> Option<Vec<u8>> {
        let mut v = vec![0u8; 65536];
        let n = unsafe { rsx_fs_get(p.as_ptr(), p.len() as u64, v.as_mut_ptr(), v.len() as u64) };
        if n < 0 {
            return None;
        }
        v.truncate(n as usize);
        Some(v)
    }
    pub fn fs_count() -> usize {
        unsafe { rsx_fs_count() as usize }
    }
    pub fn fs_faults(n: usize) {
        unsafe { rsx_fs_faults(n as u64) }
    }
    pub fn fs_armed(b: bool) {
        unsafe { rsx_fs_armed(b as u64) }
    }
    pub fn fs_nfaults() -> usize {
        unsafe { rsx_fs_nfaults() as usize }
    }
    pub fn fs_nhard() -> usize {
        unsafe { rsx_fs_nhard() as usize }
    }
    pub fn fs_watch(p: &str, a: &[u8], b: &[u8]) {
        unsafe { rsx_fs_watch(p.as_ptr(), p.len() as u64, a.as_ptr(), a.len() as u64, b.as_ptr(), b.len() as u64) }
    }
    pub fn fs_remove(p: &str) {
        unsafe { rsx_fs_remove(p.as_ptr(), p.len() as u64) }
    }
    /// reads of this file at `at` or beyond do not fail
    pub fn fs_calm(p: &str, at: usize) {
        unsafe { rsx_fs_calm(p.as_ptr(), p.len() as u64, at as u64) }
    }
    pub fn arg(p: &str) {
        unsafe { rsx_arg(p.as_ptr(), p.len() as u64) }
    }
    pub fn stdout() -> Vec<u8> {
        let mut v = vec![0u8; 65536];
        let n = unsafe { rsx_stdout(v.as_mut_ptr(), v.len() as u64) };
        v.truncate(n as usize);
        v
    }
    pub fn exit_code() -> i32 {
        unsafe { rsx_exit_code() as i32 }
    }
}

#[cfg(feature = "native")]
mod imp {
    use std::sync::Mutex;
    #[derive(Default)]
    pub struct Rep {
        pub inputs: Vec<(u32, u64)>,
        pub pos: usize,
        pub logs: Vec<u64>,
        pub reached: Vec<&'static str>,
        pub args: Vec<String>,
        pub watch: Option<(String, Vec<u8>, Vec<u8>)>,
        pub stdout: Vec<u8>,
        pub exit: i32,
        pub nfaults: usize,
        pub nhard: usize,
    }
    pub static REP: Mutex<Rep> = Mutex::new(Rep { inputs: vec![], pos: 0, logs: vec![], reached: vec![], args: vec![], watch: None, stdout: vec![], exit: 0, nfaults: 0, nhard: 0 });
    fn next(w: u32) -> u64 {
        let mut r = REP.lock().unwrap();
        let p = r.pos;
        r.pos += 1;
        match r.inputs.get(p) {
            Some((x, v)) => {
                if *x != w {
                    println!("MISMATCH width {x} {w}");
                    std::process::exit(4);
                }
                *v
            }
            None => {
                println!("MISMATCH inputs exhausted");
                std::process::exit(4);
            }
        }
    }
    pub fn bytes(b: &mut [u8]) {
        for x in b.iter_mut() {
            *x = next(8) as u8;
        }
    }
    pub fn any_u64() -> u64 {
        next(64)
    }
    pub fn any_u8() -> u8 {
        next(8) as u8
    }
    pub fn warmed() {}
    pub fn any_in(lo: u8, hi: u8) -> u8 {
        let v = next(8) as u8;
        assume((v >= lo) & (v <= hi));
        v
    }
    pub fn choose(n: usize) -> usize {
        let v = next(64) as usize;
        if v >= n {
            println!("MISMATCH choose");
            std::process::exit(4);
        }
        v
    }
    pub fn concrete(n: u64) -> u64 {
        n
    }
    pub fn dump() {
        let r = match REP.lock() {
            Ok(r) => r,
            Err(e) => e.into_inner(),
        };
        println!("REACHED {}", r.reached.join("|"));
        println!("LOGS {}", r.logs.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(","));
    }
    pub fn assume(c: bool) {
        if !c {
            println!("MISMATCH assumption");
            std::process::exit(4);
        }
    }
    pub fn check(c: bool, l: &'static str) {
        if !c {
            dump();
            println!("CHECK FAILED {l}");
            std::process::exit(1);
        }
    }
    pub fn reach(l: &'static str) {
        let mut r = REP.lock().unwrap();
        if !r.reached.contains(&l) {
            r.reached.push(l);
        }
    }
    pub fn log(v: u64) {
        REP.lock().unwrap().logs.push(v);
    }
    pub fn eq(a: &[u8], b: &[u8]) -> bool {
        a == b
    }
    pub fn maybe(c: bool) -> bool {
        c
    }
    pub fn fs_put(p: &str, d: &[u8]) {
        std::fs::write(p, d).unwrap();
    }
    pub fn fs_mkdir(p: &str) {
        std::fs::create_dir(p).unwrap();
    }
    pub fn fs_get(p: &str) -> Option<Vec<u8>> {
        std::fs::read(p).ok()
    }
    pub fn fs_count() -> usize {
        std::fs::read_dir(".").unwrap().count()
    }
    pub fn fs_faults(_n: usize) {}
    extern "C" {
        fn dlsym(h: *mut std::ffi::c_void, n: *const std::ffi::c_char) -> *mut std::ffi::c_void;
    }
    /// tells the preloaded fault injector, if there is one
    fn shim(name: &std::ffi::CStr, v: i32) -> i32 {
        unsafe {
            let f = dlsym(std::ptr::null_mut(), name.as_ptr());
            if f.is_null() {
                return 0;
            }
            let f: extern "C" fn(i32) -> i32 = std::mem::transmute(f);
            f(v)
        }
    }
    pub fn fs_armed(b: bool) {
        shim(c"rsx_shim_arm", b as i32);
    }
    pub fn fs_nfaults() -> usize {
        REP.lock().unwrap().nfaults + shim(c"rsx_shim_faults", 0) as usize
    }
    pub fn fs_nhard() -> usize {
        REP.lock().unwrap().nhard + shim(c"rsx_shim_faults", 1) as usize
    }
    pub fn fs_watch(p: &str, a: &[u8], b: &[u8]) {
        REP.lock().unwrap().watch = Some((p.to_string(), a.to_vec(), b.to_vec()));
    }
    pub fn fs_remove(p: &str) {
        let _ = std::fs::remove_file(p);
    }
    pub fn fs_calm(_p: &str, _at: usize) {}
    pub fn arg(p: &str) {
        REP.lock().unwrap().args.push(p.to_string());
    }
    pub fn stdout() -> Vec<u8> {
        REP.lock().unwrap().stdout.clone()
    }
    pub fn exit_code() -> i32 {
        REP.lock().unwrap().exit
    }
}
pub use imp::*;
