//! Access to the preloaded shim (see shim/shim.c).
use std::ffi::{c_char, c_int, c_void, CStr, CString};

extern "C" {
    fn dlsym(handle: *mut c_void, name: *const c_char) -> *mut c_void;
}

#[repr(C)]
#[derive(Default, Clone, Debug)]
pub struct Stats {
    pub now: u64,
    pub clock: u64,
    pub alloc: u64,
    pub io: u64,
    pub rnd: u64,
    pub clock_after: u64,
    pub alloc_after: u64,
    pub sched: u64,
    pub sw: u64,
    pub loghash: u64,
    pub loglen: u64,
    pub fault: [u64; 8],
}

pub struct Shim {
    arm: extern "C" fn(*const c_char) -> c_int,
    disarm: extern "C" fn(),
    on: extern "C" fn(c_int),
    stats: extern "C" fn(*mut Stats),
    log: extern "C" fn() -> *const c_char,
    mark: extern "C" fn(extern "C" fn()),
    mark_at: extern "C" fn(u64),
    now: extern "C" fn() -> u64,
}

fn sym(name: &str) -> *mut c_void {
    let n = CString::new(name).unwrap();
    unsafe { dlsym(std::ptr::null_mut(), n.as_ptr()) }
}

impl Shim {
    pub fn get() -> Option<Shim> {
        unsafe {
            let (a, d, o, s, l, m) = (sym("sim_arm"), sym("sim_disarm"), sym("sim_thread_on"), sym("sim_stats"), sym("sim_log"), sym("sim_on_mark"));
            if a.is_null() {
                return None;
            }
            Some(Shim {
                arm: std::mem::transmute::<*mut c_void, extern "C" fn(*const c_char) -> c_int>(a),
                disarm: std::mem::transmute::<*mut c_void, extern "C" fn()>(d),
                on: std::mem::transmute::<*mut c_void, extern "C" fn(c_int)>(o),
                stats: std::mem::transmute::<*mut c_void, extern "C" fn(*mut Stats)>(s),
                log: std::mem::transmute::<*mut c_void, extern "C" fn() -> *const c_char>(l),
                mark_at: std::mem::transmute::<*mut c_void, extern "C" fn(u64)>(sym("sim_mark_at")),
                now: std::mem::transmute::<*mut c_void, extern "C" fn() -> u64>(sym("sim_now")),
                mark: std::mem::transmute::<*mut c_void, extern "C" fn(extern "C" fn())>(m),
            })
        }
    }
    pub fn arm(&self, plan: &str) {
        let c = CString::new(plan).unwrap();
        let r = (self.arm)(c.as_ptr());
        assert!(r == 0, "bad plan ({r}):\n{plan}");
    }
    pub fn disarm(&self) {
        (self.disarm)();
    }
    pub fn on(&self, on: bool) {
        (self.on)(c_int::from(on));
    }
    /// `f` is called (from inside the allocator or a clock reading) when the `mark` time is passed
    pub fn on_mark(&self, f: extern "C" fn()) {
        (self.mark)(f);
    }
    /// set the marked time
    pub fn mark_at(&self, ns: u64) {
        (self.mark_at)(ns);
    }
    /// the simulated time, without advancing it
    pub fn now(&self) -> u64 {
        (self.now)()
    }
    pub fn stats(&self) -> Stats {
        let mut s = Stats::default();
        (self.stats)(&mut s);
        s
    }
    pub fn log(&self) -> String {
        unsafe { CStr::from_ptr((self.log)()).to_string_lossy().into_owned() }
    }
}
