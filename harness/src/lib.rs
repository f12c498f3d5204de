//! Shared parts of the conformance harness: hex and JSON helpers, a manual executor that only
//! polls a task when it was woken, and a watchdog that turns endless loops into data.
use std::{
    io::Write,
    sync::{
        atomic::{AtomicBool, AtomicU64, Ordering},
        Arc, Mutex,
    },
    time::Duration,
};

use futures::task::ArcWake;

pub fn unhex(s: &str) -> Vec<u8> {
    assert!(s.len() % 2 == 0, "odd hex {:?}", s);
    (0..s.len() / 2)
        .map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).unwrap())
        .collect()
}

pub fn hex(b: &[u8]) -> String {
    b.iter().map(|x| format!("{:02x}", x)).collect()
}

/// JSON array of the bytes.
pub fn jb(b: &[u8]) -> String {
    let mut s = String::with_capacity(b.len() * 4 + 2);
    s.push('[');
    for (i, x) in b.iter().enumerate() {
        if i > 0 {
            s.push(',');
        }
        s.push_str(&x.to_string());
    }
    s.push(']');
    s
}

pub fn jbs(bs: &[Vec<u8>]) -> String {
    format!("[{}]", bs.iter().map(|b| jb(b)).collect::<Vec<_>>().join(","))
}

pub fn jstr(s: &str) -> String {
    let mut r = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => r.push_str("\\\""),
            '\\' => r.push_str("\\\\"),
            c if (c as u32) < 32 || (c as u32) > 126 => r.push('?'),
            c => r.push(c),
        }
    }
    r.push('"');
    r
}

/// Wakes by setting a flag.
pub struct Flag(pub AtomicBool);
impl Flag {
    pub fn new() -> Arc<Flag> {
        Arc::new(Flag(AtomicBool::new(true)))
    }
    pub fn is_set(f: &Arc<Flag>) -> bool {
        f.0.load(Ordering::SeqCst)
    }
    pub fn take(&self) -> bool {
        self.0.swap(false, Ordering::SeqCst)
    }
}
impl ArcWake for Flag {
    fn wake_by_ref(f: &Arc<Self>) {
        f.0.store(true, Ordering::SeqCst)
    }
}

/// Deterministic small generator (splitmix64).
pub struct Rng(pub u64);
impl Rng {
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E37_79B9_7F4A_7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
        z ^ (z >> 31)
    }
    pub fn below(&mut self, n: usize) -> usize {
        (self.next() % (n as u64)) as usize
    }
}

/// Case number (odd generations mean "running"), and what to print if it never ends.
static CASE: AtomicU64 = AtomicU64::new(0);
static HANG_LINE: Mutex<Option<String>> = Mutex::new(None);

/// Starts the watchdog thread: a case that runs for more than `secs` prints its hang line and
/// ends the process (exit 0; the reader sees that the following cases are missing).
pub fn watchdog(secs: u64) {
    std::thread::spawn(move || {
        let mut last = 0;
        let mut ticks = 0;
        loop {
            std::thread::sleep(Duration::from_millis(250));
            let c = CASE.load(Ordering::SeqCst);
            if c != last || c % 2 == 0 {
                last = c;
                ticks = 0;
                continue;
            }
            ticks += 1;
            if ticks * 250 > secs * 1000 {
                let line = HANG_LINE.lock().unwrap().clone().unwrap_or_default();
                let out = format!("{}\n", line);
                unsafe {
                    libc::write(1, out.as_ptr() as *const libc::c_void, out.len());
                    libc::_exit(0);
                }
            }
        }
    });
}

pub fn case_begin(hang_line: String) {
    *HANG_LINE.lock().unwrap() = Some(hang_line);
    CASE.fetch_add(1, Ordering::SeqCst);
}
pub fn case_end() {
    CASE.fetch_add(1, Ordering::SeqCst);
}

/// Limits the address space so that runaway allocation aborts this process only.
pub fn limit_memory(gb: u64) {
    unsafe {
        let l = libc::rlimit {
            rlim_cur: gb << 30,
            rlim_max: gb << 30,
        };
        libc::setrlimit(libc::RLIMIT_AS, &l);
    }
}

pub fn quiet_panics() {
    std::panic::set_hook(Box::new(|_| ()));
}

pub fn panic_text(e: Box<dyn std::any::Any + Send>) -> String {
    if let Some(s) = e.downcast_ref::<&str>() {
        s.to_string()
    } else if let Some(s) = e.downcast_ref::<String>() {
        s.clone()
    } else {
        "panic".into()
    }
}

/// Writes one output line at once, so that what was printed survives an abort.
pub fn emit(line: &str) {
    let out = std::io::stdout();
    let mut out = out.lock();
    out.write_all(line.as_bytes()).unwrap();
    out.write_all(b"\n").unwrap();
    out.flush().unwrap();
}

pub fn get<'a>(fields: &'a [(&'a str, &'a str)], k: &str) -> Option<&'a str> {
    fields.iter().find(|f| f.0 == k).map(|f| f.1)
}

pub fn fields(line: &str) -> Vec<(&str, &str)> {
    line.split_whitespace()
        .map(|t| {
            let p = t.find('=').expect("field without =");
            (&t[..p], &t[p + 1..])
        })
        .collect()
}
