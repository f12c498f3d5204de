//! Writes real values out to scripted outputs.
//!
//! Input line: id=N t=c|e|r|s|n in=HEX,... out=SCRIPT,SCRIPT,... off=0|1
//!   t: a command read from the line, an address, a reply line, a text, no address (a null sender)
//!   SCRIPT: a string of answers, one per call: digit k takes at most k bytes, a all of them,
//!   i interrupted, z takes none, e an error; after the script: a.  With :LAST after the script,
//!   the rest is that answer instead.  @N:ANSWER takes N bytes in all (however offered), then ANSWER.
//!   off=1: additionally, for every offset, each of i z e there.
//! Output: {"id":..,"in":[..],"script":"..","w":[..],"ev":[["t",[..]],["i"],["f"],["ok"]]}
use std::{
    io,
    io::BufRead,
    panic::{catch_unwind, AssertUnwindSafe},
};

use bytes::Bytes;
use smtp_message::*;
use vharness::*;

struct Out {
    limit: Option<usize>,
    script: Vec<u8>,
    last: u8,
    calls: usize,
    taken: usize,
    ev: Vec<String>,
}

impl io::Write for Out {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> {
        if b.is_empty() {
            return Ok(0);
        }
        self.calls += 1;
        if self.calls > 20000 {
            self.ev.push("[\"loops\"]".into());
            panic!("too many calls");
        }
        let a = match self.limit {
            Some(n) if self.taken < n => {
                let k = b.len().min(n - self.taken);
                self.taken += k;
                self.ev.push(format!("[\"t\",{}]", jb(&b[..k])));
                return Ok(k);
            }
            Some(_) => {
                self.limit = None;
                self.last
            }
            None if self.script.is_empty() => {
                if self.last == 0 {
                    b'a'
                } else {
                    self.last
                }
            }
            None => self.script.remove(0),
        };
        if a == self.last && b"i".contains(&a) {
            self.last = b'a';
        }
        match a {
            b'i' => {
                self.ev.push("[\"i\"]".into());
                Err(io::Error::from(io::ErrorKind::Interrupted))
            }
            b'z' => {
                self.ev.push("[\"f\"]".into());
                // only once: a writer that goes on is seen to do so
                self.last = b'a';
                Ok(0)
            }
            b'e' => {
                self.ev.push("[\"f\"]".into());
                self.last = b'a';
                Err(io::Error::new(io::ErrorKind::Other, "scripted"))
            }
            _ => {
                let k = if a == b'a' { b.len() } else { b.len().min((a - b'0') as usize) };
                self.taken += k;
                self.ev.push(format!("[\"t\",{}]", jb(&b[..k])));
                Ok(k)
            }
        }
    }
    fn flush(&mut self) -> io::Result<()> {
        Ok(())
    }
}

fn out(s: &str) -> Out {
    let (limit, rest) = if s.starts_with('@') {
        let p = s.find(':').unwrap();
        (Some(s[1..p].parse().unwrap()), &s[p..])
    } else {
        (None, s)
    };
    let (script, last) = match rest.find(':') {
        Some(p) => (&rest[..p], rest.as_bytes()[p + 1]),
        None => (rest, 0),
    };
    Out {
        limit,
        script: script.bytes().collect(),
        last,
        calls: 0,
        taken: 0,
        ev: vec![],
    }
}

type Send<'a> = Box<dyn Fn(&mut dyn io::Write) -> io::Result<()> + 'a>;

fn each(id: &str, b: &[u8], scripts: &[&str], off: bool, write: Send) {
    let mut w = Vec::new();
    write(&mut w).unwrap();
    let one = |s: &str| {
        let mut o = out(s);
        let r = catch_unwind(AssertUnwindSafe(|| write(&mut o)));
        let mut ev = o.ev;
        ev.push(
            match r {
                Ok(Ok(())) => "[\"ok\"]",
                Ok(Err(_)) => "[\"err\"]",
                Err(_) => "[\"panic\"]",
            }
            .into(),
        );
        emit(&format!(
            "{{\"id\":\"{}\",\"in\":{},\"script\":\"{}\",\"w\":{},\"ev\":[{}]}}",
            id,
            jb(b),
            s,
            jb(&w),
            ev.join(",")
        ));
    };
    for s in scripts {
        one(s)
    }
    if off {
        for n in 0..=w.len() {
            for a in &["i", "z", "e"] {
                one(&format!("@{}:{}", n, a))
            }
        }
    }
}

fn run(id: &str, t: &str, b: &[u8], scripts: &[&str], off: bool) {
    let skip = || {
        emit(&format!("{{\"id\":\"{}\",\"skip\":true}}", id));
    };
    match t {
        "c" => match catch_unwind(|| Command::parse(Bytes::from(b))) {
            Ok(Ok(c)) => each(id, b, scripts, off, Box::new(|w| c.send_to(w))),
            _ => skip(),
        },
        "e" => match catch_unwind(|| Email::parse_slice(b)) {
            Ok(Ok(c)) => {
                each(id, b, scripts, off, Box::new(|w| c.send_to(w)));
                let c = Some(c);
                each(id, b, scripts, off, Box::new(|w| c.send_to(w)));
            }
            _ => skip(),
        },
        "r" => match catch_unwind(|| ReplyLine::parse(Bytes::from(b))) {
            Ok(Ok(c)) => each(id, b, scripts, off, Box::new(|w| c.send_to(w))),
            _ => skip(),
        },
        "n" => {
            let c: Option<Email> = None;
            each(id, b, scripts, off, Box::new(|w| c.send_to(w)))
        }
        _ => {
            let c = SmtpString::from(b);
            each(id, b, scripts, off, Box::new(|w| c.send_to(w)))
        }
    }
}

fn main() {
    quiet_panics();
    limit_memory(3);
    watchdog(20);
    let stdin = io::stdin();
    for l in stdin.lock().lines() {
        let l = l.unwrap();
        if l.is_empty() {
            continue;
        }
        let f = fields(&l);
        let id = get(&f, "id").unwrap();
        case_begin(format!("{{\"id\":\"{}\",\"hang\":true}}", id));
        let scripts: Vec<&str> = get(&f, "out").unwrap().split(',').filter(|x| !x.is_empty()).collect();
        for b in get(&f, "in").unwrap().split(',') {
            run(
                id,
                get(&f, "t").unwrap(),
                &unhex(b),
                &scripts,
                get(&f, "off") == Some("1"),
            );
        }
        case_end();
    }
    emit("{\"eof\":true}");
}
