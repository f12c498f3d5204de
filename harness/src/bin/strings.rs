//! Runs histories of operations on the library's texts.
//!
//! Input line: id=N ops=OP,OP,...     slots are numbered from 1
//!   end=1: show the texts after the last operation only
//!   n:KIND:HEX new (KIND v vector, b shared bytes, t string, s fixed bytes, o slice of other bytes, w written out)
//!   d:I copy   j:I:J join   c:I:N cut   x:I drop
//! Output: {"id":..,"ev":[{"op":[..],"ok":true,"see":[{"b":[..],"n":3,"same":true}],"eq":[[i,j,true,true]]}]}
use std::{
    collections::hash_map::DefaultHasher,
    hash::{Hash, Hasher},
    io::BufRead,
    panic::{catch_unwind, AssertUnwindSafe},
};

use bytes::Bytes;
use smtp_message::*;
use vharness::*;

fn hash(s: &SmtpString) -> u64 {
    let mut h = DefaultHasher::new();
    s.hash(&mut h);
    h.finish()
}

fn make(kind: &str, b: &[u8], keep: &mut Vec<Bytes>) -> SmtpString {
    match kind {
        "v" => SmtpString::from(b.to_vec()),
        "b" => {
            let x = Bytes::from(b);
            keep.push(x.clone());
            SmtpString::from(x)
        }
        "t" => match std::str::from_utf8(b) {
            Ok(s) => SmtpString::from(s),
            Err(_) => SmtpString::from(b),
        },
        "s" => SmtpString::from_static(Box::leak(b.to_vec().into_boxed_slice())),
        "o" => {
            let mut v = b"before".to_vec();
            v.extend_from_slice(b);
            v.extend_from_slice(b"after, long enough not to be kept inline");
            let x = Bytes::from(v);
            keep.push(x.clone());
            SmtpString::from(x.slice(6, 6 + b.len()))
        }
        _ => SmtpString::from_sendable(&SmtpString::from(b)).unwrap(),
    }
}

fn see(slots: &[SmtpString]) -> (String, String) {
    let mut out = vec![];
    for s in slots {
        let b = s.bytes().to_vec();
        let mut w = Vec::new();
        s.send_to(&mut w).unwrap();
        let ways = vec![
            s.iter_bytes().cloned().collect::<Vec<u8>>(),
            (0..s.byte_len()).map(|i| s.byte(i)).collect(),
            w,
            SmtpString::from_sendable(s).unwrap().bytes().to_vec(),
        ];
        out.push(format!("{{\"b\":{},\"n\":{},\"same\":{}}}", jb(&b), s.byte_len(), ways.iter().all(|w| *w == b)));
    }
    let mut eq = vec![];
    for i in 0..slots.len() {
        for j in i..slots.len() {
            eq.push(format!(
                "[{},{},{},{}]",
                i + 1,
                j + 1,
                slots[i] == slots[j],
                hash(&slots[i]) == hash(&slots[j])
            ));
        }
    }
    (out.join(","), eq.join(","))
}

fn main() {
    quiet_panics();
    limit_memory(3);
    watchdog(20);
    let stdin = std::io::stdin();
    for l in stdin.lock().lines() {
        let l = l.unwrap();
        if l.is_empty() {
            continue;
        }
        let f = fields(&l);
        let id = get(&f, "id").unwrap();
        case_begin(format!("{{\"id\":\"{}\",\"hang\":true}}", id));
        let mut slots: Vec<SmtpString> = vec![];
        let mut keep = vec![];
        let mut ev = vec![];
        let ops: Vec<&str> = get(&f, "ops").unwrap().split(',').collect();
        for (nth, op) in ops.iter().enumerate() {
            let shown = nth + 1 == ops.len() || get(&f, "end") != Some("1");
            let p: Vec<&str> = op.split(':').collect();
            let n = |k: usize| p[k].parse::<usize>().unwrap();
            let name = match p[0] {
                "n" => format!("[\"new\",{}]", jb(&unhex(p[2]))),
                "d" => format!("[\"dup\",{}]", n(1)),
                "j" => format!("[\"join\",{},{}]", n(1), n(2)),
                "c" => format!("[\"chop\",{},{}]", n(1), n(2)),
                _ => format!("[\"del\",{}]", n(1)),
            };
            let r = catch_unwind(AssertUnwindSafe(|| {
                match p[0] {
                    "n" => slots.push(make(p[1], &unhex(p[2]), &mut keep)),
                    "d" => {
                        let c = slots[n(1) - 1].clone();
                        slots.push(c)
                    }
                    "j" => {
                        let (i, j) = (n(1) - 1, n(2) - 1);
                        let (a, b) = if i < j {
                            let b = slots.remove(j);
                            (slots.remove(i), b)
                        } else {
                            let a = slots.remove(i);
                            (a, slots.remove(j))
                        };
                        slots.push(a + b)
                    }
                    "c" => {
                        let v: Vec<SmtpString> = slots[n(1) - 1].byte_chunks(n(2)).collect();
                        slots.extend(v)
                    }
                    _ => {
                        slots.remove(n(1) - 1);
                    }
                }
                if shown {
                    see(&slots)
                } else {
                    (String::new(), String::new())
                }
            }));
            let (ok, s, e) = match r {
                Ok((s, e)) => (true, s, e),
                Err(_) => (false, String::new(), String::new()),
            };
            ev.push(format!("{{\"op\":{},\"ok\":{},\"shown\":{},\"see\":[{}],\"eq\":[{}]}}", name, ok, shown, s, e));
            if !ok {
                break;
            }
        }
        emit(&format!("{{\"id\":\"{}\",\"ev\":[{}]}}", id, ev.join(",")));
        case_end();
    }
    emit("{\"eof\":true}");
}
