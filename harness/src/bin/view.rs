//! Runs histories of cuts of byte strings on the library's views.
//!
//! Input line: id=N base=KIND:HEX ops=OP,OP,... probe=SEED      views are numbered from 1
//!   KIND v vector, s fixed bytes, o slice of other bytes
//!   r:I:A:B range   t:I:B to   f:I:A from   a:I full   c:I copy
//! Output: {"id":..,"base":[..],"ev":[{"op":[..],"ok":true,"see":[{"v":2,"n":3,"b":[..],"same":true,"utf8":true,"q":[..]}],"eq":[[1,2,true]]}]}
use std::{
    io::BufRead,
    panic::{catch_unwind, AssertUnwindSafe},
};

use bytes::Bytes;
use nom::{Compare, CompareResult, FindSubstring, InputIter, InputLength, Slice};
use smtp_message::ByteSlice;
use vharness::*;

struct Rng(u64);
impl Rng {
    fn next(&mut self, n: usize) -> usize {
        self.0 = self.0.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407);
        ((self.0 >> 33) as usize) % n
    }
}

fn verdict(r: CompareResult) -> &'static str {
    match r {
        CompareResult::Ok => "ok",
        CompareResult::Incomplete => "incomplete",
        CompareResult::Error => "error",
    }
}

fn opt(o: Option<usize>) -> i64 {
    o.map(|x| x as i64).unwrap_or(-1)
}

/// Something to look for: a piece of the string around, perhaps in other letters
fn piece(base: &[u8], r: &mut Rng, most: usize) -> Vec<u8> {
    let n = 1 + r.next(most);
    let at = r.next(base.len() + 1);
    let mut p: Vec<u8> = base[at..].iter().cloned().take(n).collect();
    if p.is_empty() || r.next(4) == 0 {
        p.push(b"aZ.\r\n\x80 @"[r.next(8)]);
    }
    match r.next(3) {
        0 => {
            let i = r.next(p.len());
            p[i] ^= 0x20
        }
        1 => p.iter_mut().for_each(|c| *c = c.to_ascii_uppercase()),
        _ => (),
    }
    p
}

fn look(k: usize, v: &ByteSlice, base: &[u8], r: &mut Rng) -> String {
    let b: Vec<u8> = v.to_vec();
    let ways = vec![
        v.demote().to_vec(),
        v.promote().to_vec(),
        v.iter_elements().collect::<Vec<u8>>(),
        v.iter_indices().map(|(_, x)| x).collect(),
        (0..v.len()).map(|i| v[i]).collect(),
    ];
    let same = ways.iter().all(|w| *w == b)
        && v.iter_indices().enumerate().all(|(i, (j, _))| i == j)
        && v.input_len() == v.len()
        && v.into_utf8().map(|s| s.as_bytes() == &b[..]).unwrap_or(true);
    let mut q = vec![];
    for _ in 0..3 {
        let p = piece(base, r, 4);
        if p.len() == 1 || p.len() <= b.len() {
            q.push(format!("[\"find\",{},{}]", jb(&p), opt(v.find_substring(&p[..]))));
        }
        let mut p: Vec<u8> = b.iter().cloned().take(r.next(b.len() + 1)).collect();
        p.extend(piece(base, r, 2).into_iter().take(r.next(3)));
        if r.next(3) == 0 && !p.is_empty() {
            let i = r.next(p.len());
            p[i] ^= [0x20u8, 1, 0x80][r.next(3)]
        }
        q.push(format!("[\"begins\",{},\"{}\"]", jb(&p), verdict(v.compare(&p[..]))));
        q.push(format!("[\"nocase\",{},\"{}\"]", jb(&p), verdict(v.compare_no_case(&p[..]))));
        let c = piece(base, r, 1)[0];
        q.push(format!("[\"position\",{},{}]", c, opt(v.position(|x| x == c))));
        let n = r.next(base.len() + 2);
        q.push(format!("[\"index\",{},{}]", n, opt(v.slice_index(n))));
    }
    q.push(format!("[\"index\",{},{}]", v.len(), opt(v.slice_index(v.len()))));
    q.push(format!("[\"index\",{},{}]", v.len() + 1, opt(v.slice_index(v.len() + 1))));
    format!(
        "{{\"v\":{},\"n\":{},\"b\":{},\"same\":{},\"utf8\":{},\"q\":[{}]}}",
        k + 1,
        v.len(),
        jb(&b),
        same,
        v.into_utf8().is_ok(),
        q.join(",")
    )
}

fn main() {
    quiet_panics();
    limit_memory(3);
    watchdog(20);
    let stdin = std::io::stdin();
    for l in stdin.lock().lines() {
        let l = l.unwrap();
        if l.is_empty() {
            continue;
        }
        let f = fields(&l);
        let id = get(&f, "id").unwrap();
        case_begin(format!("{{\"id\":\"{}\",\"hang\":true}}", id));
        let mut rng = Rng(get(&f, "probe").unwrap().parse().unwrap());
        let spec: Vec<&str> = get(&f, "base").unwrap().split(':').collect();
        let bytes = unhex(spec[1]);
        let buf = match spec[0] {
            "s" => Bytes::from_static(Box::leak(bytes.clone().into_boxed_slice())),
            "o" => {
                let mut v = b"before".to_vec();
                v.extend_from_slice(&bytes);
                v.extend_from_slice(b"after, long enough not to be kept inline");
                Bytes::from(v).slice(6, 6 + bytes.len())
            }
            _ => Bytes::from(bytes.clone()),
        };
        let mut views = vec![ByteSlice::from(&buf)];
        let mut ev = vec![];
        let looked = |views: &[ByteSlice], from: usize, rng: &mut Rng| {
            let r = catch_unwind(AssertUnwindSafe(|| {
                (from..views.len()).map(|k| look(k, &views[k], &bytes, rng)).collect::<Vec<_>>().join(",")
            }));
            (r.is_ok(), r.unwrap_or_default())
        };
        for op in get(&f, "ops").unwrap().split(',').filter(|o| !o.is_empty()) {
            let p: Vec<&str> = op.split(':').collect();
            let n = |k: usize| p[k].parse::<usize>().unwrap();
            let v = views[n(1) - 1];
            let name = match p[0] {
                "r" => format!("[\"range\",{},{},{}]", n(1), n(2), n(3)),
                "t" => format!("[\"to\",{},{}]", n(1), n(2)),
                "f" => format!("[\"from\",{},{}]", n(1), n(2)),
                "a" => format!("[\"full\",{}]", n(1)),
                _ => format!("[\"copy\",{}]", n(1)),
            };
            let r = catch_unwind(AssertUnwindSafe(|| match p[0] {
                "r" => v.slice(n(2)..n(3)),
                "t" => v.slice(..n(2)),
                "f" => v.slice(n(2)..),
                "a" => v.slice(..),
                _ => v.clone(),
            }));
            let made = r.is_ok();
            if let Ok(w) = r {
                views.push(w);
            }
            let (ok, see) = if made { looked(&views, views.len() - 1, &mut rng) } else { (true, String::new()) };
            ev.push(format!("{{\"op\":{},\"ok\":{},\"see\":[{}],\"eq\":[]}}", name, made, see));
            if !ok {
                ev.push("{\"op\":[\"look\"],\"ok\":false,\"see\":[],\"eq\":[]}".into());
                break;
            }
        }
        let (ok, see) = looked(&views, 0, &mut rng);
        let mut eq = vec![];
        for i in 0..views.len() {
            for j in i..views.len() {
                eq.push(format!("[{},{},{}]", i + 1, j + 1, views[i] == views[j]));
            }
        }
        ev.push(format!("{{\"op\":[\"look\"],\"ok\":{},\"see\":[{}],\"eq\":[{}]}}", ok, see, eq.join(",")));
        // what was promoted lives on
        if ok {
            let kept: Vec<(Bytes, Vec<u8>)> = views.iter().map(|v| (v.promote(), v.to_vec())).collect();
            drop(views);
            drop(buf);
            let fine = kept.iter().all(|(a, b)| a[..] == b[..]);
            if !fine {
                ev.push("{\"op\":[\"look\"],\"ok\":false,\"see\":[],\"eq\":[]}".into());
            }
        }
        emit(&format!("{{\"id\":\"{}\",\"base\":{},\"ev\":[{}]}}", id, jb(&bytes), ev.join(",")));
        case_end();
    }
    emit("{\"eof\":true}");
}
