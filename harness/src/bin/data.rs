//! Runs `DataStream` and `DataSink` on whole inputs presented in many ways; prints the
//! distinct outcomes of each input.
//!   stream id=<i> in=<hex> mode=<all|bytes|one|r<seed>x<n>|g<seed>x<n>>  (g: large packets)
//!   sink id=<i> in=<hex> mode=<...> [fail=1]       fail: also with each output operation failing
//!   enum t=stream|sink alpha=<hex> len=<n> prefix=<hex> mode=<...>   all strings of that length
use std::{
    collections::BTreeMap,
    io::BufRead,
    panic::AssertUnwindSafe,
    pin::Pin,
    sync::{Arc, Mutex},
    task::{Context, Poll},
};

use bytes::{Bytes, BytesMut};
use futures::{prelude::*, task::waker};
use smtp_message::{DataSink, DataStream, Prependable};
use vharness::*;

#[derive(Clone, Debug)]
enum Item {
    Pkt(Vec<u8>),
    Pause,
}

struct Src {
    items: std::vec::IntoIter<Item>,
    ended: bool,
}
impl Stream for Src {
    type Item = BytesMut;
    fn poll_next(mut self: Pin<&mut Self>, cx: &mut Context) -> Poll<Option<BytesMut>> {
        match self.items.next() {
            Some(Item::Pkt(b)) => Poll::Ready(Some(BytesMut::from(b))),
            Some(Item::Pause) => {
                cx.waker().wake_by_ref();
                Poll::Pending
            }
            None => {
                self.ended = true;
                Poll::Ready(None)
            }
        }
    }
}

/// Runs a future to its end; None if it waits without having arranged to be woken.
fn run<F: Future>(f: F) -> Option<F::Output> {
    let mut f = Box::pin(f);
    let flag = Flag::new();
    let w = waker(flag.clone());
    let mut cx = Context::from_waker(&w);
    let mut steps = 0;
    while flag.take() {
        steps += 1;
        if steps > 100_000 {
            panic!("endless");
        }
        if let Poll::Ready(x) = f.as_mut().poll(&mut cx) {
            return Some(x);
        }
    }
    None
}

/// The cuts asked for.  Some of them get pauses and empty packets.
fn cuts(mode: &str, b: &[u8]) -> Vec<Vec<Item>> {
    let n = b.len();
    match mode {
        "one" => vec![vec![Item::Pkt(b.to_vec())]],
        "bytes" => vec![b.iter().map(|x| Item::Pkt(vec![*x])).collect()],
        "all" => {
            let k = if n == 0 { 0 } else { n - 1 };
            (0..1u64 << k)
                .map(|m| {
                    let mut v = Vec::new();
                    let mut p = 0;
                    // every third cut has an empty packet or pauses between packets
                    let extra = m % 3;
                    for i in 1..=n {
                        if i == n || m >> (i - 1) & 1 == 1 {
                            v.push(Item::Pkt(b[p..i].to_vec()));
                            if extra == 1 {
                                v.push(Item::Pkt(vec![]));
                            } else if extra == 2 {
                                v.push(Item::Pause);
                            }
                            p = i;
                        }
                    }
                    v
                })
                .collect()
        }
        m => {
            let x = m.find('x').unwrap();
            let mut rng = Rng(m[1..x].parse().unwrap());
            let k: usize = m[x + 1..].parse().unwrap();
            let big = m.starts_with('g');
            (0..k)
                .map(|_| {
                    let max = if big {
                        [n.max(1), 300, 1460, 4096, 8192, 65536][rng.below(6)]
                    } else {
                        1 + rng.below(if rng.0 % 4 == 0 { 40 } else { 6 })
                    };
                    let mut v = Vec::new();
                    let mut p = 0;
                    while p < n {
                        match rng.below(8) {
                            0 => v.push(Item::Pause),
                            1 => v.push(Item::Pkt(vec![])),
                            _ => (),
                        }
                        let mut l = (1 + rng.below(max)).min(n - p);
                        if big && rng.below(2) == 0 {
                            // cut at a byte that matters, or one or two before or after it
                            while p + l < n && !matches!(b[p + l], 13 | 10 | 46) {
                                l += 1;
                            }
                            l = (l + rng.below(3)).min(n - p);
                        }
                        v.push(Item::Pkt(b[p..p + l].to_vec()));
                        p += l;
                    }
                    v
                })
                .collect()
        }
    }
}

fn jcut(c: &[Item]) -> String {
    let v: Vec<String> = c
        .iter()
        .map(|i| match i {
            Item::Pkt(b) => hex(b),
            Item::Pause => "p".into(),
        })
        .collect();
    format!("\"{}\"", v.join(","))
}

fn stream(cut: &[Item]) -> String {
    let out = Arc::new(Mutex::new(Vec::new()));
    let o2 = out.clone();
    let c2 = cut.to_vec();
    let r = std::panic::catch_unwind(AssertUnwindSafe(move || {
        run(async move {
            let mut src = Prependable::new(
                Src {
                    items: c2.into_iter(),
                    ended: false,
                }
                .fuse(),
            );
            let ok = {
                let mut d = DataStream::new(&mut src);
                while let Some(b) = d.next().await {
                    o2.lock().unwrap().extend_from_slice(&b);
                }
                let ok = d.complete().is_ok();
                if !d.was_completed() {
                    panic!("was_completed() is false after complete()");
                }
                ok
            };
            let mut rest = Vec::new();
            while let Some(b) = src.next().await {
                rest.extend_from_slice(&b);
            }
            (ok, rest)
        })
    }));
    let out = match out.lock() {
        Ok(g) => g.clone(),
        Err(p) => p.into_inner().clone(),
    };
    match r {
        Ok(Some((ok, rest))) => format!(
            "\"out\":{},\"ok\":{},\"rest\":{},\"k\":\"\"",
            jb(&out),
            ok,
            jb(&rest)
        ),
        Ok(None) => "\"out\":[],\"ok\":false,\"rest\":[],\"k\":\"stuck\"".into(),
        Err(e) => format!(
            "\"out\":{},\"ok\":false,\"rest\":[],\"k\":\"panic\",\"m\":{}",
            jb(&out),
            jstr(&panic_text(e))
        ),
    }
}

#[derive(Default)]
struct Out {
    b: Vec<u8>,
    ops: usize,
    fail: usize,
    faulted: bool,
    after: bool,
    unfl: bool,
    pend: bool,
}
struct Rec(Arc<Mutex<Out>>);
impl Rec {
    fn op(&self) -> Result<(), ()> {
        let mut o = self.0.lock().unwrap();
        if o.faulted {
            o.after = true;
        }
        o.ops += 1;
        if o.ops == o.fail {
            o.faulted = true;
            return Err(());
        }
        Ok(())
    }
    fn wait(&self, cx: &mut Context) -> bool {
        let mut o = self.0.lock().unwrap();
        o.pend = !o.pend;
        if o.pend && o.fail % 2 == 1 {
            cx.waker().wake_by_ref();
            return true;
        }
        false
    }
}
impl Sink<Bytes> for Rec {
    type Error = ();
    fn poll_ready(self: Pin<&mut Self>, cx: &mut Context) -> Poll<Result<(), ()>> {
        if self.wait(cx) {
            return Poll::Pending;
        }
        Poll::Ready(self.op())
    }
    fn start_send(self: Pin<&mut Self>, item: Bytes) -> Result<(), ()> {
        self.op()?;
        let mut o = self.0.lock().unwrap();
        o.b.extend_from_slice(&item);
        o.unfl = true;
        Ok(())
    }
    fn poll_flush(self: Pin<&mut Self>, cx: &mut Context) -> Poll<Result<(), ()>> {
        if self.wait(cx) {
            return Poll::Pending;
        }
        let r = self.op();
        if r.is_ok() {
            self.0.lock().unwrap().unfl = false;
        }
        Poll::Ready(r)
    }
    fn poll_close(self: Pin<&mut Self>, cx: &mut Context) -> Poll<Result<(), ()>> {
        self.poll_flush(cx)
    }
}

/// Returns the outcome and the number of output operations.
fn sink(cut: &[Item], fail: usize) -> (String, usize) {
    let o = Arc::new(Mutex::new(Out {
        fail,
        ..Out::default()
    }));
    let o2 = o.clone();
    let c2 = cut.to_vec();
    let r = std::panic::catch_unwind(AssertUnwindSafe(move || {
        run(async move {
            let mut d = DataSink::new(Rec(o2));
            for i in c2 {
                if let Item::Pkt(b) = i {
                    d.send(Bytes::from(b)).await?;
                }
            }
            d.end().await.map(|_| ())
        })
    }));
    let o = match o.lock() {
        Ok(g) => g,
        Err(p) => p.into_inner(),
    };
    let (err, k) = match r {
        Ok(Some(r)) => (r.is_err(), ""),
        Ok(None) => (false, "stuck"),
        Err(_) => (false, "panic"),
    };
    (
        format!(
            "\"out\":{},\"err\":{},\"fault\":{},\"after\":{},\"unfl\":{},\"k\":\"{}\"",
            jb(&o.b),
            err,
            o.faulted,
            o.after,
            o.unfl,
            k
        ),
        o.ops,
    )
}

fn case(t: &str, id: &str, b: &[u8], mode: &str, fail: bool) {
    case_begin(format!(
        "{{\"id\":\"{}\",\"t\":\"{}\",\"in\":{},\"out\":[],\"ok\":false,\"rest\":[],\"err\":false,\"fault\":false,\"after\":false,\"unfl\":false,\"k\":\"hang\",\"n\":1,\"hang\":true}}",
        id,
        t,
        jb(b)
    ));
    let mut seen: BTreeMap<String, (usize, String)> = BTreeMap::new();
    for c in cuts(mode, b) {
        let mut add = |o: String| seen.entry(o).or_insert((0, jcut(&c))).0 += 1;
        if t == "stream" {
            add(stream(&c));
        } else {
            let (o, ops) = sink(&c, 0);
            add(o);
            if fail {
                for f in 1..=ops {
                    add(sink(&c, f).0);
                }
            }
        }
    }
    case_end();
    for (o, (n, c)) in seen {
        emit(&format!(
            "{{\"id\":\"{}\",\"t\":\"{}\",\"in\":{},{},\"n\":{},\"cut\":{}}}",
            id,
            t,
            jb(b),
            o,
            n,
            c
        ));
    }
}

fn main() {
    quiet_panics();
    limit_memory(3);
    watchdog(20);
    let stdin = std::io::stdin();
    for line in stdin.lock().lines() {
        let line = line.unwrap();
        if line.trim().is_empty() {
            continue;
        }
        let p = line.find(' ').unwrap();
        let f = fields(&line[p + 1..]);
        let mode = get(&f, "mode").unwrap();
        let fail = get(&f, "fail").is_some();
        match &line[..p] {
            "enum" => {
                let alpha = unhex(get(&f, "alpha").unwrap());
                let len: usize = get(&f, "len").unwrap().parse().unwrap();
                let prefix = unhex(get(&f, "prefix").unwrap());
                let id = get(&f, "id").unwrap();
                let free = len - prefix.len();
                for i in 0..alpha.len().pow(free as u32) {
                    let mut b = prefix.clone();
                    let mut x = i;
                    for _ in 0..free {
                        b.push(alpha[x % alpha.len()]);
                        x /= alpha.len();
                    }
                    case(get(&f, "t").unwrap(), id, &b, mode, fail);
                }
            }
            t => case(t, get(&f, "id").unwrap(), &unhex(get(&f, "in").unwrap()), mode, fail),
        }
    }
    emit("{\"eof\":true}");
}
