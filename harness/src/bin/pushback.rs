//! Runs the real push-back stream: reads and push-backs over a scripted underlying stream.
//!
//! Input line: id=N src=0,1,2 ops=rprp...[ n=K seed=S]
//!   src: 0 a pause, k an item; ops: r a read, p a push-back of the next fresh number (100...)
//! Output: {"id":..,"src":[..],"hist":[["read","item",1],["push","ok",100],...]}
use std::{
    io::BufRead,
    panic::{catch_unwind, AssertUnwindSafe},
    pin::Pin,
    sync::{Arc, Mutex},
    task::{Context, Poll, Waker},
};

use futures::{prelude::*, task::waker};
use smtp_message::{Prependable, StreamExt};
use vharness::*;

struct Source {
    script: Vec<u32>,
    pos: usize,
    parked: Arc<Mutex<Option<Waker>>>,
}
impl Stream for Source {
    type Item = Box<u32>;
    fn poll_next(mut self: Pin<&mut Self>, cx: &mut Context) -> Poll<Option<Box<u32>>> {
        if self.pos >= self.script.len() {
            return Poll::Ready(None);
        }
        self.pos += 1;
        match self.script[self.pos - 1] {
            0 => {
                *self.parked.lock().unwrap() = Some(cx.waker().clone());
                Poll::Pending
            }
            k => Poll::Ready(Some(Box::new(k))),
        }
    }
}

fn main() {
    quiet_panics();
    limit_memory(3);
    watchdog(20);
    let stdin = std::io::stdin();
    for (n, line) in stdin.lock().lines().enumerate() {
        let line = line.unwrap();
        if line.is_empty() {
            continue;
        }
        let f = fields(&line);
        let id = get(&f, "id").unwrap();
        let src: Vec<u32> = get(&f, "src")
            .unwrap()
            .split(',')
            .filter(|x| !x.is_empty())
            .map(|x| x.parse().unwrap())
            .collect();
        case_begin(format!("{{\"id\":\"{}\",\"hang\":true}}", id));
        let hist = Mutex::new(Vec::<String>::new());
        let parked = Arc::new(Mutex::new(None));
        let r = catch_unwind(AssertUnwindSafe(|| {
            let source = Source {
                script: src.clone(),
                pos: 0,
                parked: parked.clone(),
            };
            let mut s = if n % 2 == 0 {
                source.prependable()
            } else {
                Prependable::new(source)
            };
            let mut fresh = 100;
            for op in get(&f, "ops").unwrap().bytes() {
                if op == b'p' {
                    let r = s.prepend(Box::new(fresh));
                    hist.lock().unwrap().push(format!(
                        "[\"push\",\"{}\",{}]",
                        if r.is_ok() { "ok" } else { "refused" },
                        fresh
                    ));
                    fresh += 1;
                } else {
                    let flag = Flag::new();
                    flag.take();
                    let w = waker(flag.clone());
                    let mut cx = Context::from_waker(&w);
                    let r = Pin::new(&mut s).poll_next(&mut cx);
                    hist.lock().unwrap().push(match r {
                        Poll::Ready(Some(x)) => format!("[\"read\",\"item\",{}]", x),
                        Poll::Ready(None) => "[\"read\",\"end\",0]".into(),
                        Poll::Pending => {
                            if let Some(w) = parked.lock().unwrap().take() {
                                w.wake()
                            }
                            if Flag::is_set(&flag) {
                                "[\"read\",\"pend\",0]".into()
                            } else {
                                "[\"read\",\"stuck\",0]".into()
                            }
                        }
                    });
                }
            }
        }));
        if r.is_err() {
            hist.lock().unwrap().push("[\"read\",\"panic\",0]".into());
        }
        emit(&format!(
            "{{\"id\":\"{}\",\"src\":[{}],\"hist\":[{}]}}",
            id,
            src.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(","),
            hist.lock().unwrap().join(",")
        ));
        case_end();
    }
    emit("{\"eof\":true}");
}
