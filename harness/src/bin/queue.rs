//! Runs `smtp_queue::run` on a storage and a transport whose operations finish when and how a
//! script says, on an executor with virtual time, and prints after each action the operations
//! under way.
//!
//! Input lines:
//!   id=N n=MAILS acts=ACT,... [pol=fifo|lifo|rand] [seed=S] [burst=1] [codes=K] [auto=1]
//!     ACT: list:M listend find:M.C findend tick crash
//!          start:M.C:ok|err|eff get:M.C:ok|err send:M.C:ok|err done:.. cancel:.. recover:..
//!     burst: consecutive list/find actions are made available at once
//!   rand id=N n=MAILS init=qiq.. steps=K seed=S refuse=P err=P eff=P tick=P crash=P pol=..
//!     random actions against a storage kept here (percentages)
//! Output: {"id":..,"st":[..],"ev":[{"a","m","c","r","outs":[[kind,m,c]..],"effs":[..],"skip":false},..]}
extern crate futures01 as futures;
use std::{
    cell::RefCell,
    collections::{BTreeMap, VecDeque},
    io::BufRead,
    panic::{catch_unwind, AssertUnwindSafe},
    rc::Rc,
    sync::{
        atomic::{AtomicU64, Ordering},
        Arc, Mutex,
    },
    time::Duration,
};

use bytes::BytesMut;
use futures::{
    executor::{spawn, Notify, Spawn},
    task::{self, Task},
    Async, Future, Poll, Stream,
};
use smtp_message::{Email, ReplyCode, SmtpString};
use smtp_queue::{run, FoundInflightMail, InflightMail, Mail, QueuedMail, Storage, Transport};
use tokio_executor::park::{Park, Unpark};
use vharness::*;

// ------------------------------------------------------------------ virtual time

static NOW: AtomicU64 = AtomicU64::new(1_000_000_000_000_000);

/// Everything in this process reads the monotonic clock here.
#[no_mangle]
pub unsafe extern "C" fn clock_gettime(clk: libc::clockid_t, ts: *mut libc::timespec) -> libc::c_int {
    if clk == libc::CLOCK_MONOTONIC {
        let t = NOW.load(Ordering::SeqCst);
        (*ts).tv_sec = (t / 1_000_000_000) as libc::time_t;
        (*ts).tv_nsec = (t % 1_000_000_000) as libc::c_long;
        0
    } else {
        libc::syscall(libc::SYS_clock_gettime, clk, ts) as libc::c_int
    }
}

fn advance(d: Duration) {
    NOW.fetch_add(d.as_nanos() as u64, Ordering::SeqCst);
}

struct NoPark;
struct NoUnpark;
impl Unpark for NoUnpark {
    fn unpark(&self) {}
}
impl Park for NoPark {
    type Unpark = NoUnpark;
    type Error = ();
    fn unpark(&self) -> NoUnpark {
        NoUnpark
    }
    fn park(&mut self) -> Result<(), ()> {
        Ok(())
    }
    fn park_timeout(&mut self, _: Duration) -> Result<(), ()> {
        Ok(())
    }
}

// ------------------------------------------------------------------ executor

#[derive(Default)]
struct Ready(Mutex<VecDeque<usize>>);
impl Notify for Ready {
    fn notify(&self, id: usize) {
        let mut q = self.0.lock().unwrap();
        if !q.contains(&id) {
            q.push_back(id);
        }
    }
}

type Fut = Box<dyn Future<Item = (), Error = ()>>;
type Tasks = Rc<RefCell<Vec<Option<Spawn<Fut>>>>>;

#[derive(Clone)]
struct Exec {
    ready: Arc<Ready>,
    tasks: Tasks,
}
impl Exec {
    fn new() -> Exec {
        Exec {
            ready: Arc::new(Ready::default()),
            tasks: Rc::new(RefCell::new(Vec::new())),
        }
    }
    fn add(&self, f: Fut) {
        let mut t = self.tasks.borrow_mut();
        t.push(Some(spawn(f)));
        self.ready.notify(t.len() - 1);
    }
}
impl tokio_executor::Executor for Exec {
    fn spawn(
        &mut self,
        f: Box<dyn Future<Item = (), Error = ()> + Send>,
    ) -> Result<(), tokio_executor::SpawnError> {
        self.add(f);
        Ok(())
    }
}

// ------------------------------------------------------------------ storage and transport

#[derive(Clone, Debug)]
enum Res {
    Ok(u64),
    Err,
}

struct Slot {
    kind: &'static str,
    m: u64,
    c: u64,
    result: Option<Res>,
    task: Option<Task>,
}

#[derive(Default)]
struct Chan {
    items: VecDeque<(u64, u64)>,
    ended: bool,
    task: Option<Task>,
    opened: usize,
}

#[derive(Default)]
struct World {
    slots: BTreeMap<u64, Slot>,
    next: u64,
    list: Chan,
    find: Chan,
    /// things that should never happen
    bad: Vec<&'static str>,
    codes: usize,
    refused: usize,
}
type W = Arc<Mutex<World>>;

fn lock(w: &W) -> std::sync::MutexGuard<'_, World> {
    w.lock().unwrap_or_else(|p| p.into_inner())
}

/// An operation: recorded when it is first polled, finished by the script.
struct Op<T, E> {
    w: W,
    kind: &'static str,
    m: u64,
    c: u64,
    id: Option<u64>,
    fin: Box<dyn FnMut(Res) -> Result<T, E> + Send>,
    over: bool,
}
fn op<T, E, F>(w: &W, kind: &'static str, m: u64, c: u64, fin: F) -> Box<dyn Future<Item = T, Error = E> + Send>
where
    T: 'static,
    E: 'static,
    F: FnMut(Res) -> Result<T, E> + Send + 'static,
{
    Box::new(Op {
        w: w.clone(),
        kind,
        m,
        c,
        id: None,
        fin: Box::new(fin),
        over: false,
    })
}
impl<T, E> Future for Op<T, E> {
    type Item = T;
    type Error = E;
    fn poll(&mut self) -> Poll<T, E> {
        assert!(!self.over, "polled after it finished");
        let mut w = lock(&self.w);
        let id = match self.id {
            Some(id) => id,
            None => {
                let id = w.next;
                w.next += 1;
                self.id = Some(id);
                w.slots.insert(
                    id,
                    Slot {
                        kind: self.kind,
                        m: self.m,
                        c: self.c,
                        result: None,
                        task: None,
                    },
                );
                id
            }
        };
        let slot = w.slots.get_mut(&id).unwrap();
        match slot.result.take() {
            None => {
                slot.task = Some(task::current());
                Ok(Async::NotReady)
            }
            Some(r) => {
                w.slots.remove(&id);
                self.over = true;
                drop(w);
                (self.fin)(r).map(Async::Ready)
            }
        }
    }
}
impl<T, E> Drop for Op<T, E> {
    fn drop(&mut self) {
        if let (Some(id), false) = (self.id, self.over) {
            lock(&self.w).slots.remove(&id);
        }
    }
}

struct Items<T> {
    w: W,
    find: bool,
    make: Box<dyn FnMut(u64, u64) -> T>,
}
impl<T> Stream for Items<T> {
    type Item = T;
    type Error = ();
    fn poll(&mut self) -> Poll<Option<T>, ()> {
        let mut w = lock(&self.w);
        let c = if self.find { &mut w.find } else { &mut w.list };
        if let Some((m, n)) = c.items.pop_front() {
            drop(w);
            return Ok(Async::Ready(Some((self.make)(m, n))));
        }
        if c.ended {
            return Ok(Async::Ready(None));
        }
        c.task = Some(task::current());
        Ok(Async::NotReady)
    }
}

struct Meta(u64, u64);
struct Qm {
    m: u64,
}
struct Im {
    m: u64,
    c: u64,
    w: W,
}
struct Fim {
    m: u64,
    c: u64,
}
impl QueuedMail<Meta> for Qm {}
impl FoundInflightMail<Meta> for Fim {}

fn email(s: String) -> Email {
    Email::parse_slice(s.as_bytes()).unwrap()
}
fn sender(m: u64, c: u64) -> Option<Email> {
    if m % 3 == 0 {
        None
    } else {
        Some(email(format!("s{}.{}@from.example", m, c)))
    }
}
fn recipients(m: u64, c: u64) -> Vec<Email> {
    let mut v: Vec<Email> = (0..m % 4).map(|i| email(format!("r{}.{}.{}@to", m, c, i))).collect();
    if m % 2 == 0 {
        v.push(email("twice".into()));
        v.push(email("twice".into()));
    }
    v
}
fn chunks(m: u64, c: u64) -> Vec<Vec<u8>> {
    vec![
        format!("mail {} ", m).into_bytes(),
        vec![],
        format!("claim {}\r\n..\r\n", c).into_bytes(),
        vec![0, 255, 13, 10],
    ]
}

impl InflightMail<Meta> for Im {
    fn get_mail(
        &self,
    ) -> Box<dyn Future<Item = Mail<Box<dyn Stream<Item = BytesMut, Error = ()>>, Meta>, Error = ()> + Send> {
        let (m, c) = (self.m, self.c);
        op(&self.w, "get", m, c, move |r| match r {
            Res::Err => Err(()),
            Res::Ok(_) => Ok(Mail {
                from: sender(m, c),
                to: recipients(m, c),
                data: Box::new(futures::stream::iter_ok(
                    chunks(m, c).into_iter().map(|b| BytesMut::from(&b[..])),
                )) as Box<dyn Stream<Item = BytesMut, Error = ()>>,
                metadata: Meta(m, c),
            }),
        })
    }
}

struct Store(W);
impl Storage<Meta, Qm, Im, Fim> for Store {
    fn list_queue(&self) -> Box<dyn Stream<Item = Qm, Error = ()>> {
        let mut w = lock(&self.0);
        w.list.opened += 1;
        if w.list.opened > 1 {
            w.bad.push("list-again");
        }
        Box::new(Items {
            w: self.0.clone(),
            find: false,
            make: Box::new(|m, _| Qm { m }),
        })
    }
    fn find_inflight(&self) -> Box<dyn Stream<Item = Fim, Error = ()>> {
        let mut w = lock(&self.0);
        w.find.opened += 1;
        if w.find.opened > 1 {
            w.bad.push("find-again");
        }
        Box::new(Items {
            w: self.0.clone(),
            find: true,
            make: Box::new(|m, c| Fim { m, c }),
        })
    }
    fn cancel_found_inflight(&self, f: Fim) -> Box<dyn Future<Item = Qm, Error = ()> + Send> {
        let m = f.m;
        op(&self.0, "recover", f.m, f.c, move |r| match r {
            Res::Ok(_) => Ok(Qm { m }),
            Res::Err => Err(()),
        })
    }
    fn enqueue<S>(&self, _: Mail<S, Meta>) -> Box<dyn Future<Item = Qm, Error = ()>>
    where
        S: Stream<Item = BytesMut, Error = ()>,
    {
        lock(&self.0).bad.push("enqueue");
        Box::new(futures::future::err(()))
    }
    fn send_start(&self, q: Qm) -> Box<dyn Future<Item = Im, Error = ()> + Send> {
        let (m, w) = (q.m, self.0.clone());
        op(&self.0, "start", m, 0, move |r| match r {
            Res::Ok(c) => Ok(Im { m, c, w: w.clone() }),
            Res::Err => Err(()),
        })
    }
    fn send_done(&self, i: Im) -> Box<dyn Future<Item = (), Error = ()> + Send> {
        op(&self.0, "done", i.m, i.c, |r| match r {
            Res::Ok(_) => Ok(()),
            Res::Err => Err(()),
        })
    }
    fn send_cancel(&self, i: Im) -> Box<dyn Future<Item = Qm, Error = ()> + Send> {
        let m = i.m;
        op(&self.0, "cancel", i.m, i.c, move |r| match r {
            Res::Ok(_) => Ok(Qm { m }),
            Res::Err => Err(()),
        })
    }
}

/// What the transport refuses with: every code there is a name for, and any other.
fn refusal(n: u64) -> (u16, SmtpString) {
    const CODES: [u16; 26] = [
        211, 214, 220, 221, 250, 251, 252, 354, 421, 450, 451, 452, 455, 500, 501, 502, 503, 504, 550, 551, 552, 553,
        554, 555, 521, 556,
    ];
    const TEXTS: [&str; 10] = [
        "",
        "no",
        "5.1.1 no such user",
        "4.2.2 mailbox full",
        "2.0.0 queued",
        "Okay",
        "greylisted, try again later",
        "permanent failure",
        "bounce",
        "timeout",
    ];
    let mut r = Rng(n);
    let code = if r.below(3) == 0 { r.below(1000) as u16 } else { CODES[r.below(CODES.len())] };
    (code, SmtpString::from(TEXTS[r.below(TEXTS.len())]))
}

struct Trans(W);
impl Transport<Meta> for Trans {
    fn send<S: Stream<Item = BytesMut, Error = ()>>(
        &self,
        mail: Mail<S, Meta>,
    ) -> Box<dyn Future<Item = (), Error = (ReplyCode, SmtpString)> + Send> {
        let Meta(m, c) = mail.metadata;
        let mut data = Vec::new();
        let mut broken = false;
        let mut s = spawn(mail.data);
        loop {
            match s.poll_stream_notify(&Arc::new(Ready::default()), 0) {
                Ok(Async::Ready(Some(b))) => data.extend_from_slice(&b),
                Ok(Async::Ready(None)) => break,
                _ => {
                    broken = true;
                    break;
                }
            }
        }
        if broken
            || data != chunks(m, c).concat()
            || mail.from != sender(m, c)
            || mail.to != recipients(m, c)
        {
            lock(&self.0).bad.push("content");
        }
        let w = self.0.clone();
        op(&self.0, "send", m, c, move |r| match r {
            Res::Ok(_) => Ok(()),
            Res::Err => {
                let mut w = lock(&w);
                w.refused += 1;
                let (code, text) = refusal((w.codes * 1009 + w.refused) as u64);
                Err((ReplyCode::custom(code), text))
            }
        })
    }
}

// ------------------------------------------------------------------ a run

struct Run {
    w: W,
    ex: Exec,
    timer: tokio_timer::timer::Timer<NoPark>,
    handle: tokio_timer::timer::Handle,
    pol: u8,
    rng: Rng,
    panicked: bool,
}

type Ops = Vec<(String, u64, u64)>;

impl Run {
    fn new(pol: &str, seed: u64, codes: usize) -> Run {
        let timer = tokio_timer::timer::Timer::new(NoPark);
        let handle = timer.handle();
        let mut r = Run {
            w: W::default(),
            ex: Exec::new(),
            timer,
            handle,
            pol: match pol {
                "lifo" => 1,
                "rand" => 2,
                _ => 0,
            },
            rng: Rng(seed),
            panicked: false,
        };
        lock(&r.w).codes = codes;
        r.boot();
        r
    }

    fn boot(&mut self) {
        let (w, ex) = (self.w.clone(), self.ex.clone());
        self.within(move || {
            let main = run(Arc::new(Store(w.clone())), Arc::new(Trans(w)));
            ex.add(Box::new(main));
        });
    }

    /// Runs f with the executor and timer in place.
    fn within<R, F: FnOnce() -> R>(&mut self, f: F) -> R {
        let mut enter = tokio_executor::enter().unwrap();
        let mut ex = self.ex.clone();
        tokio_timer::with_default(&self.handle, &mut enter, |enter| {
            tokio_executor::with_default(&mut ex, enter, |_| f())
        })
    }

    fn settle(&mut self) {
        loop {
            let mut did = false;
            loop {
                let id = {
                    let mut q = self.ex.ready.0.lock().unwrap();
                    match self.pol {
                        1 => q.pop_back(),
                        2 if !q.is_empty() => {
                            let k = self.rng.below(q.len());
                            q.remove(k)
                        }
                        _ => q.pop_front(),
                    }
                };
                let id = match id {
                    None => break,
                    Some(id) => id,
                };
                did = true;
                let t = self.ex.tasks.borrow_mut()[id].take();
                if let Some(mut t) = t {
                    let ready = self.ex.ready.clone();
                    let ex = self.ex.clone();
                    let (r, t) = self.within(move || {
                        (
                            catch_unwind(AssertUnwindSafe(|| t.poll_future_notify(&ready, id))),
                            t,
                        )
                    });
                    match r {
                        Ok(Ok(Async::NotReady)) => ex.tasks.borrow_mut()[id] = Some(t),
                        Ok(_) => (),
                        Err(_) => {
                            self.panicked = true;
                            std::mem::forget(t);
                        }
                    }
                }
            }
            let _ = self.timer.turn(Some(Duration::from_secs(0)));
            if !did && self.ex.ready.0.lock().unwrap().is_empty() {
                return;
            }
        }
    }

    fn outs(&mut self) -> Ops {
        self.settle();
        let w = lock(&self.w);
        let mut v: Ops = w
            .slots
            .values()
            .map(|s| (s.kind.to_string(), s.m, s.c))
            .collect();
        v.extend(w.bad.iter().map(|b| (b.to_string(), 0, 0)));
        if self.panicked {
            v.push(("panic".into(), 0, 0));
        }
        v.sort();
        v
    }

    /// Finishes an operation; false if it is not under way.
    fn finish(&mut self, kind: &str, m: u64, c: u64, r: Res) -> bool {
        let mut w = lock(&self.w);
        let s = w
            .slots
            .values_mut()
            .find(|s| s.kind == kind && s.m == m && (kind == "start" || s.c == c) && s.result.is_none());
        match s {
            None => false,
            Some(s) => {
                s.result = Some(r);
                let t = s.task.take();
                drop(w);
                if let Some(t) = t {
                    t.notify();
                }
                true
            }
        }
    }

    fn give(&mut self, find: bool, item: Option<(u64, u64)>) {
        let mut w = lock(&self.w);
        let c = if find { &mut w.find } else { &mut w.list };
        match item {
            Some(x) => c.items.push_back(x),
            None => c.ended = true,
        }
        let t = c.task.take();
        drop(w);
        if let Some(t) = t {
            t.notify();
        }
    }

    fn crash(&mut self) {
        let old = std::mem::replace(&mut self.ex, Exec::new());
        let tasks: Vec<_> = old.tasks.borrow_mut().drain(..).collect();
        self.within(move || drop(tasks));
        let codes = lock(&self.w).codes;
        self.w = W::default();
        lock(&self.w).codes = codes;
        self.boot();
    }
}

#[derive(Clone)]
struct Act {
    a: String,
    m: u64,
    c: u64,
    r: String,
    effs: Ops,
}
fn act(a: &str, m: u64, c: u64, r: &str) -> Act {
    Act {
        a: a.into(),
        m,
        c,
        r: r.into(),
        effs: vec![],
    }
}

fn jops(v: &Ops) -> String {
    format!(
        "[{}]",
        v.iter()
            .map(|(k, m, c)| format!("[\"{}\",{},{}]", k, m, c))
            .collect::<Vec<_>>()
            .join(",")
    )
}

fn event(x: &Act, outs: Option<&Ops>) -> String {
    format!(
        "{{\"a\":\"{}\",\"m\":{},\"c\":{},\"r\":\"{}\",\"outs\":{},\"effs\":{},\"skip\":{}}}",
        x.a,
        x.m,
        x.c,
        x.r,
        outs.map(jops).unwrap_or("[]".into()),
        jops(&x.effs),
        outs.is_none()
    )
}

/// Half an hour and a second: so that what was found at one tick is due by the second one after.
const TICK: u64 = 1801;

/// Applies an action and logs it; false if it was not possible.
fn apply(run: &mut Run, x: &Act, show: bool, log: &mut Vec<String>) -> bool {
    let mut ok = true;
    match &x.a[..] {
        "list" => run.give(false, Some((x.m, 0))),
        "listend" => run.give(false, None),
        "find" => run.give(true, Some((x.m, x.c))),
        "findend" => run.give(true, None),
        "tick" => {
            advance(Duration::from_secs(TICK - 3));
            let o = run.outs();
            log.push(event(&act("wait", 0, 0, "ok"), Some(&o)));
            advance(Duration::from_secs(3));
        }
        "crash" => run.crash(),
        k => ok = run.finish(k, x.m, x.c, if x.r == "ok" { Res::Ok(x.c) } else { Res::Err }),
    }
    if show {
        let o = run.outs();
        log.push(event(x, Some(&o)));
    } else {
        log.push(event(x, None));
    }
    ok
}

fn scripted(f: &[(&str, &str)], log: &mut Vec<String>) {
    let num = |k: &str| get(f, k).unwrap_or("0").parse::<u64>().unwrap();
    let burst = num("burst") == 1;
    let mut run = Run::new(get(f, "pol").unwrap_or("fifo"), num("seed"), num("codes") as usize);
    run.settle();
    let acts: Vec<Act> = get(f, "acts")
        .unwrap()
        .split(',')
        .filter(|x| !x.is_empty())
        .map(|x| {
            let p: Vec<&str> = x.split(':').collect();
            let (m, c) = match p.get(1) {
                None => (0, 0),
                Some(s) => match s.find('.') {
                    None => (s.parse().unwrap(), 0),
                    Some(d) => (s[..d].parse().unwrap(), s[d + 1..].parse().unwrap()),
                },
            };
            act(p[0], m, c, p.get(2).unwrap_or(&"ok"))
        })
        .collect();
    for i in 0..acts.len() {
        let reading = |x: &Act| x.a.starts_with("list") || x.a.starts_with("find");
        let show = !(burst && reading(&acts[i]) && acts.get(i + 1).map(reading).unwrap_or(false));
        if !apply(&mut run, &acts[i], show, log) {
            return;
        }
    }
}

fn random(f: &[(&str, &str)], log: &mut Vec<String>) {
    let num = |k: &str| get(f, k).unwrap_or("0").parse::<u64>().unwrap();
    let mut rng = Rng(num("seed"));
    let mut run = Run::new(get(f, "pol").unwrap_or("fifo"), num("seed"), num("codes") as usize);
    run.settle();
    // storage: q, i or g for each mail, and its claim
    let mut st: Vec<u8> = get(f, "init").unwrap().bytes().collect();
    let mut clm: Vec<u64> = st.iter().map(|s| if *s == b'i' { 1 } else { 0 }).collect();
    let queued = |st: &Vec<u8>| -> Vec<u64> { (0..st.len()).filter(|i| st[*i] == b'q').map(|i| i as u64 + 1).collect() };
    let mut todo = queued(&st);
    let mut tofind: Vec<(u64, u64)> = vec![];
    let mut phase = 0;
    let mut idle = 0;
    let (refuse, err, eff, tick, crash) = (num("refuse"), num("err"), num("eff"), num("tick"), num("crash"));
    let stall = num("stall"); // mails up to this one are never finished by the transport
    for _ in 0..num("steps") {
        let outs = run.outs();
        let mut choices: Vec<(String, u64, u64)> = vec![];
        for o in &outs {
            if o.1 > 0 && !(o.0 == "send" && o.1 <= stall) {
                choices.push(o.clone());
            }
        }
        let holds = |st: &Vec<u8>, clm: &Vec<u64>, m: u64, c: u64| st[m as usize - 1] == b'i' && clm[m as usize - 1] == c;
        let mut reads: Vec<Act> = vec![];
        if phase == 0 {
            if todo.is_empty() {
                reads.push(act("listend", 0, 0, "ok"));
            } else {
                let k = rng.below(todo.len());
                reads.push(act("list", todo[k], 0, "ok"));
            }
        } else if phase == 1 {
            if tofind.is_empty() {
                reads.push(act("findend", 0, 0, "ok"));
            } else {
                let k = rng.below(tofind.len());
                reads.push(act("find", tofind[k].0, tofind[k].1, "ok"));
            }
        }
        let p = rng.below(100) as u64;
        let x = if p < tick {
            act("tick", 0, 0, "ok")
        } else if p < tick + crash {
            let mut x = act("crash", 0, 0, "ok");
            let mut seen = vec![];
            for o in &outs {
                let can = match &o.0[..] {
                    "start" => o.1 > 0 && st[o.1 as usize - 1] == b'q',
                    "done" | "cancel" | "recover" => holds(&st, &clm, o.1, o.2),
                    _ => false,
                };
                if can && rng.below(100) < eff as usize && !seen.contains(&o.1) {
                    seen.push(o.1);
                    x.effs.push(o.clone());
                }
            }
            x
        } else if !reads.is_empty() && (choices.is_empty() || rng.below(3) == 0) {
            reads.pop().unwrap()
        } else if !choices.is_empty() {
            let o = &choices[rng.below(choices.len())];
            let (m, c) = (o.1, o.2);
            let i = m as usize - 1;
            let fail = rng.below(100) < err as usize;
            let may_eff = rng.below(100) < eff as usize;
            match &o.0[..] {
                "start" => {
                    if st[i] != b'q' {
                        act("start", m, c, "err")
                    } else if fail {
                        act("start", m, clm[i] + 1, if may_eff { "eff" } else { "err" })
                    } else {
                        act("start", m, clm[i] + 1, "ok")
                    }
                }
                "get" => act("get", m, c, if fail { "err" } else { "ok" }),
                "send" => act("send", m, c, if rng.below(100) < refuse as usize { "err" } else { "ok" }),
                k => {
                    if !holds(&st, &clm, m, c) {
                        act(k, m, c, "err")
                    } else if fail {
                        act(k, m, c, if may_eff { "eff" } else { "err" })
                    } else {
                        act(k, m, c, "ok")
                    }
                }
            }
        } else {
            // nothing to do but wait; after a while, start again if mails are left
            idle += 1;
            if idle < 4 {
                act("tick", 0, 0, "ok")
            } else if crash > 0 && st.iter().any(|s| *s != b'g') {
                idle = 0;
                act("crash", 0, 0, "ok")
            } else {
                return;
            }
        };
        // the storage
        let took = x.r != "err";
        let i = (x.m as usize).wrapping_sub(1);
        match &x.a[..] {
            "list" => todo.retain(|m| *m != x.m),
            "listend" => {
                phase = 1;
                tofind = (0..st.len()).filter(|i| st[*i] == b'i').map(|i| (i as u64 + 1, clm[i])).collect();
            }
            "find" => tofind.retain(|m| m.0 != x.m),
            "findend" => phase = 2,
            "start" if took => {
                st[i] = b'i';
                clm[i] += 1;
            }
            "done" if took => st[i] = b'g',
            "cancel" | "recover" if took => st[i] = b'q',
            "crash" => {
                for o in &x.effs {
                    let i = o.1 as usize - 1;
                    match &o.0[..] {
                        "start" => {
                            st[i] = b'i';
                            clm[i] += 1;
                        }
                        "done" => st[i] = b'g',
                        _ => st[i] = b'q',
                    }
                }
                todo = queued(&st);
                phase = 0;
                tofind = vec![];
            }
            _ => (),
        }
        if !apply(&mut run, &x, true, log) {
            return;
        }
    }
}

fn main() {
    quiet_panics();
    limit_memory(3);
    watchdog(20);
    let stdin = std::io::stdin();
    for line in stdin.lock().lines() {
        let line = line.unwrap();
        if line.is_empty() {
            continue;
        }
        let rand = line.starts_with("rand ");
        let f = fields(if rand { &line[5..] } else { &line });
        let id = get(&f, "id").unwrap().to_string();
        case_begin(format!("{{\"id\":\"{}\",\"hang\":true}}", id));
        let mut log = Vec::new();
        let r = catch_unwind(AssertUnwindSafe(|| {
            if rand {
                random(&f, &mut log)
            } else {
                scripted(&f, &mut log)
            }
        }));
        if r.is_err() {
            log.push(event(&act("panic", 0, 0, "ok"), Some(&vec![("panic".into(), 0, 0)])));
        }
        let st: Vec<&str> = get(&f, "init")
            .unwrap_or("")
            .bytes()
            .map(|b| if b == b'q' { "\"queued\"" } else { "\"inflight\"" })
            .collect();
        emit(&format!(
            "{{\"id\":\"{}\",\"st\":[{}],\"ev\":[{}]}}",
            id,
            st.join(","),
            log.join(",")
        ));
        case_end();
    }
    emit("{\"eof\":true}");
}
