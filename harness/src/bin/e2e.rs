//! A client made of the library's writers, body writer and reply parser talks to a server made
//! of `smtp_server::interact` over two pipes; both run under a scheduler with a seed.
//!
//! Scenario line: fields separated by spaces
//!   id=<n>  seed=<n>  mode=l|p|x      lock step / groups of commands / also behind a body
//!   cfg=<code>:<hex>,...              the eleven replies, in the order of REPLIES
//!   msgs=<msg>|<msg>...               msg: from;params/dec/to:dec,to:dec/dec/dec/chunk,chunk/extras
//!                                     dec: a or r<code>.<hex>; "-" for the null sender;
//!                                     extras: letters, commands sent before (n v q t e)
//! What the client sent and was told and what the server's handler got comes out.
use std::{
    collections::VecDeque,
    io::{self, BufRead},
    panic::AssertUnwindSafe,
    pin::Pin,
    sync::{Arc, Mutex},
    task::{Context, Poll, Waker},
};

use bytes::{Bytes, BytesMut};
use futures::{prelude::*, task::waker};
use smtp_message::*;
use smtp_server::{interact, Config, ConnectionMetadata, Decision, MailMetadata, Refusal};
use vharness::*;

type Shared<T> = Arc<Mutex<T>>;
fn lock<T>(m: &Mutex<T>) -> std::sync::MutexGuard<T> {
    m.lock().unwrap_or_else(|p| p.into_inner())
}

/// One direction of the connection.
#[derive(Default)]
struct Pipe {
    data: VecDeque<u8>,
    closed: bool,
    waker: Option<Waker>,
}
impl Pipe {
    fn put(&mut self, b: &[u8]) {
        self.data.extend(b.iter().copied());
        if let Some(w) = self.waker.take() {
            w.wake()
        }
    }
    fn close(&mut self) {
        self.closed = true;
        if let Some(w) = self.waker.take() {
            w.wake()
        }
    }
}

/// Reads from a pipe in pieces of random size; may hesitate.
struct Rx {
    pipe: Shared<Pipe>,
    rng: Shared<Rng>,
}
impl Stream for Rx {
    type Item = BytesMut;
    fn poll_next(self: Pin<&mut Self>, cx: &mut Context) -> Poll<Option<BytesMut>> {
        let mut p = lock(&self.pipe);
        let mut rng = lock(&self.rng);
        if rng.below(5) == 0 {
            cx.waker().wake_by_ref();
            return Poll::Pending;
        }
        if p.data.is_empty() {
            if p.closed {
                return Poll::Ready(None);
            }
            p.waker = Some(cx.waker().clone());
            return Poll::Pending;
        }
        let n = match rng.below(3) {
            0 => p.data.len(),
            1 => 1 + rng.below(3.min(p.data.len())),
            _ => 1 + rng.below(p.data.len()),
        };
        let v: Vec<u8> = p.data.drain(..n).collect();
        Poll::Ready(Some(BytesMut::from(v)))
    }
}

/// Writes to a pipe; nothing passes before a flush.
struct Tx {
    pipe: Shared<Pipe>,
    held: Vec<u8>,
    rng: Shared<Rng>,
}
impl Tx {
    fn new(pipe: &Shared<Pipe>, rng: &Shared<Rng>) -> Tx {
        Tx {
            pipe: pipe.clone(),
            held: vec![],
            rng: rng.clone(),
        }
    }
    fn hesitate(&self, cx: &mut Context) -> bool {
        if lock(&self.rng).below(6) == 0 {
            cx.waker().wake_by_ref();
            true
        } else {
            false
        }
    }
}
impl Sink<Bytes> for Tx {
    type Error = ();
    fn poll_ready(self: Pin<&mut Self>, cx: &mut Context) -> Poll<Result<(), ()>> {
        if self.hesitate(cx) {
            return Poll::Pending;
        }
        Poll::Ready(Ok(()))
    }
    fn start_send(mut self: Pin<&mut Self>, item: Bytes) -> Result<(), ()> {
        self.held.extend_from_slice(&item);
        Ok(())
    }
    fn poll_flush(mut self: Pin<&mut Self>, cx: &mut Context) -> Poll<Result<(), ()>> {
        if self.hesitate(cx) {
            return Poll::Pending;
        }
        let held = std::mem::replace(&mut self.held, vec![]);
        lock(&self.pipe).put(&held);
        Poll::Ready(Ok(()))
    }
    fn poll_close(self: Pin<&mut Self>, cx: &mut Context) -> Poll<Result<(), ()>> {
        self.poll_flush(cx)
    }
}

#[derive(Clone, Debug)]
struct Dec(Option<(u16, Vec<u8>)>);
fn parse_dec(s: &str) -> Dec {
    if s == "a" {
        return Dec(None);
    }
    let p = s.find('.').unwrap();
    Dec(Some((s[1..p].parse().unwrap(), unhex(&s[p + 1..]))))
}
fn jdec(d: &Dec) -> String {
    match d.0 {
        None => "[]".into(),
        Some((c, ref t)) => format!("[{},{}]", c, jb(t)),
    }
}
fn decision(d: Dec) -> Decision {
    match d.0 {
        None => Decision::Accept,
        Some((c, t)) => Decision::Reject(Refusal {
            code: ReplyCode::custom(c),
            msg: SmtpString::from(&t[..]),
        }),
    }
}

#[derive(Clone, Debug)]
struct Msg {
    from: Option<Vec<u8>>,
    params: Vec<u8>,
    df: Dec,
    to: Vec<(Vec<u8>, Dec)>,
    dd: Dec,
    dm: Dec,
    chunks: Vec<Vec<u8>>,
    extras: Vec<u8>,
}
fn parse_msg(s: &str) -> Msg {
    let f: Vec<&str> = s.split('/').collect();
    let fp: Vec<&str> = f[0].split(';').collect();
    Msg {
        from: if fp[0] == "-" { None } else { Some(unhex(fp[0])) },
        params: unhex(fp[1]),
        df: parse_dec(f[1]),
        to: f[2]
            .split(',')
            .map(|x| {
                let p = x.find(':').unwrap();
                (unhex(&x[..p]), parse_dec(&x[p + 1..]))
            })
            .collect(),
        dd: parse_dec(f[3]),
        dm: parse_dec(f[4]),
        chunks: f[5].split(',').filter(|x| !x.is_empty()).map(unhex).collect(),
        extras: f[6].bytes().collect(),
    }
}

const REPLIES: [&str; 11] = [
    "greet", "mailok", "rcptok", "dataok", "accepted", "already", "rcptbm", "databr", "databm", "unimpl", "unrec",
];

#[derive(Clone)]
struct Handed {
    f: Vec<u8>,
    t: Vec<Vec<u8>>,
    b: Vec<u8>,
    ok: bool,
}

/// The server's configuration: decisions by address, so that they do not depend on the course.
struct Server {
    replies: Vec<(u16, Vec<u8>)>,
    msgs: VecDeque<Msg>,
    cur: Option<Msg>,
    nto: usize,
    handed: Shared<Vec<Handed>>,
    slow: usize,
}
impl Server {
    fn reply(&self, n: &str) -> (ReplyCode, SmtpString) {
        let r = &self.replies[REPLIES.iter().position(|x| *x == n).unwrap()];
        (ReplyCode::custom(r.0), SmtpString::from(&r.1[..]))
    }
}
fn text(e: &Email) -> Vec<u8> {
    SmtpString::from_sendable(e).unwrap().bytes().to_vec()
}

macro_rules! replies {
    ($($m:ident $n:expr),*) => { $(fn $m(&self) -> (ReplyCode, SmtpString) { self.reply($n) })* };
}
impl Config<()> for Server {
    fn hostname(&self) -> SmtpString {
        SmtpString::from_static(b"mx.test")
    }
    replies!(welcome_banner "greet", mail_okay "mailok", rcpt_okay "rcptok", data_okay "dataok",
             mail_accepted "accepted", already_in_mail "already", rcpt_before_mail "rcptbm",
             data_before_rcpt "databr", data_before_mail "databm", command_unimplemented "unimpl",
             command_unrecognized "unrec");
    fn filter_from<'a>(
        &'a mut self,
        _: &'a mut Option<Email>,
        _: &'a mut ConnectionMetadata<()>,
    ) -> Pin<Box<dyn 'a + Send + Future<Output = Decision>>> {
        self.cur = self.msgs.pop_front();
        self.nto = 0;
        let d = self.cur.as_ref().map(|m| m.df.clone()).unwrap_or(Dec(None));
        Box::pin(async move { decision(d) })
    }
    fn filter_to<'a>(
        &'a mut self,
        _: &'a mut Email,
        _: &'a mut MailMetadata,
        _: &'a mut ConnectionMetadata<()>,
    ) -> Pin<Box<dyn 'a + Send + Future<Output = Decision>>> {
        let d = self
            .cur
            .as_ref()
            .and_then(|m| m.to.get(self.nto).map(|x| x.1.clone()))
            .unwrap_or(Dec(None));
        self.nto += 1;
        Box::pin(async move { decision(d) })
    }
    fn filter_data<'a>(
        &'a mut self,
        _: &'a mut MailMetadata,
        _: &'a mut ConnectionMetadata<()>,
    ) -> Pin<Box<dyn 'a + Send + Future<Output = Decision>>> {
        let d = self.cur.as_ref().map(|m| m.dd.clone()).unwrap_or(Dec(None));
        Box::pin(async move { decision(d) })
    }
    fn handle_mail<'a, S>(
        &'a mut self,
        stream: &'a mut DataStream<S>,
        meta: MailMetadata,
        _: &'a mut ConnectionMetadata<()>,
    ) -> Pin<Box<dyn 'a + Future<Output = Decision>>>
    where
        S: 'a + Unpin + Stream<Item = BytesMut>,
    {
        Box::pin(async move {
            let mut b = Vec::new();
            if self.slow == 0 {
                b.extend_from_slice(&stream.concat().await);
            } else {
                while let Some(x) = stream.next().await {
                    b.extend_from_slice(&x);
                }
            }
            let ok = stream.complete().is_ok();
            lock(&self.handed).push(Handed {
                f: meta.from.as_ref().map(text).unwrap_or_default(),
                t: meta.to.iter().map(text).collect(),
                b,
                ok,
            });
            decision(self.cur.as_ref().map(|m| m.dm.clone()).unwrap_or(Dec(None)))
        })
    }
}

/// The client's end.
struct Client {
    rx: Rx,
    buf: Vec<u8>,
    tx: Option<Tx>,
    out: Vec<u8>,
    told: Shared<Vec<(u32, Vec<u8>)>>,
    problem: Shared<String>,
}

enum Stop {
    Closed,
}

impl Client {
    fn say(&mut self, f: impl FnOnce(&mut dyn io::Write) -> io::Result<()>) {
        f(&mut self.out).unwrap();
    }
    async fn send(&mut self) {
        let b = std::mem::replace(&mut self.out, vec![]);
        let _ = self.tx.as_mut().unwrap().send(Bytes::from(b)).await;
    }
    /// One reply, read line by line with the library's parser.
    async fn reply(&mut self) -> Result<u32, Stop> {
        let mut text = Vec::new();
        loop {
            let p = loop {
                if let Some(p) = self.buf.windows(2).position(|w| w == b"\r\n") {
                    break p;
                }
                match self.rx.next().await {
                    None => return Err(Stop::Closed),
                    Some(b) => self.buf.extend_from_slice(&b),
                }
            };
            let line: Vec<u8> = self.buf.drain(..p + 2).collect();
            let parsed = match ReplyLine::parse(Bytes::from(line.clone())) {
                Ok(r) => r,
                Err(_) => {
                    *lock(&self.problem) = format!("unreadable reply line {}", String::from_utf8_lossy(&line));
                    return Err(Stop::Closed);
                }
            };
            // the parser's result can only be read by writing it
            let mut w = Vec::new();
            parsed.send_to(&mut w).unwrap();
            if w.len() < 6 {
                *lock(&self.problem) = "reply line written short".into();
                return Err(Stop::Closed);
            }
            let code = w[..3].iter().fold(0u32, |a, x| a * 10 + (*x as u32).wrapping_sub(48));
            text.extend_from_slice(&w[4..w.len() - 2]);
            if w[3] == b' ' {
                lock(&self.told).push((code, text));
                return Ok(code);
            }
        }
    }

    fn say_mail(&mut self, m: &Msg) {
        // parameters can only be had from the parser
        let mut l = b"MAIL FROM:<>".to_vec();
        l.extend_from_slice(&m.params);
        l.extend_from_slice(b"\r\n");
        match Command::parse(Bytes::from(l)) {
            Ok(Command::Mail(mut c)) => {
                c.from = m.from.as_ref().map(|x| Email::parse_slice(x).unwrap());
                let c = MailCommand::new(c.from, c.params);
                self.say(|w| c.send_to(w))
            }
            _ => *lock(&self.problem) = "parameters do not parse".into(),
        }
    }
    fn say_rcpt(&mut self, a: &[u8]) {
        match Command::parse(Bytes::from(&b"RCPT TO:<a>\r\n"[..])) {
            Ok(Command::Rcpt(c)) => {
                let c = RcptCommand::new(Email::parse_slice(a).unwrap(), c.params);
                self.say(|w| c.send_to(w))
            }
            _ => *lock(&self.problem) = "recipient template does not parse".into(),
        }
    }
    fn say_extra(&mut self, x: u8) {
        match x {
            b'n' => self.say(|w| NoopCommand::new(SmtpString::from_static(b"")).send_to(w)),
            b'v' => self.say(|w| VrfyCommand::new(SmtpString::from_static(b"x y")).send_to(w)),
            b'h' => self.say(|w| HelpCommand::new(SmtpString::from_static(b"me")).send_to(w)),
            b't' => self.say(|w| RsetCommand::new().send_to(w)),
            b'x' => self.say(|w| ExpnCommand::new(SmtpString::from_static(b"list")).send_to(w)),
            b'q' => self.say(|w| QuitCommand::new().send_to(w)),
            _ => panic!("bad extra"),
        }
    }
    async fn body(&mut self, m: &Msg) {
        let mut s = DataSink::new(self.tx.take().unwrap());
        for c in &m.chunks {
            let _ = s.send(Bytes::from(&c[..])).await;
        }
        self.tx = s.end().await.ok();
    }

    async fn run(&mut self, msgs: Vec<Msg>, mode: u8) -> Result<(), Stop> {
        self.reply().await?;
        let mut late = 0; // replies to what was sent ahead
        for m in &msgs {
            let n = m.extras.len();
            if mode == b'l' {
                for x in &m.extras {
                    self.say_extra(*x);
                    self.send().await;
                    self.reply().await?;
                }
                self.say_mail(m);
                self.send().await;
                if self.reply().await? / 100 != 2 {
                    continue;
                }
                let mut some = false;
                for (a, _) in &m.to {
                    self.say_rcpt(a);
                    self.send().await;
                    some |= self.reply().await? / 100 == 2;
                }
                if !some {
                    break;
                }
                self.say(|w| DataCommand::new().send_to(w));
                self.send().await;
                if self.reply().await? / 100 != 3 {
                    break;
                }
                self.body(m).await;
                self.reply().await?;
            } else {
                for x in &m.extras {
                    self.say_extra(*x);
                }
                self.say_mail(m);
                for (a, _) in &m.to {
                    self.say_rcpt(a);
                }
                self.say(|w| DataCommand::new().send_to(w));
                self.send().await;
                for _ in 0..late + n {
                    self.reply().await?;
                }
                late = 0;
                let opened = self.reply().await? / 100 == 2;
                for _ in &m.to {
                    self.reply().await?;
                }
                if self.reply().await? / 100 == 3 {
                    self.body(m).await;
                    if mode == b'x' {
                        late = 1
                    } else {
                        self.reply().await?;
                    }
                } else if opened {
                    break;
                }
            }
        }
        self.say(|w| QuitCommand::new().send_to(w));
        self.send().await;
        for _ in 0..late + 1 {
            self.reply().await?;
        }
        Ok(())
    }
}

struct Task {
    fut: Pin<Box<dyn Future<Output = ()>>>,
    flag: Arc<Flag>,
    done: bool,
}

fn run(id: &str, f: &[(String, String)]) {
    let seed: u64 = get2(f, "seed").parse().unwrap();
    let mode = get2(f, "mode").as_bytes()[0];
    let replies: Vec<(u16, Vec<u8>)> = get2(f, "cfg")
        .split(',')
        .map(|x| {
            let p = x.find(':').unwrap();
            (x[..p].parse().unwrap(), unhex(&x[p + 1..]))
        })
        .collect();
    let msgs: Vec<Msg> = get2(f, "msgs").split('|').filter(|x| !x.is_empty()).map(parse_msg).collect();
    let head = format!(
        "{{\"id\":\"{}\",\"mode\":\"{}\",\"cfg\":{{{}}},\"msgs\":[{}]",
        id,
        mode as char,
        REPLIES
            .iter()
            .zip(replies.iter())
            .map(|(n, r)| format!("\"{}\":[{},{}]", n, r.0, jb(&r.1)))
            .collect::<Vec<_>>()
            .join(","),
        msgs.iter()
            .map(|m| format!(
                "{{\"f\":{},\"df\":{},\"t\":[{}],\"dd\":{},\"dm\":{},\"b\":{},\"x\":{}}}",
                jb(&m.from.clone().unwrap_or_default()),
                jdec(&m.df),
                m.to.iter()
                    .map(|(a, d)| format!("{{\"a\":{},\"d\":{}}}", jb(a), jdec(d)))
                    .collect::<Vec<_>>()
                    .join(","),
                jdec(&m.dd),
                jdec(&m.dm),
                jb(&m.chunks.concat()),
                m.extras.len()
            ))
            .collect::<Vec<_>>()
            .join(",")
    );
    case_begin(format!("{},\"k\":\"hang\",\"told\":[],\"handed\":[],\"hang\":true}}", head));
    let rng = Arc::new(Mutex::new(Rng(seed)));
    let (up, down): (Shared<Pipe>, Shared<Pipe>) = Default::default();
    let handed: Shared<Vec<Handed>> = Default::default();
    let told: Shared<Vec<(u32, Vec<u8>)>> = Default::default();
    let problem: Shared<String> = Default::default();
    let ends: Shared<Vec<String>> = Default::default();

    let mut server = Server {
        replies,
        msgs: msgs.clone().into(),
        cur: None,
        nto: 0,
        handed: handed.clone(),
        slow: (seed % 2) as usize,
    };
    let (srx, mut stx) = (
        Rx {
            pipe: up.clone(),
            rng: rng.clone(),
        },
        Box::pin(Tx::new(&down, &rng)),
    );
    let (e1, d1) = (ends.clone(), down.clone());
    let server = async move {
        let r = interact(srx, stx.as_mut(), (), &mut server).await;
        lock(&e1).push(format!("server-{}", if r.is_ok() { "ok" } else { "err" }));
        lock(&d1).close();
    };
    let mut client = Client {
        rx: Rx {
            pipe: down.clone(),
            rng: rng.clone(),
        },
        buf: vec![],
        tx: Some(Tx::new(&up, &rng)),
        out: vec![],
        told: told.clone(),
        problem: problem.clone(),
    };
    let (e2, u2) = (ends.clone(), up.clone());
    let client = async move {
        let r = client.run(msgs, mode).await;
        if r.is_ok() {
            lock(&e2).push("client-ok".into());
        }
        lock(&u2).close();
    };
    let mut tasks = vec![
        Task {
            fut: Box::pin(server),
            flag: Flag::new(),
            done: false,
        },
        Task {
            fut: Box::pin(client),
            flag: Flag::new(),
            done: false,
        },
    ];
    let mut k = "ok".to_string();
    loop {
        let ready: Vec<usize> = (0..2).filter(|i| !tasks[*i].done && Flag::is_set(&tasks[*i].flag)).collect();
        if ready.is_empty() {
            if tasks.iter().any(|t| !t.done) {
                k = "stuck".into();
            }
            break;
        }
        let i = ready[lock(&rng).below(ready.len())];
        let t = &mut tasks[i];
        t.flag.take();
        let w = waker(t.flag.clone());
        let mut cx = Context::from_waker(&w);
        let fut = &mut t.fut;
        match std::panic::catch_unwind(AssertUnwindSafe(|| fut.as_mut().poll(&mut cx))) {
            Ok(Poll::Ready(())) => t.done = true,
            Ok(Poll::Pending) => (),
            Err(e) => {
                k = format!("panic: {}", panic_text(e));
                break;
            }
        }
    }
    std::mem::forget(tasks);
    case_end();
    let problem = lock(&problem).clone();
    if !problem.is_empty() {
        k = problem;
    }
    let ends = lock(&ends).clone();
    if k == "ok" && ends != ["client-ok", "server-ok"] {
        k = format!("ended: {}", ends.join(" "));
    }
    emit(&format!(
        "{},\"k\":{},\"told\":[{}],\"handed\":[{}]}}",
        head,
        jstr(&k),
        lock(&told)
            .iter()
            .map(|(c, t)| format!("[{},{}]", c, jb(t)))
            .collect::<Vec<_>>()
            .join(","),
        lock(&handed)
            .iter()
            .map(|h| format!("{{\"f\":{},\"t\":{},\"b\":{},\"ok\":{}}}", jb(&h.f), jbs(&h.t), jb(&h.b), h.ok))
            .collect::<Vec<_>>()
            .join(",")
    ));
}

fn get2<'a>(f: &'a [(String, String)], k: &str) -> &'a str {
    f.iter().find(|x| x.0 == k).map(|x| &x.1[..]).unwrap()
}

fn main() {
    quiet_panics();
    limit_memory(3);
    watchdog(20);
    let stdin = io::stdin();
    for line in stdin.lock().lines() {
        let line = line.unwrap();
        if line.trim().is_empty() {
            continue;
        }
        let f: Vec<(String, String)> = line
            .trim()
            .split(' ')
            .map(|x| {
                let p = x.find('=').unwrap();
                (x[..p].to_string(), x[p + 1..].to_string())
            })
            .collect();
        run(get2(&f, "id"), &f);
    }
    emit("{\"eof\":true}");
}
