//! Runs `smtp_server::interact` on scenarios read from standard input and records every event
//! at its interfaces: what the reader is asked and gives, the calls to the configuration, what
//! the writer gets.  One JSON line per recorded session.
//!
//! Scenario line: fields separated by spaces
//!   id=<n>
//!   in=<item,...>      items: h<hex> a packet, p a pause until woken by the driver,
//!                      w a pause that wakes itself; the stream then ends
//!   dec=<dec|...>      decisions, used in order by filter_from/filter_to/filter_data/handler:
//!                      <mods>a or <mods>r<code>:<hex>; mods: !<hex>; set the address ("-" for
//!                      the null sender), ~<hex>; set the envelope sender, +<hex>; add a
//!                      recipient to the envelope, _; drop the last one, %q<k>; the handler
//!                      returns having read k chunks, %x<k>; asks for completion then, %e;
//!                      reads to the end and does not ask
//!   rep=d|m|c|s        default replies / mid-level methods overridden / all overridden /
//!                      default replies and default new_mail and filter_data
//!   rep=v<n>|w<n>      all replies / the replies others derive from, made from the seed n
//!   rep=o<n>           some of the replies made from n / 16, n % 16 says which
//!   rep=y<n>           replies of the same codes and lengths for every n, and all different
//!   sink=[fr<n>|fs<n>|ff<n>][p<k>]   fail at the n-th ready/send/flush, be pending k times
//!   fp=<k>             each callback is pending k times
//!   body=n|c|k<n>      handler reads chunk by chunk / concatenated / pauses n times per chunk
//!   more=<a>.<b>       the handler asks for more a times after the end of the body, and b times
//!                      after completion
//!   cuts=<c,...>       asis one bytes two r<seed>x<n>  (two: all cuts in two; r: n random cuts
//!                      with pauses)
//!   out=t|p            full traces, or the distinct projected logs
use std::{
    collections::BTreeMap,
    io::BufRead,
    panic::AssertUnwindSafe,
    pin::Pin,
    sync::{
        atomic::{AtomicUsize, Ordering},
        Arc, Mutex,
    },
    task::{Context, Poll, Waker},
};

use bytes::{Bytes, BytesMut};
use futures::{prelude::*, task::waker};
use smtp_message::{DataStream, Email, ReplyCode, SmtpString};
use smtp_server::{interact, Config, ConnectionMetadata, Decision, MailMetadata, Refusal};
use vharness::*;

type Log = Arc<Mutex<Vec<String>>>;

/// More events than this are taken for a loop without end.
static LIMIT: AtomicUsize = AtomicUsize::new(60000);

fn rec(log: &Log, e: String) {
    let mut l = log.lock().unwrap();
    let limit = LIMIT.load(Ordering::Relaxed);
    if l.len() < limit {
        l.push(e)
    } else if l.len() == limit {
        l.push("{\"e\":\"hang\"}".into());
        panic!("too many events");
    }
}

#[derive(Clone, Debug)]
enum Item {
    Pkt(Vec<u8>),
    Pause,
    SelfWake,
}

struct Reader {
    items: std::collections::VecDeque<Item>,
    log: Log,
    ended: bool,
    parked: Arc<Mutex<Option<Waker>>>,
}

impl Stream for Reader {
    type Item = BytesMut;
    fn poll_next(mut self: Pin<&mut Self>, cx: &mut Context) -> Poll<Option<BytesMut>> {
        if self.ended {
            rec(&self.log, "{\"e\":\"again\"}".into());
            return Poll::Ready(None);
        }
        match self.items.pop_front() {
            None => {
                self.ended = true;
                rec(&self.log, "{\"e\":\"eof\"}".into());
                Poll::Ready(None)
            }
            Some(Item::Pkt(b)) => {
                rec(&self.log, format!("{{\"e\":\"rx\",\"b\":{}}}", jb(&b)));
                Poll::Ready(Some(BytesMut::from(b)))
            }
            Some(Item::Pause) => {
                rec(&self.log, "{\"e\":\"pend\"}".into());
                *self.parked.lock().unwrap() = Some(cx.waker().clone());
                Poll::Pending
            }
            Some(Item::SelfWake) => {
                rec(&self.log, "{\"e\":\"pend\"}".into());
                cx.waker().wake_by_ref();
                Poll::Pending
            }
        }
    }
}

#[derive(Clone, Default, Debug)]
struct SinkSpec {
    fr: usize,
    fs: usize,
    ff: usize,
    pend: usize,
}

struct Writer {
    spec: SinkSpec,
    log: Log,
    nr: usize,
    ns: usize,
    nf: usize,
    left: usize,
}

impl Writer {
    fn pause(&mut self, cx: &mut Context) -> bool {
        if self.left > 0 {
            self.left -= 1;
            cx.waker().wake_by_ref();
            true
        } else {
            self.left = self.spec.pend;
            false
        }
    }
    fn error<T>(&self) -> Result<T, ()> {
        rec(&self.log, "{\"e\":\"outerr\"}".into());
        Err(())
    }
}

impl Sink<Bytes> for Writer {
    type Error = ();
    fn poll_ready(mut self: Pin<&mut Self>, cx: &mut Context) -> Poll<Result<(), ()>> {
        if self.pause(cx) {
            return Poll::Pending;
        }
        self.nr += 1;
        if self.nr == self.spec.fr {
            return Poll::Ready(self.error());
        }
        Poll::Ready(Ok(()))
    }
    fn start_send(mut self: Pin<&mut Self>, item: Bytes) -> Result<(), ()> {
        self.ns += 1;
        if self.ns == self.spec.fs {
            return self.error();
        }
        rec(&self.log, format!("{{\"e\":\"out\",\"b\":{}}}", jb(&item)));
        Ok(())
    }
    fn poll_flush(mut self: Pin<&mut Self>, cx: &mut Context) -> Poll<Result<(), ()>> {
        if self.pause(cx) {
            return Poll::Pending;
        }
        self.nf += 1;
        if self.nf == self.spec.ff {
            return Poll::Ready(self.error());
        }
        rec(&self.log, "{\"e\":\"flush\"}".into());
        Poll::Ready(Ok(()))
    }
    fn poll_close(self: Pin<&mut Self>, cx: &mut Context) -> Poll<Result<(), ()>> {
        self.poll_flush(cx)
    }
}

#[derive(Clone, Debug)]
enum Mod {
    Addr(Option<Vec<u8>>),
    EnvFrom(Option<Vec<u8>>),
    EnvAdd(Vec<u8>),
    EnvPop,
    /// the handler gives up: after how many chunks, whether it asks for completion
    Quit(Option<usize>, bool),
}
#[derive(Clone, Debug, Default)]
struct Dec {
    mods: Vec<Mod>,
    refuse: Option<(u16, Vec<u8>)>,
}

fn parse_dec(s: &str) -> Dec {
    let mut d = Dec::default();
    let mut s = s;
    let addr = |h: &str| if h == "-" { None } else { Some(unhex(h)) };
    loop {
        match s.as_bytes().first() {
            Some(b'a') => {
                assert_eq!(s, "a");
                return d;
            }
            Some(b'r') => {
                let p = s.find(':').unwrap();
                d.refuse = Some((s[1..p].parse().unwrap(), unhex(&s[p + 1..])));
                return d;
            }
            Some(c) => {
                let p = s.find(';').unwrap();
                let h = &s[1..p];
                d.mods.push(match c {
                    b'!' => Mod::Addr(addr(h)),
                    b'~' => Mod::EnvFrom(addr(h)),
                    b'+' => Mod::EnvAdd(unhex(h)),
                    b'_' => Mod::EnvPop,
                    b'%' => match h.as_bytes()[0] {
                        b'e' => Mod::Quit(None, false),
                        c => Mod::Quit(Some(h[1..].parse().unwrap()), c == b'x'),
                    },
                    _ => panic!("bad decision"),
                });
                s = &s[p + 1..];
            }
            None => panic!("empty decision"),
        }
    }
}

fn email(b: &[u8]) -> Email {
    Email::parse_slice(b).expect("address given by the scenario does not parse")
}
fn opt_email(b: &Option<Vec<u8>>) -> Option<Email> {
    b.as_ref().map(|b| email(b))
}
fn text(e: &Email) -> Vec<u8> {
    SmtpString::from_sendable(e).unwrap().bytes().to_vec()
}
fn jmail(e: &Option<Email>) -> String {
    jb(&e.as_ref().map(text).unwrap_or_default())
}
fn jmails(v: &[Email]) -> String {
    jbs(&v.iter().map(text).collect::<Vec<_>>())
}
fn jdec(d: &Dec) -> String {
    match d.refuse {
        None => "[]".into(),
        Some((c, ref t)) => format!("[{},{}]", c, jb(t)),
    }
}
fn decision(d: &Dec) -> Decision {
    match d.refuse {
        None => Decision::Accept,
        Some((c, ref t)) => Decision::Reject(Refusal {
            code: ReplyCode::custom(c),
            msg: SmtpString::from(&t[..]),
        }),
    }
}

struct Yield(usize);
impl Future for Yield {
    type Output = ();
    fn poll(mut self: Pin<&mut Self>, cx: &mut Context) -> Poll<()> {
        if self.0 == 0 {
            return Poll::Ready(());
        }
        self.0 -= 1;
        cx.waker().wake_by_ref();
        Poll::Pending
    }
}

#[derive(Clone, Copy, PartialEq, Debug)]
enum BodyMode {
    Next,
    Concat,
    Paused(usize),
}

struct Core {
    log: Log,
    decs: std::collections::VecDeque<Dec>,
    fp: usize,
    body: BodyMode,
    more: Option<(usize, usize)>,
}

impl Core {
    fn dec(&mut self) -> Dec {
        self.decs.pop_front().unwrap_or_default()
    }

    async fn from(&mut self, from: &mut Option<Email>, m: &mut ConnectionMetadata<u64>) -> Decision {
        let d = self.dec();
        let a = jmail(from);
        Yield(self.fp).await;
        for x in &d.mods {
            if let Mod::Addr(x) = x {
                *from = opt_email(x);
            }
        }
        rec(
            &self.log,
            format!(
                "{{\"e\":\"from\",\"a\":{},\"a2\":{},\"d\":{},\"u\":{}}}",
                a,
                jmail(from),
                jdec(&d),
                m.user
            ),
        );
        m.user += 1;
        decision(&d)
    }

    async fn to(
        &mut self,
        to: &mut Email,
        meta: &mut MailMetadata,
        m: &mut ConnectionMetadata<u64>,
    ) -> Decision {
        let d = self.dec();
        let (a, mf, mt) = (jb(&text(to)), jmail(&meta.from), jmails(&meta.to));
        Yield(self.fp).await;
        for x in &d.mods {
            match x {
                Mod::Addr(Some(x)) => *to = email(x),
                Mod::Addr(None) => (),
                x => envelope(x, meta),
            }
        }
        rec(
            &self.log,
            format!(
                "{{\"e\":\"to\",\"a\":{},\"mf\":{},\"mt\":{},\"a2\":{},\"mf2\":{},\"mt2\":{},\"d\":{},\"u\":{}}}",
                a,
                mf,
                mt,
                jb(&text(to)),
                jmail(&meta.from),
                jmails(&meta.to),
                jdec(&d),
                m.user
            ),
        );
        m.user += 1;
        decision(&d)
    }

    async fn data(&mut self, meta: &mut MailMetadata, m: &mut ConnectionMetadata<u64>) -> Decision {
        let d = self.dec();
        let (mf, mt) = (jmail(&meta.from), jmails(&meta.to));
        Yield(self.fp).await;
        for x in &d.mods {
            envelope(x, meta);
        }
        rec(
            &self.log,
            format!(
                "{{\"e\":\"data\",\"mf\":{},\"mt\":{},\"mf2\":{},\"mt2\":{},\"d\":{},\"u\":{}}}",
                mf,
                mt,
                jmail(&meta.from),
                jmails(&meta.to),
                jdec(&d),
                m.user
            ),
        );
        m.user += 1;
        decision(&d)
    }

    /// Asks k times for more of a body that has ended.
    async fn ask_again<'a, S>(&'a mut self, stream: &'a mut DataStream<'_, S>, k: usize)
    where
        S: 'a + Unpin + Stream<Item = BytesMut>,
    {
        for _ in 0..k {
            rec(&self.log, "{\"e\":\"more\"}".into());
            while let Some(b) = stream.next().await {
                rec(&self.log, format!("{{\"e\":\"body\",\"b\":{}}}", jb(&b)));
            }
            rec(&self.log, "{\"e\":\"none\"}".into());
        }
    }

    async fn mail<'a, S>(
        &'a mut self,
        stream: &'a mut DataStream<'_, S>,
        meta: MailMetadata,
        m: &'a mut ConnectionMetadata<u64>,
    ) -> Decision
    where
        S: 'a + Unpin + Stream<Item = BytesMut>,
    {
        let d = self.dec();
        rec(
            &self.log,
            format!(
                "{{\"e\":\"hm\",\"mf\":{},\"mt\":{},\"u\":{}}}",
                jmail(&meta.from),
                jmails(&meta.to),
                m.user
            ),
        );
        m.user += 1;
        Yield(self.fp).await;
        let quit = d.mods.iter().find_map(|m| match m {
            Mod::Quit(n, ask) => Some((*n, *ask)),
            _ => None,
        });
        if let Some((n, ask)) = quit {
            let mut k = 0;
            while n.map(|n| k < n).unwrap_or(true) {
                k += 1;
                match stream.next().await {
                    None => break,
                    Some(b) => rec(&self.log, format!("{{\"e\":\"body\",\"b\":{}}}", jb(&b))),
                }
            }
            rec(&self.log, "{\"e\":\"quit\"}".into());
            Yield(self.fp).await;
            if ask {
                let ok = stream.complete().is_ok();
                rec(&self.log, format!("{{\"e\":\"bend\",\"ok\":{}}}", ok));
            }
            rec(&self.log, format!("{{\"e\":\"hmend\",\"d\":{}}}", jdec(&d)));
            return decision(&d);
        }
        if self.body == BodyMode::Concat {
            let b = stream.concat().await;
            if !b.is_empty() {
                rec(&self.log, format!("{{\"e\":\"body\",\"b\":{}}}", jb(&b)));
            }
        } else {
            while let Some(b) = stream.next().await {
                rec(&self.log, format!("{{\"e\":\"body\",\"b\":{}}}", jb(&b)));
                if let BodyMode::Paused(n) = self.body {
                    Yield(n).await;
                }
            }
        }
        if let Some((k, _)) = self.more {
            rec(&self.log, "{\"e\":\"none\"}".into());
            self.ask_again(stream, k).await;
        }
        let ok = stream.complete().is_ok();
        rec(&self.log, format!("{{\"e\":\"bend\",\"ok\":{}}}", ok));
        if let Some((_, k)) = self.more {
            self.ask_again(stream, k).await;
        }
        Yield(self.fp).await;
        rec(&self.log, format!("{{\"e\":\"hmend\",\"d\":{}}}", jdec(&d)));
        decision(&d)
    }
}

fn envelope(x: &Mod, meta: &mut MailMetadata) {
    match x {
        Mod::Addr(_) | Mod::Quit(..) => (),
        Mod::EnvFrom(x) => meta.from = opt_email(x),
        Mod::EnvAdd(x) => meta.to.push(email(x)),
        Mod::EnvPop => {
            if meta.to.len() > 1 {
                meta.to.pop();
            }
        }
    }
}

macro_rules! callbacks {
    () => {
        fn filter_from<'a>(
            &'a mut self,
            from: &'a mut Option<Email>,
            m: &'a mut ConnectionMetadata<u64>,
        ) -> Pin<Box<dyn 'a + Send + Future<Output = Decision>>> {
            Box::pin(self.0.from(from, m))
        }
        fn filter_to<'a>(
            &'a mut self,
            to: &'a mut Email,
            meta: &'a mut MailMetadata,
            m: &'a mut ConnectionMetadata<u64>,
        ) -> Pin<Box<dyn 'a + Send + Future<Output = Decision>>> {
            Box::pin(self.0.to(to, meta, m))
        }
        fn handle_mail<'a, S>(
            &'a mut self,
            stream: &'a mut DataStream<S>,
            meta: MailMetadata,
            m: &'a mut ConnectionMetadata<u64>,
        ) -> Pin<Box<dyn 'a + Future<Output = Decision>>>
        where
            S: 'a + Unpin + Stream<Item = BytesMut>,
        {
            Box::pin(self.0.mail(stream, meta, m))
        }
    };
}
macro_rules! more_callbacks {
    () => {
        callbacks!();
        fn new_mail<'a>(&'a mut self) -> Pin<Box<dyn 'a + Send + Future<Output = ()>>> {
            Box::pin(async move {
                Yield(self.0.fp).await;
                rec(&self.0.log, "{\"e\":\"new\"}".into());
            })
        }
        fn filter_data<'a>(
            &'a mut self,
            meta: &'a mut MailMetadata,
            m: &'a mut ConnectionMetadata<u64>,
        ) -> Pin<Box<dyn 'a + Send + Future<Output = Decision>>> {
            Box::pin(self.0.data(meta, m))
        }
    };
}

fn host() -> SmtpString {
    SmtpString::from_static(b"mx.test")
}

/// Everything left to the trait's defaults, including new_mail and filter_data.
struct Silent(Core);
impl Config<u64> for Silent {
    callbacks!();
    fn hostname(&self) -> SmtpString {
        host()
    }
}
/// Default replies.
struct Default_(Core);
impl Config<u64> for Default_ {
    more_callbacks!();
    fn hostname(&self) -> SmtpString {
        host()
    }
}
/// The replies others derive from are overridden.
struct Mid(Core);
impl Config<u64> for Mid {
    more_callbacks!();
    fn hostname(&self) -> SmtpString {
        host()
    }
    fn banner(&self) -> SmtpString {
        SmtpString::from_static(b"hello there")
    }
    fn okay(&self) -> (ReplyCode, SmtpString) {
        (ReplyCode::custom(251), SmtpString::from_static(b""))
    }
    fn bad_sequence(&self) -> (ReplyCode, SmtpString) {
        (ReplyCode::custom(533), SmtpString::from_static(b"not now"))
    }
}
fn long(c: u8, n: usize) -> SmtpString {
    SmtpString::from(
        (0..n)
            .map(|i| if i % 97 == 96 { b' ' } else { c + (i % 19) as u8 })
            .collect::<Vec<u8>>(),
    )
}
/// Every reply is different, some are long, one is empty.
struct Full(Core);
impl Config<u64> for Full {
    more_callbacks!();
    fn hostname(&self) -> SmtpString {
        host()
    }
    fn welcome_banner(&self) -> (ReplyCode, SmtpString) {
        (ReplyCode::custom(299), SmtpString::from_static(b"w\tx"))
    }
    fn mail_okay(&self) -> (ReplyCode, SmtpString) {
        (ReplyCode::custom(201), SmtpString::from_static(b"sender"))
    }
    fn rcpt_okay(&self) -> (ReplyCode, SmtpString) {
        (ReplyCode::custom(202), SmtpString::from_static(b"rcpt"))
    }
    fn data_okay(&self) -> (ReplyCode, SmtpString) {
        (ReplyCode::custom(303), long(b'A', 507))
    }
    fn mail_accepted(&self) -> (ReplyCode, SmtpString) {
        (ReplyCode::custom(4), SmtpString::from_static(b" - "))
    }
    fn already_in_mail(&self) -> (ReplyCode, SmtpString) {
        (ReplyCode::custom(505), SmtpString::from_static(b"in mail"))
    }
    fn rcpt_before_mail(&self) -> (ReplyCode, SmtpString) {
        (ReplyCode::custom(506), SmtpString::from_static(b"rcpt too early"))
    }
    fn data_before_rcpt(&self) -> (ReplyCode, SmtpString) {
        (ReplyCode::custom(507), SmtpString::from_static(b""))
    }
    fn data_before_mail(&self) -> (ReplyCode, SmtpString) {
        (ReplyCode::custom(508), SmtpString::from_static(b"data too early"))
    }
    fn command_unimplemented(&self) -> (ReplyCode, SmtpString) {
        (ReplyCode::custom(509), long(b'a', 506))
    }
    fn command_unrecognized(&self) -> (ReplyCode, SmtpString) {
        (ReplyCode::custom(510), SmtpString::from_static(b"what?"))
    }
}

/// A text and a code for one reply of the configuration made from a seed.
fn made(seed: u64, what: u64) -> (u32, Vec<u8>) {
    let mut rng = Rng(seed ^ (what + 1).wrapping_mul(0x9e37_79b9_7f4a_7c15));
    for _ in 0..3 {
        rng.next();
    }
    let n = [0, 1, 5, 5, 5, 5, 12, 40, 506, 507, 508, 1100][rng.below(12)];
    let t = (0..n)
        .map(|_| match rng.below(20) {
            0 => b' ',
            1 => b'\t',
            2 => b'-',
            _ => 32 + rng.below(95) as u8,
        })
        .collect();
    (rng.below(1000) as u32, t)
}
fn made_reply(seed: u64, what: u64) -> (ReplyCode, SmtpString) {
    let (c, t) = made(seed, what);
    (ReplyCode::custom(c as u16), SmtpString::from(t))
}
fn made_text(seed: u64, what: u64) -> SmtpString {
    SmtpString::from(made(seed, what).1)
}
/// Every reply made from a seed.
struct Made(Core, u64);
impl Config<u64> for Made {
    more_callbacks!();
    fn hostname(&self) -> SmtpString {
        host()
    }
    fn welcome_banner(&self) -> (ReplyCode, SmtpString) {
        made_reply(self.1, 0)
    }
    fn mail_okay(&self) -> (ReplyCode, SmtpString) {
        made_reply(self.1, 1)
    }
    fn rcpt_okay(&self) -> (ReplyCode, SmtpString) {
        made_reply(self.1, 2)
    }
    fn data_okay(&self) -> (ReplyCode, SmtpString) {
        made_reply(self.1, 3)
    }
    fn mail_accepted(&self) -> (ReplyCode, SmtpString) {
        made_reply(self.1, 4)
    }
    fn already_in_mail(&self) -> (ReplyCode, SmtpString) {
        made_reply(self.1, 5)
    }
    fn rcpt_before_mail(&self) -> (ReplyCode, SmtpString) {
        made_reply(self.1, 6)
    }
    fn data_before_rcpt(&self) -> (ReplyCode, SmtpString) {
        made_reply(self.1, 7)
    }
    fn data_before_mail(&self) -> (ReplyCode, SmtpString) {
        made_reply(self.1, 8)
    }
    fn command_unimplemented(&self) -> (ReplyCode, SmtpString) {
        made_reply(self.1, 9)
    }
    fn command_unrecognized(&self) -> (ReplyCode, SmtpString) {
        made_reply(self.1, 10)
    }
}
/// The replies others derive from made from a seed.
struct MadeMid(Core, u64);
impl Config<u64> for MadeMid {
    more_callbacks!();
    fn hostname(&self) -> SmtpString {
        made_text(self.1, 20)
    }
    fn banner(&self) -> SmtpString {
        made_text(self.1, 21)
    }
    fn okay(&self) -> (ReplyCode, SmtpString) {
        made_reply(self.1, 22)
    }
    fn bad_sequence(&self) -> (ReplyCode, SmtpString) {
        made_reply(self.1, 23)
    }
}

/// Replies like the default ones, of the same lengths for each seed, and all different.
struct Tagged(Core, u64);
fn tagged(what: &str, seed: u64) -> Vec<u8> {
    format!("{} {:06}", what, seed % 1_000_000).into_bytes()
}
impl Tagged {
    fn say(&self, code: u16, what: &str) -> (ReplyCode, SmtpString) {
        (ReplyCode::custom(code), SmtpString::from(tagged(what, self.1)))
    }
}
impl Config<u64> for Tagged {
    more_callbacks!();
    fn hostname(&self) -> SmtpString {
        SmtpString::from(tagged("mx", self.1))
    }
    fn okay(&self) -> (ReplyCode, SmtpString) {
        self.say(250, "Okay")
    }
    fn data_okay(&self) -> (ReplyCode, SmtpString) {
        self.say(354, "Go ahead")
    }
    fn bad_sequence(&self) -> (ReplyCode, SmtpString) {
        self.say(503, "Bad sequence")
    }
    fn command_unimplemented(&self) -> (ReplyCode, SmtpString) {
        self.say(502, "Not here")
    }
    fn command_unrecognized(&self) -> (ReplyCode, SmtpString) {
        self.say(500, "What")
    }
}

/// Configurations that override a few of the replies and leave the others to the trait.
macro_rules! overriding {
    ($t:ident, $($f:ident = $n:expr),*) => {
        struct $t(Core, u64);
        impl Config<u64> for $t {
            more_callbacks!();
            fn hostname(&self) -> SmtpString {
                host()
            }
            $(fn $f(&self) -> (ReplyCode, SmtpString) {
                made_reply(self.1, $n)
            })*
        }
    };
}
overriding!(O0, welcome_banner = 0);
overriding!(O1, mail_okay = 1);
overriding!(O2, rcpt_okay = 2);
overriding!(O3, data_okay = 3);
overriding!(O4, mail_accepted = 4);
overriding!(O5, already_in_mail = 5);
overriding!(O6, rcpt_before_mail = 6);
overriding!(O7, data_before_rcpt = 7);
overriding!(O8, data_before_mail = 8);
overriding!(O9, command_unimplemented = 9);
overriding!(O10, command_unrecognized = 10);
overriding!(O11, okay = 11);
overriding!(O12, bad_sequence = 12);
overriding!(O13, okay = 11, mail_okay = 1);
overriding!(O14, bad_sequence = 12, rcpt_before_mail = 6, data_before_mail = 8);
overriding!(O15, rcpt_okay = 2, mail_accepted = 4, data_before_rcpt = 7, command_unrecognized = 10);
/// What they override: 0-10 as in the list of cfg_json, 11 and 12 what others derive from.
const OVERRIDES: [&[u64]; 16] = [
    &[0],
    &[1],
    &[2],
    &[3],
    &[4],
    &[5],
    &[6],
    &[7],
    &[8],
    &[9],
    &[10],
    &[11],
    &[12],
    &[11, 1],
    &[12, 6, 8],
    &[2, 4, 7, 10],
];

/// What the specification is told about the configuration: the replies as the trait documents
/// them, written down here independently of the trait's default methods.
fn cfg_json(rep: &str) -> String {
    let r = |n: &str, c: u32, t: &[u8]| format!("\"{}\":[{},{}]", n, c, jb(t));
    let all = |g: (u32, &[u8]), mo: (u32, &[u8]), ro: (u32, &[u8]), d: (u32, &[u8]), ma: (u32, &[u8]), am: (u32, &[u8]), rb: (u32, &[u8]), dr: (u32, &[u8]), dm: (u32, &[u8]), ui: (u32, &[u8]), ur: (u32, &[u8])| {
        vec![
            r("greet", g.0, g.1),
            r("mailok", mo.0, mo.1),
            r("rcptok", ro.0, ro.1),
            r("dataok", d.0, d.1),
            r("accepted", ma.0, ma.1),
            r("already", am.0, am.1),
            r("rcptbm", rb.0, rb.1),
            r("databr", dr.0, dr.1),
            r("databm", dm.0, dm.1),
            r("unimpl", ui.0, ui.1),
            r("unrec", ur.0, ur.1),
        ]
        .join(",")
    };
    let ok: (u32, &[u8]) = (250, b"Okay");
    let bs: (u32, &[u8]) = (503, b"Bad sequence of commands");
    let go: (u32, &[u8]) = (354, b"Start mail input; end with <CRLF>.<CRLF>");
    let ui: (u32, &[u8]) = (502, b"Command not implemented");
    let ur: (u32, &[u8]) = (500, b"Command not recognized");
    if rep.len() > 1 {
        let seed = rep[1..].parse().unwrap();
        let m = |what| made(seed, what);
        let all_of = |w: [(u32, Vec<u8>); 11]| {
            let r: Vec<(u32, &[u8])> = w.iter().map(|x| (x.0, &x.1[..])).collect();
            all(r[0], r[1], r[2], r[3], r[4], r[5], r[6], r[7], r[8], r[9], r[10])
        };
        let w = if rep.starts_with('v') {
            [m(0), m(1), m(2), m(3), m(4), m(5), m(6), m(7), m(8), m(9), m(10)]
        } else if rep.starts_with('o') {
            let (over, seed) = (OVERRIDES[seed as usize % 16], seed / 16);
            let is = |n: u64| over.contains(&n);
            let base = |n: u64, d: (u32, &[u8])| if is(n) { made(seed, n) } else { (d.0, d.1.to_vec()) };
            let (o, b) = (base(11, ok), base(12, bs));
            let from = |n: u64, d: &(u32, Vec<u8>)| base(n, (d.0, &d.1[..]));
            [
                base(0, (220, b"mx.test Service ready")),
                from(1, &o),
                from(2, &o),
                base(3, go),
                from(4, &o),
                from(5, &b),
                from(6, &b),
                from(7, &b),
                from(8, &b),
                base(9, ui),
                base(10, ur),
            ]
        } else if rep.starts_with('y') {
            let t = |c, what| (c, tagged(what, seed));
            let mut greet = tagged("mx", seed);
            greet.extend(b" Service ready");
            let (ok, bs) = (t(250, "Okay"), t(503, "Bad sequence"));
            let bs = || bs.clone();
            [
                (220, greet), ok.clone(), ok.clone(), t(354, "Go ahead"), ok.clone(), bs(), bs(), bs(), bs(),
                t(502, "Not here"), t(500, "What"),
            ]
        } else {
            let mut greet = m(20).1;
            greet.push(b' ');
            greet.extend(m(21).1);
            let o = |x: (u32, &[u8])| (x.0, x.1.to_vec());
            [(220, greet), m(22), m(22), o(go), m(22), m(23), m(23), m(23), m(23), o(ui), o(ur)]
        };
        return format!("{{\"silent\":false,{}}}", all_of(w));
    }
    let body = match rep {
        "d" | "s" => all((220, b"mx.test Service ready"), ok, ok, go, ok, bs, bs, bs, bs, ui, ur),
        "m" => {
            let ok: (u32, &[u8]) = (251, b"");
            let bs: (u32, &[u8]) = (533, b"not now");
            all((220, b"mx.test hello there"), ok, ok, go, ok, bs, bs, bs, bs, ui, ur)
        }
        "c" => all(
            (299, b"w\tx"),
            (201, b"sender"),
            (202, b"rcpt"),
            (303, &long(b'A', 507).bytes()[..]),
            (4, b" - "),
            (505, b"in mail"),
            (506, b"rcpt too early"),
            (507, b""),
            (508, b"data too early"),
            (509, &long(b'a', 506).bytes()[..]),
            (510, b"what?"),
        ),
        _ => panic!("bad rep"),
    };
    format!("{{\"silent\":{},{}}}", rep == "s", body)
}

#[derive(Clone, Debug)]
struct Scenario {
    id: String,
    items: Vec<Item>,
    decs: Vec<Dec>,
    rep: String,
    sink: SinkSpec,
    fp: usize,
    body: BodyMode,
    more: Option<(usize, usize)>,
    cuts: Vec<String>,
    full: bool,
}

fn parse_scenario(line: &str) -> Scenario {
    let f = fields(line);
    let items = get(&f, "in")
        .unwrap_or("")
        .split(',')
        .filter(|x| !x.is_empty())
        .map(|x| match x.as_bytes()[0] {
            b'h' => Item::Pkt(unhex(&x[1..])),
            b'p' => Item::Pause,
            b'w' => Item::SelfWake,
            _ => panic!("bad input item"),
        })
        .collect();
    let decs = get(&f, "dec")
        .unwrap_or("")
        .split('|')
        .filter(|x| !x.is_empty())
        .map(parse_dec)
        .collect();
    let mut sink = SinkSpec::default();
    for s in get(&f, "sink").unwrap_or("").split('+').filter(|x| !x.is_empty()) {
        if s.starts_with("fr") {
            sink.fr = s[2..].parse().unwrap()
        } else if s.starts_with("fs") {
            sink.fs = s[2..].parse().unwrap()
        } else if s.starts_with("ff") {
            sink.ff = s[2..].parse().unwrap()
        } else {
            sink.pend = s[1..].parse().unwrap()
        }
    }
    let body = match get(&f, "body").unwrap_or("n") {
        "n" => BodyMode::Next,
        "c" => BodyMode::Concat,
        k => BodyMode::Paused(k[1..].parse().unwrap()),
    };
    Scenario {
        id: get(&f, "id").unwrap().into(),
        items,
        decs,
        rep: get(&f, "rep").unwrap_or("d").into(),
        sink,
        fp: get(&f, "fp").map(|x| x.parse().unwrap()).unwrap_or(0),
        body,
        more: get(&f, "more").map(|m| {
            let p = m.find('.').unwrap();
            (m[..p].parse().unwrap(), m[p + 1..].parse().unwrap())
        }),
        cuts: get(&f, "cuts").unwrap_or("asis").split(',').map(String::from).collect(),
        full: get(&f, "out").unwrap_or("t") == "t",
    }
}

fn bytes_of(items: &[Item]) -> Vec<u8> {
    let mut v = Vec::new();
    for i in items {
        if let Item::Pkt(b) = i {
            v.extend_from_slice(b)
        }
    }
    v
}

/// All the ways to present the input that a cut specification asks for.
fn cuts(c: &str, items: &[Item]) -> Vec<Vec<Item>> {
    let b = bytes_of(items);
    let n = b.len();
    match c {
        "asis" => vec![items.to_vec()],
        "one" => vec![vec![Item::Pkt(b)]],
        "bytes" => vec![b.iter().map(|x| Item::Pkt(vec![*x])).collect()],
        // byte by byte, with a pause and an empty packet before each byte
        "slow" => vec![b
            .iter()
            .flat_map(|x| vec![Item::Pause, Item::Pkt(vec![]), Item::Pkt(vec![*x])])
            .chain(vec![Item::Pause])
            .collect()],
        "two" => (1..n)
            .map(|i| vec![Item::Pkt(b[..i].to_vec()), Item::Pkt(b[i..].to_vec())])
            .collect(),
        "twop" => (1..n)
            .map(|i| vec![Item::Pkt(b[..i].to_vec()), Item::Pause, Item::Pkt(b[i..].to_vec()), Item::Pause])
            .collect(),
        c => {
            let x = c.find('x').unwrap();
            let mut rng = Rng(c[1..x].parse().unwrap());
            let k: usize = c[x + 1..].parse().unwrap();
            (0..k)
                .map(|_| {
                    let mut v = Vec::new();
                    let mut p = 0;
                    // r: small packets; g: large ones
                    let max = if c.starts_with('g') {
                        [n.max(1), 300, 1460, 4096, 8192, 65536][rng.below(6)]
                    } else {
                        1 + rng.below(12)
                    };
                    while p < n {
                        match rng.below(6) {
                            0 => v.push(Item::Pause),
                            1 => v.push(Item::SelfWake),
                            2 if rng.below(3) == 0 => v.push(Item::Pkt(vec![])),
                            _ => (),
                        }
                        let l = (1 + rng.below(max)).min(n - p);
                        v.push(Item::Pkt(b[p..p + l].to_vec()));
                        p += l;
                    }
                    if rng.below(2) == 0 {
                        v.push(Item::Pause)
                    }
                    v
                })
                .collect()
        }
    }
}

/// A session being run: the future, its waker flag, what it parked on.
struct Live {
    fut: Pin<Box<dyn Future<Output = ()>>>,
    flag: Arc<Flag>,
    parked: Arc<Mutex<Option<Waker>>>,
    log: Log,
    done: bool,
}

async fn serve<C: Config<u64>>(reader: Reader, writer: Writer, cfg: &mut C, log: Log) {
    let mut writer = Box::pin(writer);
    let r = interact(reader, writer.as_mut(), 0u64, cfg).await;
    rec(
        &log,
        format!("{{\"e\":\"end\",\"r\":\"{}\"}}", if r.is_ok() { "ok" } else { "err" }),
    );
}

/// A configuration that outlives one session.
enum AnyCfg {
    S(Silent),
    D(Default_),
    M(Mid),
    F(Full),
    V(Made),
    W(MadeMid),
    Y(Tagged),
    O0(O0),
    O1(O1),
    O2(O2),
    O3(O3),
    O4(O4),
    O5(O5),
    O6(O6),
    O7(O7),
    O8(O8),
    O9(O9),
    O10(O10),
    O11(O11),
    O12(O12),
    O13(O13),
    O14(O14),
    O15(O15),
}
impl AnyCfg {
    fn new(rep: &str, core: Core) -> AnyCfg {
        if rep.len() > 1 {
            let seed = rep[1..].parse().unwrap();
            return match rep.as_bytes()[0] {
                b'v' => AnyCfg::V(Made(core, seed)),
                b'y' => AnyCfg::Y(Tagged(core, seed)),
                b'o' => match seed % 16 {
                    0 => AnyCfg::O0(O0(core, seed / 16)),
                    1 => AnyCfg::O1(O1(core, seed / 16)),
                    2 => AnyCfg::O2(O2(core, seed / 16)),
                    3 => AnyCfg::O3(O3(core, seed / 16)),
                    4 => AnyCfg::O4(O4(core, seed / 16)),
                    5 => AnyCfg::O5(O5(core, seed / 16)),
                    6 => AnyCfg::O6(O6(core, seed / 16)),
                    7 => AnyCfg::O7(O7(core, seed / 16)),
                    8 => AnyCfg::O8(O8(core, seed / 16)),
                    9 => AnyCfg::O9(O9(core, seed / 16)),
                    10 => AnyCfg::O10(O10(core, seed / 16)),
                    11 => AnyCfg::O11(O11(core, seed / 16)),
                    12 => AnyCfg::O12(O12(core, seed / 16)),
                    13 => AnyCfg::O13(O13(core, seed / 16)),
                    14 => AnyCfg::O14(O14(core, seed / 16)),
                    _ => AnyCfg::O15(O15(core, seed / 16)),
                },
                _ => AnyCfg::W(MadeMid(core, seed)),
            };
        }
        match rep {
            "s" => AnyCfg::S(Silent(core)),
            "d" => AnyCfg::D(Default_(core)),
            "m" => AnyCfg::M(Mid(core)),
            "c" => AnyCfg::F(Full(core)),
            _ => panic!("bad rep"),
        }
    }
    fn core(&mut self) -> &mut Core {
        match self {
            AnyCfg::S(x) => &mut x.0,
            AnyCfg::D(x) => &mut x.0,
            AnyCfg::M(x) => &mut x.0,
            AnyCfg::F(x) => &mut x.0,
            AnyCfg::V(x) => &mut x.0,
            AnyCfg::W(x) => &mut x.0,
            AnyCfg::Y(x) => &mut x.0,
            AnyCfg::O0(x) => &mut x.0,
            AnyCfg::O1(x) => &mut x.0,
            AnyCfg::O2(x) => &mut x.0,
            AnyCfg::O3(x) => &mut x.0,
            AnyCfg::O4(x) => &mut x.0,
            AnyCfg::O5(x) => &mut x.0,
            AnyCfg::O6(x) => &mut x.0,
            AnyCfg::O7(x) => &mut x.0,
            AnyCfg::O8(x) => &mut x.0,
            AnyCfg::O9(x) => &mut x.0,
            AnyCfg::O10(x) => &mut x.0,
            AnyCfg::O11(x) => &mut x.0,
            AnyCfg::O12(x) => &mut x.0,
            AnyCfg::O13(x) => &mut x.0,
            AnyCfg::O14(x) => &mut x.0,
            AnyCfg::O15(x) => &mut x.0,
        }
    }
    async fn serve(&mut self, r: Reader, w: Writer, log: Log) {
        match self {
            AnyCfg::S(x) => serve(r, w, x, log).await,
            AnyCfg::D(x) => serve(r, w, x, log).await,
            AnyCfg::M(x) => serve(r, w, x, log).await,
            AnyCfg::F(x) => serve(r, w, x, log).await,
            AnyCfg::V(x) => serve(r, w, x, log).await,
            AnyCfg::W(x) => serve(r, w, x, log).await,
            AnyCfg::Y(x) => serve(r, w, x, log).await,
            AnyCfg::O0(x) => serve(r, w, x, log).await,
            AnyCfg::O1(x) => serve(r, w, x, log).await,
            AnyCfg::O2(x) => serve(r, w, x, log).await,
            AnyCfg::O3(x) => serve(r, w, x, log).await,
            AnyCfg::O4(x) => serve(r, w, x, log).await,
            AnyCfg::O5(x) => serve(r, w, x, log).await,
            AnyCfg::O6(x) => serve(r, w, x, log).await,
            AnyCfg::O7(x) => serve(r, w, x, log).await,
            AnyCfg::O8(x) => serve(r, w, x, log).await,
            AnyCfg::O9(x) => serve(r, w, x, log).await,
            AnyCfg::O10(x) => serve(r, w, x, log).await,
            AnyCfg::O11(x) => serve(r, w, x, log).await,
            AnyCfg::O12(x) => serve(r, w, x, log).await,
            AnyCfg::O13(x) => serve(r, w, x, log).await,
            AnyCfg::O14(x) => serve(r, w, x, log).await,
            AnyCfg::O15(x) => serve(r, w, x, log).await,
        }
    }
}

fn parts(s: &Scenario, items: Vec<Item>) -> (Reader, Writer, Core, Log, Arc<Mutex<Option<Waker>>>) {
    let log: Log = Arc::new(Mutex::new(Vec::new()));
    let parked = Arc::new(Mutex::new(None));
    let reader = Reader {
        items: items.into(),
        log: log.clone(),
        ended: false,
        parked: parked.clone(),
    };
    let writer = Writer {
        spec: s.sink.clone(),
        log: log.clone(),
        nr: 0,
        ns: 0,
        nf: 0,
        left: s.sink.pend,
    };
    let core = Core {
        log: log.clone(),
        decs: s.decs.clone().into(),
        fp: s.fp,
        body: s.body,
        more: s.more,
    };
    (reader, writer, core, log, parked)
}

fn start(s: &Scenario, items: Vec<Item>) -> Live {
    let (reader, writer, core, log, parked) = parts(s, items);
    let rep = s.rep.clone();
    let l2 = log.clone();
    Live {
        fut: Box::pin(async move {
            let mut cfg = AnyCfg::new(&rep, core);
            cfg.serve(reader, writer, l2).await
        }),
        flag: Flag::new(),
        parked,
        log,
        done: false,
    }
}

/// Consecutive sessions with one configuration object.
fn start_consecutive(ss: &[(Scenario, Vec<Item>)]) -> (Live, Vec<Log>) {
    let rep = ss[0].0.rep.clone();
    let mut cores = Vec::new();
    let mut ios = Vec::new();
    let mut logs = Vec::new();
    let parked = Arc::new(Mutex::new(None));
    for (s, items) in ss {
        let (mut reader, writer, core, log, _) = parts(s, items.clone());
        reader.parked = parked.clone();
        cores.push(core);
        ios.push((reader, writer, log.clone()));
        logs.push(log);
    }
    let last = logs[0].clone();
    (
        Live {
            fut: Box::pin(async move {
                let mut cores = cores.into_iter();
                let mut cfg = AnyCfg::new(&rep, cores.next().unwrap());
                for (i, (r, w, l)) in ios.into_iter().enumerate() {
                    if i > 0 {
                        *cfg.core() = cores.next().unwrap();
                    }
                    cfg.serve(r, w, l).await;
                }
            }),
            flag: Flag::new(),
            parked,
            log: last,
            done: false,
        },
        logs,
    )
}

/// Polls once; a panic is recorded.  The future is not touched again afterwards.
fn step(l: &mut Live) {
    let w = waker(l.flag.clone());
    let mut cx = Context::from_waker(&w);
    let fut = &mut l.fut;
    match std::panic::catch_unwind(AssertUnwindSafe(|| fut.as_mut().poll(&mut cx))) {
        Ok(Poll::Ready(())) => l.done = true,
        Ok(Poll::Pending) => (),
        Err(e) => {
            let t = panic_text(e);
            let mut log = match l.log.lock() {
                Ok(g) => g,
                Err(p) => p.into_inner(),
            };
            log.push(format!("{{\"e\":\"panic\",\"m\":{}}}", jstr(&t)));
            l.done = true;
        }
    }
}

fn drive(l: &mut Live) {
    while !l.done {
        if l.flag.take() {
            step(l);
        } else {
            let w = l.parked.lock().unwrap().take();
            match w {
                Some(w) => {
                    w.wake();
                    if !Flag::is_set(&l.flag) {
                        // woken, but not the waker of this task
                        l.log.lock().unwrap().push("{\"e\":\"stuck\"}".into());
                        l.done = true;
                    }
                }
                None => {
                    l.log.lock().unwrap().push("{\"e\":\"stuck\"}".into());
                    l.done = true;
                }
            }
        }
    }
}

fn events(log: &Log) -> Vec<String> {
    match log.lock() {
        Ok(g) => g.clone(),
        Err(p) => p.into_inner().clone(),
    }
}

/// The log without what depends on the cut: reads, flushes; chunks of output and body joined.
fn project(ev: &[String]) -> String {
    let mut r: Vec<String> = Vec::new();
    for e in ev {
        if e.starts_with("{\"e\":\"rx\"")
            || e == "{\"e\":\"pend\"}"
            || e == "{\"e\":\"flush\"}"
            || e == "{\"e\":\"eof\"}"
            || e == "{\"e\":\"again\"}"
        {
            continue;
        }
        let join = ["{\"e\":\"out\",\"b\":[", "{\"e\":\"body\",\"b\":["]
            .iter()
            .find(|p| e.starts_with(**p));
        if let Some(p) = join {
            if e.len() == p.len() + 2 {
                continue; // empty chunk
            }
            if let Some(last) = r.last_mut() {
                if last.starts_with(p) {
                    last.truncate(last.len() - 2);
                    last.push(',');
                    last.push_str(&e[p.len()..]);
                    continue;
                }
            }
        }
        r.push(e.clone());
    }
    format!("[{}]", r.join(","))
}

fn jitems(items: &[Item]) -> String {
    let v: Vec<String> = items
        .iter()
        .map(|i| match i {
            Item::Pkt(b) => format!("h{}", hex(b)),
            Item::Pause => "p".into(),
            Item::SelfWake => "w".into(),
        })
        .collect();
    format!("\"{}\"", v.join(","))
}

fn emit_trace(s: &Scenario, items: &[Item], ev: &[String]) {
    emit(&format!(
        "{{\"id\":\"{}\",\"in\":{},\"cfg\":{},\"ev\":[{}]}}",
        s.id,
        jitems(items),
        cfg_json(&s.rep),
        ev.join(",")
    ));
}

fn begin(s: &Scenario, items: &[Item]) {
    case_begin(format!(
        "{{\"id\":\"{}\",\"in\":{},\"cfg\":{},\"ev\":[{{\"e\":\"hang\"}}]}}",
        s.id,
        jitems(items),
        cfg_json(&s.rep)
    ));
}

fn run_alone(s: &Scenario) {
    let mut logs: BTreeMap<String, (usize, String)> = BTreeMap::new();
    for c in &s.cuts {
        for items in cuts(c, &s.items) {
            begin(s, &items);
            LIMIT.store(20000 + 8 * bytes_of(&items).len(), Ordering::Relaxed);
            let mut l = start(s, items.clone());
            drive(&mut l);
            let ev = events(&l.log);
            // a session that panicked may be in any state: do not run its destructors
            if ev.last().map(|e| e.starts_with("{\"e\":\"panic")).unwrap_or(false) {
                std::mem::forget(l);
            }
            case_end();
            if s.full {
                emit_trace(s, &items, &ev);
            } else {
                let e = logs.entry(project(&ev)).or_insert((0, jitems(&items)));
                e.0 += 1;
            }
        }
    }
    if !s.full {
        for (log, (n, items)) in logs {
            emit(&format!(
                "{{\"id\":\"{}\",\"n\":{},\"in\":{},\"log\":{}}}",
                s.id, n, items, log
            ));
        }
    }
}

/// Several sessions at once, scheduled at random: what each of them did.
fn run_together(ss: &[Scenario], seed: u64) {
    let mut rng = Rng(seed);
    begin(&ss[0], &ss[0].items);
    let mut live: Vec<Live> = ss.iter().map(|s| start(s, s.items.clone())).collect();
    loop {
        let open: Vec<usize> = (0..live.len()).filter(|i| !live[*i].done).collect();
        if open.is_empty() {
            break;
        }
        let i = open[rng.below(open.len())];
        let l = &mut live[i];
        if l.flag.take() {
            step(l);
        } else {
            let w = l.parked.lock().unwrap().take();
            match w {
                Some(w) => w.wake(),
                None => {
                    l.log.lock().unwrap().push("{\"e\":\"stuck\"}".into());
                    l.done = true;
                }
            }
        }
    }
    for (s, l) in ss.iter().zip(live.into_iter()) {
        emit_trace(s, &s.items, &events(&l.log));
        std::mem::forget(l);
    }
    case_end();
}

fn run_consecutive(ss: &[Scenario]) {
    begin(&ss[0], &ss[0].items);
    let v: Vec<_> = ss.iter().map(|s| (s.clone(), s.items.clone())).collect();
    let (mut l, logs) = start_consecutive(&v);
    drive(&mut l);
    case_end();
    for (s, log) in ss.iter().zip(logs.iter()) {
        emit_trace(s, &s.items, &events(log));
    }
    std::mem::forget(l);
}

/// One operating system thread per session.
fn run_threads(ss: &[Scenario]) {
    begin(&ss[0], &ss[0].items);
    let barrier = Arc::new(std::sync::Barrier::new(ss.len()));
    let hs: Vec<_> = ss
        .iter()
        .cloned()
        .map(|s| {
            let b = barrier.clone();
            std::thread::spawn(move || {
                b.wait();
                let mut l = start(&s, s.items.clone());
                drive(&mut l);
                let ev = events(&l.log);
                std::mem::forget(l);
                ev
            })
        })
        .collect();
    for (s, h) in ss.iter().zip(hs.into_iter()) {
        let ev = h.join().unwrap_or_else(|_| vec!["{\"e\":\"panic\",\"m\":\"thread\"}".into()]);
        emit_trace(s, &s.items, &ev);
    }
    case_end();
}

fn main() {
    quiet_panics();
    limit_memory(3);
    watchdog(20);
    let stdin = std::io::stdin();
    let mut group: Vec<Scenario> = Vec::new();
    for line in stdin.lock().lines() {
        let line = line.unwrap();
        let line = line.trim();
        if line.is_empty() {
            continue;
        }
        // "+" lines collect a group; "together <seed>", "after", "threads" run it
        if let Some(rest) = line.strip_prefix("+ ") {
            group.push(parse_scenario(rest));
        } else if let Some(seed) = line.strip_prefix("together ") {
            run_together(&group, seed.parse().unwrap());
            group.clear();
        } else if line == "after" {
            run_consecutive(&group);
            group.clear();
        } else if line == "threads" {
            run_threads(&group);
            group.clear();
        } else {
            run_alone(&parse_scenario(line));
        }
    }
    emit("{\"eof\":true}");
}

