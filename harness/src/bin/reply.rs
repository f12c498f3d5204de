//! Reply lines: parsing, building and writing them, and whole replies sent by the server.
//!
//! Input lines:
//!   l id=N in=HEX,...                         parse
//!   enum id=N toks=HEX,... len=L pre=HEX suf=HEX   parse pre + every L tokens + suf
//!   b id=N code=C last=0|1 text=HEX,...       build
//!   names id=N text=HEX                       every named code: number, line built, refusal sent
//!   custom id=N from=A to=B text=HEX           codes made from numbers
//!   defaults id=N text=HEX                    every default reply for a host name
//!   s id=N code=C via=banner|refuse|okay pend=K fp=K text=HEX,...   send as a reply of the server
use std::{
    io::BufRead,
    panic::{catch_unwind, AssertUnwindSafe},
    pin::Pin,
    sync::{Arc, Mutex},
    task::{Context, Poll},
};

use bytes::{Bytes, BytesMut};
use futures::{executor::block_on, prelude::*};
use smtp_message::{DataStream, Email, IsLastLine, ReplyCode, ReplyLine, SmtpString};
use smtp_server::{interact, Config, ConnectionMetadata, Decision, MailMetadata, Refusal};
use vharness::*;

/// k, what it is written as, the length it states.
fn written(r: &ReplyLine) -> (&'static str, Vec<u8>, usize) {
    let mut w = Vec::new();
    if r.send_to(&mut w).is_err() {
        w = b"(error)".to_vec();
    }
    ("ok", w, r.byte_len())
}

fn parse(b: &[u8]) -> (&'static str, Vec<u8>, usize) {
    let b = b.to_vec();
    catch_unwind(|| match ReplyLine::parse(Bytes::from(b)) {
        Err(_) => ("err", vec![], 0),
        Ok(r) => written(&r),
    })
    .unwrap_or(("panic", vec![], 0))
}

fn build(code: u16, last: bool, text: &[u8]) -> (&'static str, Vec<u8>, usize) {
    catch_unwind(|| {
        let l = if last { IsLastLine::Yes } else { IsLastLine::No };
        match ReplyLine::build(ReplyCode::custom(code), l, SmtpString::from(text)) {
            Err(_) => ("err", vec![], 0),
            Ok(r) => written(&r),
        }
    })
    .unwrap_or(("panic", vec![], 0))
}

fn print(id: &str, head: String, r: (&'static str, Vec<u8>, usize)) {
    let r2 = if r.0 == "ok" { parse(&r.1) } else { ("err", vec![], 0) };
    emit(&format!(
        "{{\"id\":\"{}\",{},\"k\":\"{}\",\"w\":{},\"n\":{},\"k2\":\"{}\",\"w2\":{},\"n2\":{}}}",
        id,
        head,
        r.0,
        jb(&r.1),
        r.2,
        r2.0,
        jb(&r2.1),
        r2.2
    ));
}

fn line(id: &str, b: &[u8]) {
    print(id, format!("\"t\":\"l\",\"in\":{}", jb(b)), parse(b));
}

struct Writer {
    pend: usize,
    left: usize,
    out: Arc<Mutex<Vec<u8>>>,
    /// bytes sent but not flushed
    open: Arc<Mutex<bool>>,
}
impl Writer {
    fn pause(&mut self, cx: &mut Context) -> bool {
        if self.left > 0 {
            self.left -= 1;
            cx.waker().wake_by_ref();
            true
        } else {
            self.left = self.pend;
            false
        }
    }
}
impl Sink<Bytes> for Writer {
    type Error = ();
    fn poll_ready(mut self: Pin<&mut Self>, cx: &mut Context) -> Poll<Result<(), ()>> {
        if self.pause(cx) {
            return Poll::Pending;
        }
        Poll::Ready(Ok(()))
    }
    fn start_send(self: Pin<&mut Self>, item: Bytes) -> Result<(), ()> {
        self.out.lock().unwrap().extend_from_slice(&item);
        *self.open.lock().unwrap() = true;
        Ok(())
    }
    fn poll_flush(mut self: Pin<&mut Self>, cx: &mut Context) -> Poll<Result<(), ()>> {
        if self.pause(cx) {
            return Poll::Pending;
        }
        *self.open.lock().unwrap() = false;
        Poll::Ready(Ok(()))
    }
    fn poll_close(self: Pin<&mut Self>, cx: &mut Context) -> Poll<Result<(), ()>> {
        self.poll_flush(cx)
    }
}

struct Cfg {
    via: String,
    code: ReplyCode,
    text: SmtpString,
}
impl Cfg {
    fn verdict(&self) -> Decision {
        Decision::Reject(Refusal {
            code: self.code,
            msg: self.text.clone(),
        })
    }
}
impl Config<()> for Cfg {
    fn hostname(&self) -> SmtpString {
        SmtpString::from_static(b"h")
    }
    fn welcome_banner(&self) -> (ReplyCode, SmtpString) {
        if self.via == "banner" {
            (self.code, self.text.clone())
        } else {
            (ReplyCode::SERVICE_READY, SmtpString::from_static(b"x"))
        }
    }
    fn mail_okay(&self) -> (ReplyCode, SmtpString) {
        (self.code, self.text.clone())
    }
    fn filter_from<'a>(
        &'a mut self,
        _: &'a mut Option<Email>,
        _: &'a mut ConnectionMetadata<()>,
    ) -> Pin<Box<dyn 'a + Send + Future<Output = Decision>>> {
        let d = if self.via == "refuse" {
            self.verdict()
        } else {
            Decision::Accept
        };
        Box::pin(async move { d })
    }
    fn filter_to<'a>(
        &'a mut self,
        _: &'a mut Email,
        _: &'a mut MailMetadata,
        _: &'a mut ConnectionMetadata<()>,
    ) -> Pin<Box<dyn 'a + Send + Future<Output = Decision>>> {
        Box::pin(async move { Decision::Accept })
    }
    fn handle_mail<'a, S>(
        &'a mut self,
        _: &'a mut DataStream<S>,
        _: MailMetadata,
        _: &'a mut ConnectionMetadata<()>,
    ) -> Pin<Box<dyn 'a + Future<Output = Decision>>>
    where
        S: 'a + Unpin + Stream<Item = BytesMut>,
    {
        Box::pin(async move { Decision::Accept })
    }
}

/// The outcome, all bytes sent but for the greeting, and whether something was left unflushed.
fn session(via: &str, code: impl Fn() -> ReplyCode, text: &[u8], pend: usize) -> (&'static str, Vec<u8>, bool) {
    let out = Arc::new(Mutex::new(Vec::new()));
    let open = Arc::new(Mutex::new(false));
    let r = catch_unwind(AssertUnwindSafe(|| {
        let mut cfg = Cfg {
            via: via.into(),
            code: code(),
            text: SmtpString::from(text),
        };
        let input: Vec<BytesMut> = if via == "banner" {
            vec![]
        } else {
            vec![BytesMut::from(&b"MAIL FROM:<a>\r\n"[..])]
        };
        let mut w = Box::pin(Writer {
            pend,
            left: pend,
            out: out.clone(),
            open: open.clone(),
        });
        block_on(interact(stream::iter(input), w.as_mut(), (), &mut cfg))
    }));
    let k = match r {
        Ok(Ok(_)) => "ok",
        Ok(Err(_)) => "err",
        Err(_) => "panic",
    };
    let mut out = out.lock().unwrap_or_else(|p| p.into_inner()).clone();
    if via != "banner" {
        let banner = b"220 x\r\n";
        if out.starts_with(banner) {
            out = out[banner.len()..].to_vec();
        }
    }
    let open = *open.lock().unwrap_or_else(|p| p.into_inner());
    (k, out, open)
}

macro_rules! names {
    ($($n:ident)*) => { vec![$((stringify!($n), ReplyCode::$n)),*] };
}

fn names(id: &str, text: &[u8]) {
    let all = names!(SYSTEM_STATUS HELP_MESSAGE SERVICE_READY CLOSING_CHANNEL OKAY USER_NOT_LOCAL_WILL_FORWARD
        CANNOT_VRFY_BUT_PLEASE_TRY START_MAIL_INPUT SERVICE_NOT_AVAILABLE MAILBOX_TEMPORARILY_UNAVAILABLE LOCAL_ERROR
        INSUFFICIENT_STORAGE UNABLE_TO_ACCEPT_PARAMETERS COMMAND_UNRECOGNIZED SYNTAX_ERROR COMMAND_UNIMPLEMENTED
        BAD_SEQUENCE PARAMETER_UNIMPLEMENTED MAILBOX_UNAVAILABLE POLICY_REASON USER_NOT_LOCAL EXCEEDED_STORAGE
        MAILBOX_NAME_INCORRECT TRANSACTION_FAILED MAIL_OR_RCPT_PARAMETER_UNIMPLEMENTED);
    for (name, c) in all {
        let (k, sent, _) = session("refuse", || c, text, 0);
        let w = match ReplyLine::build(c, IsLastLine::Yes, SmtpString::from(text)) {
            Ok(r) => written(&r).1,
            Err(_) => vec![],
        };
        emit(&format!(
            "{{\"id\":\"{}\",\"t\":\"n\",\"name\":\"{}\",\"code\":{},\"text\":{},\"k\":\"{}\",\"w\":{},\"sent\":{}}}",
            id,
            name,
            c.code(),
            jb(text),
            k,
            jb(&w),
            jb(&sent)
        ));
    }
}

/// A configuration that leaves all it can to the defaults.
struct Plain(SmtpString);
impl Config<()> for Plain {
    fn hostname(&self) -> SmtpString {
        self.0.clone()
    }
    fn filter_from<'a>(
        &'a mut self,
        _: &'a mut Option<Email>,
        _: &'a mut ConnectionMetadata<()>,
    ) -> Pin<Box<dyn 'a + Send + Future<Output = Decision>>> {
        Box::pin(async move { Decision::Accept })
    }
    fn filter_to<'a>(
        &'a mut self,
        _: &'a mut Email,
        _: &'a mut MailMetadata,
        _: &'a mut ConnectionMetadata<()>,
    ) -> Pin<Box<dyn 'a + Send + Future<Output = Decision>>> {
        Box::pin(async move { Decision::Accept })
    }
    fn handle_mail<'a, S>(
        &'a mut self,
        _: &'a mut DataStream<S>,
        _: MailMetadata,
        _: &'a mut ConnectionMetadata<()>,
    ) -> Pin<Box<dyn 'a + Future<Output = Decision>>>
    where
        S: 'a + Unpin + Stream<Item = BytesMut>,
    {
        Box::pin(async move { Decision::Accept })
    }
}

fn defaults(id: &str, host: &[u8]) {
    let c = Plain(SmtpString::from(host));
    for (name, (code, text)) in vec![
        ("greet", c.welcome_banner()),
        ("okay", c.okay()),
        ("mailok", c.mail_okay()),
        ("rcptok", c.rcpt_okay()),
        ("dataok", c.data_okay()),
        ("accepted", c.mail_accepted()),
        ("badseq", c.bad_sequence()),
        ("inmail", c.already_in_mail()),
        ("rcptbm", c.rcpt_before_mail()),
        ("databr", c.data_before_rcpt()),
        ("databm", c.data_before_mail()),
        ("unimpl", c.command_unimplemented()),
        ("unrec", c.command_unrecognized()),
    ] {
        emit(&format!(
            "{{\"id\":\"{}\",\"t\":\"d\",\"name\":\"{}\",\"code\":{},\"text\":{},\"host\":{},\"k\":\"ok\"}}",
            id,
            name,
            code.code(),
            jb(&text.iter_bytes().cloned().collect::<Vec<u8>>()),
            jb(host)
        ));
    }
}

fn custom(id: &str, code: u16, text: &[u8]) {
    let got = catch_unwind(|| ReplyCode::custom(code).code());
    let (k, w, _) = build(code, true, text);
    emit(&format!(
        "{{\"id\":\"{}\",\"t\":\"u\",\"code\":{},\"got\":{},\"text\":{},\"k\":\"{}\",\"w\":{}}}",
        id,
        code,
        got.as_ref().map(|x| *x as i64).unwrap_or(-1),
        jb(text),
        if k == "ok" || got.is_ok() { "ok" } else { k },
        jb(&w)
    ));
}

fn send(id: &str, via: &str, code: u16, text: &[u8], pend: usize) {
    let (k, out, open) = session(via, || ReplyCode::custom(code), text, pend);
    emit(&format!(
        "{{\"id\":\"{}\",\"t\":\"s\",\"via\":\"{}\",\"code\":{},\"text\":{},\"k\":\"{}\",\"w\":{},\"open\":{}}}",
        id,
        via,
        code,
        jb(text),
        k,
        jb(&out),
        open
    ));
}

fn main() {
    quiet_panics();
    limit_memory(3);
    watchdog(20);
    let stdin = std::io::stdin();
    for l in stdin.lock().lines() {
        let l = l.unwrap();
        if l.is_empty() {
            continue;
        }
        let sp = l.find(' ').unwrap();
        let (kind, rest) = (&l[..sp], &l[sp + 1..]);
        let f = fields(rest);
        let id = get(&f, "id").unwrap();
        let num = |k: &str| get(&f, k).unwrap_or("0").parse::<usize>().unwrap();
        let list = |k: &str| get(&f, k).unwrap().split(',').map(unhex).collect::<Vec<_>>();
        case_begin(format!("{{\"id\":\"{}\",\"hang\":true}}", id));
        match kind {
            "l" => list("in").iter().for_each(|b| line(id, b)),
            "b" => list("text").iter().for_each(|t| {
                let (code, last) = (num("code"), num("last") == 1);
                print(
                    id,
                    format!("\"t\":\"b\",\"code\":{},\"last\":{},\"text\":{}", code, last, jb(t)),
                    build(code as u16, last, t),
                )
            }),
            "s" => list("text").iter().for_each(|t| {
                send(id, get(&f, "via").unwrap(), num("code") as u16, t, num("pend"))
            }),
            "names" => list("text").iter().for_each(|t| names(id, t)),
            "defaults" => list("text").iter().for_each(|t| defaults(id, t)),
            "custom" => {
                (num("from")..=num("to")).for_each(|c| custom(id, c as u16, &unhex(get(&f, "text").unwrap())))
            }
            "enum" => {
                let (pre, suf, toks) = (list("pre").concat(), list("suf").concat(), list("toks"));
                let len = num("len") as u32;
                for k in 0..toks.len().pow(len) {
                    let mut b = pre.clone();
                    let mut x = k;
                    for _ in 0..len {
                        b.extend_from_slice(&toks[x % toks.len()]);
                        x /= toks.len();
                    }
                    b.extend_from_slice(&suf);
                    line(id, &b);
                }
            }
            x => panic!("unknown kind {}", x),
        }
        case_end();
    }
    emit("{\"eof\":true}");
}
