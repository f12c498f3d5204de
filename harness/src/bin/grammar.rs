//! Runs the real parsers and writers over given or enumerated inputs and prints the results.
//!
//! Input lines:
//!   c id=N in=HEX[,HEX...]     command lines
//!   e id=N in=HEX[,...]        addresses
//!   b id=N of=VERB;NUL;LO;HOST;K[:V]/...;TEXT[,...]   commands built from their parts
//!   n id=N in=HEX[,...]        all parsers, reporting only panics
//!   enum id=N t=c|e pre=HEX toks=HEX,HEX,... len=L suf=HEX first=I
//!                              pre + every sequence of L tokens (the first one given) + suf
use std::{collections::BTreeSet, io::BufRead, net::IpAddr, panic::catch_unwind};

use bytes::Bytes;
use smtp_message::*;
use vharness::*;

struct Res {
    k: &'static str,
    nul: bool,
    lo: Vec<u8>,
    can: Vec<u8>,
    hk: &'static str,
    h: Vec<u32>,
    ps: Vec<(Vec<u8>, Vec<u8>)>,
    s: Vec<u8>,
}

fn res(k: &'static str) -> Res {
    Res {
        k,
        nul: false,
        lo: vec![],
        can: vec![],
        hk: "none",
        h: vec![],
        ps: vec![],
        s: vec![],
    }
}

fn ju(v: &[u32]) -> String {
    format!("[{}]", v.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(","))
}

impl Res {
    fn json(&self) -> String {
        format!(
            "{{\"k\":\"{}\",\"nul\":{},\"lo\":{},\"can\":{},\"hk\":\"{}\",\"h\":{},\"ps\":[{}],\"s\":{}}}",
            self.k,
            self.nul,
            jb(&self.lo),
            jb(&self.can),
            self.hk,
            ju(&self.h),
            self.ps
                .iter()
                .map(|p| format!("[{},{}]", jb(&p.0), jb(&p.1)))
                .collect::<Vec<_>>()
                .join(","),
            jb(&self.s)
        )
    }

    /// The host: an address as the library prints it for debugging if that can be read, so that
    /// the kind of address does not depend on how it is written out; else from its text form.
    fn domain<D: std::fmt::Debug + Sendable>(&mut self, d: &D) {
        let s = format!("{:?}", d);
        if s.starts_with("Addr(") && s.ends_with(')') {
            if let Ok(a) = s[5..s.len() - 1].trim().parse::<IpAddr>() {
                return self.ip(a);
            }
        }
        self.host(&SmtpString::from_sendable(d).unwrap().bytes()[..])
    }

    fn ip(&mut self, a: IpAddr) {
        match a {
            IpAddr::V4(a) => {
                self.hk = "v4";
                self.h = a.octets().iter().map(|x| *x as u32).collect();
            }
            IpAddr::V6(a) => {
                self.hk = "v6";
                self.h = a.segments().iter().map(|x| *x as u32).collect();
            }
        }
    }

    fn host(&mut self, b: &[u8]) {
        if b.first() == Some(&b'[') {
            let s = String::from_utf8_lossy(&b[1..b.len().max(2) - 1]).to_string();
            let s = if s.starts_with("IPv6:") { s[5..].to_string() } else { s };
            match s.parse::<IpAddr>() {
                Ok(a) => self.ip(a),
                Err(_) => {
                    self.hk = "unreadable";
                    self.h = b.iter().map(|x| *x as u32).collect();
                }
            }
        } else {
            self.hk = "host";
            self.h = b.iter().map(|x| *x as u32).collect();
        }
    }

    fn email(&mut self, e: &Email) {
        self.lo = e.raw_localpart().bytes().to_vec();
        self.can = e.localpart().bytes().to_vec();
        if let Some(ref h) = e.hostname() {
            self.domain(h);
        }
    }
}

fn params<'a, I: Iterator<Item = (&'a SmtpString, &'a Option<SmtpString>)>>(i: I) -> Vec<(Vec<u8>, Vec<u8>)> {
    let mut v: Vec<_> = i
        .map(|(k, v)| {
            let val = match v {
                None => vec![],
                // an empty value must not look like no value
                Some(x) if x.byte_len() == 0 => vec![61],
                Some(x) => x.bytes().to_vec(),
            };
            (k.bytes().to_vec(), val)
        })
        .collect();
    v.sort();
    v
}

fn describe(c: &Command) -> Res {
    let mut r;
    match c {
        Command::Data(_) => res("data"),
        Command::Quit(_) => res("quit"),
        Command::Rset(_) => res("rset"),
        Command::Ehlo(c) => {
            r = res("ehlo");
            r.domain(c.domain());
            r
        }
        Command::Helo(c) => {
            r = res("helo");
            r.domain(c.domain());
            r
        }
        Command::Expn(c) => {
            r = res("expn");
            r.s = c.name().bytes().to_vec();
            r
        }
        Command::Vrfy(c) => {
            r = res("vrfy");
            r.s = c.name().bytes().to_vec();
            r
        }
        Command::Help(c) => {
            r = res("help");
            r.s = c.subject().bytes().to_vec();
            r
        }
        Command::Noop(c) => {
            r = res("noop");
            r.s = c.string().bytes().to_vec();
            r
        }
        Command::Mail(c) => {
            r = res("mail");
            match c.from {
                None => r.nul = true,
                Some(ref e) => r.email(e),
            }
            r.ps = params(c.params.0.iter());
            r
        }
        Command::Rcpt(c) => {
            r = res("rcpt");
            r.email(&c.to);
            r.ps = params(c.params.0.iter());
            r
        }
    }
}

/// Whether two commands are the same, as the library compares values.
fn same_command(a: &Command, b: &Command) -> bool {
    match (a, b) {
        (Command::Data(_), Command::Data(_)) | (Command::Quit(_), Command::Quit(_)) | (Command::Rset(_), Command::Rset(_)) => true,
        (Command::Ehlo(a), Command::Ehlo(b)) => a.domain() == b.domain(),
        (Command::Helo(a), Command::Helo(b)) => a.domain() == b.domain(),
        (Command::Expn(a), Command::Expn(b)) => a.name() == b.name(),
        (Command::Vrfy(a), Command::Vrfy(b)) => a.name() == b.name(),
        (Command::Help(a), Command::Help(b)) => a.subject() == b.subject(),
        (Command::Noop(a), Command::Noop(b)) => a.string() == b.string(),
        (Command::Mail(a), Command::Mail(b)) => a.from == b.from && a.params.0 == b.params.0,
        (Command::Rcpt(a), Command::Rcpt(b)) => a.to == b.to && a.params.0 == b.params.0,
        _ => false,
    }
}

/// What the library says when it compares what it read with what it reads of what it wrote.
fn same(t: &str, b: &[u8], w: &[u8]) -> bool {
    let (b, w) = (b.to_vec(), w.to_vec());
    let t = t == "c";
    catch_unwind(|| {
        if t {
            match (Command::parse(Bytes::from(b)), Command::parse(Bytes::from(w))) {
                (Ok(x), Ok(y)) => same_command(&x, &y),
                _ => false,
            }
        } else {
            match (Email::parse_slice(&b), Email::parse_slice(&w)) {
                (Ok(x), Ok(y)) => x == y,
                _ => false,
            }
        }
    })
    .unwrap_or(false)
}

/// Result and, if accepted, the bytes it is written as.
fn command(b: &[u8]) -> (Res, Vec<u8>) {
    let b = b.to_vec();
    catch_unwind(|| match Command::parse(Bytes::from(b)) {
        Err(_) => (res("err"), vec![]),
        Ok(c) => {
            let mut w = Vec::new();
            let ok = c.send_to(&mut w).is_ok();
            if !ok {
                w = b"(error)".to_vec();
            }
            (describe(&c), w)
        }
    })
    .unwrap_or_else(|_| (res("panic"), vec![]))
}

fn address(b: &[u8]) -> (Res, Vec<u8>) {
    let b = b.to_vec();
    catch_unwind(|| {
        let whole = Bytes::from(&b[..]);
        let other = Email::parse(ByteSlice::from(&whole));
        let e = Email::parse_slice(&b);
        match e {
            Err(_) => (res(if other.is_ok() { "disagree" } else { "err" }), vec![]),
            Ok(e) => {
                let mut r = res("email");
                r.email(&e);
                if other.ok().as_ref() != Some(&e) {
                    r.k = "disagree";
                }
                let w = SmtpString::from_sendable(&e).unwrap().bytes().to_vec();
                (r, w)
            }
        }
    })
    .unwrap_or_else(|_| (res("panic"), vec![]))
}

fn run(id: &str, t: &str, b: &[u8]) {
    let f = if t == "c" { command } else { address };
    let (r, w) = f(b);
    if r.k == "err" || r.k == "panic" {
        emit(&format!(
            "{{\"id\":\"{}\",\"t\":\"{}\",\"in\":{},\"r\":{}}}",
            id,
            t,
            jb(b),
            r.json()
        ));
        return;
    }
    let (r2, w2) = f(&w);
    let (r3, _) = f(&w2);
    emit(&format!(
        "{{\"id\":\"{}\",\"t\":\"{}\",\"in\":{},\"r\":{},\"w\":{},\"r2\":{},\"w2\":{},\"r3\":{},\"eq\":{}}}",
        id,
        t,
        jb(b),
        r.json(),
        jb(&w),
        r2.json(),
        jb(&w2),
        r3.json(),
        same(t, b, &w)
    ));
}

/// A command built from its parts.
fn build(v: &str, nul: bool, lo: &[u8], host: &[u8], ps: &[(Vec<u8>, Option<Vec<u8>>)], s: &[u8]) -> Command {
    let domain = |h: &[u8]| {
        let mut b = b"x@".to_vec();
        b.extend_from_slice(h);
        Email::parse_slice(&b).expect("host given does not parse").hostname().clone()
    };
    let email = || {
        let h = if host.is_empty() { None } else { domain(host) };
        Email::new(SmtpString::from(lo), h)
    };
    // the parameters have no public constructor: those of a parsed command, changed
    let params = || {
        let mut p = match Command::parse(Bytes::from(&b"MAIL FROM:<> old=1\r\n"[..])) {
            Ok(Command::Mail(c)) => c.params,
            _ => panic!("cannot read a plain command"),
        };
        p.0.clear();
        for (k, v) in ps {
            p.0.insert(SmtpString::from(&k[..]), v.as_ref().map(|v| SmtpString::from(&v[..])));
        }
        p
    };
    let text = SmtpString::from(s);
    match v {
        "data" => Command::Data(DataCommand::new().take_ownership()),
        "quit" => Command::Quit(QuitCommand::new().take_ownership()),
        "rset" => Command::Rset(RsetCommand::new().take_ownership()),
        "ehlo" => Command::Ehlo(EhloCommand::new(domain(host).unwrap())),
        "helo" => Command::Helo(HeloCommand::new(domain(host).unwrap())),
        "help" => Command::Help(HelpCommand::new(text)),
        "noop" => Command::Noop(NoopCommand::new(text)),
        "expn" => Command::Expn(ExpnCommand::new(text)),
        "vrfy" => Command::Vrfy(VrfyCommand::new(text)),
        "mail" => Command::Mail(MailCommand::new(if nul { None } else { Some(email()) }, params())),
        "rcpt" => Command::Rcpt(RcptCommand::new(email(), params())),
        _ => panic!("bad verb"),
    }
}

fn run_build(id: &str, spec: &str) {
    // verb;nul;lo;host;key[:value]/...;text
    let f: Vec<&str> = spec.split(';').collect();
    let (nul, lo, host, s) = (f[1] == "1", unhex(f[2]), unhex(f[3]), unhex(f[5]));
    let ps: Vec<(Vec<u8>, Option<Vec<u8>>)> = f[4]
        .split('/')
        .filter(|x| !x.is_empty())
        .map(|x| {
            let mut i = x.split(':');
            (unhex(i.next().unwrap()), i.next().map(unhex))
        })
        .collect();
    let got = catch_unwind(|| {
        let c = build(f[0], nul, &lo, &host, &ps, &s);
        let mut w = Vec::new();
        if c.send_to(&mut w).is_err() {
            w = b"(error)".to_vec();
        }
        let eq = match Command::parse(Bytes::from(&w[..])) {
            Ok(d) => same_command(&c, &d),
            Err(_) => false,
        };
        (describe(&c), w, eq)
    });
    let (r, w, eq) = got.unwrap_or_else(|_| (res("panic"), vec![], false));
    let (r2, w2) = command(&w);
    let (r3, _) = command(&w2);
    emit(&format!(
        "{{\"id\":\"{}\",\"t\":\"b\",\"in\":{},\"v\":\"{}\",\"nul\":{},\"lo\":{},\"host\":{},\"ps\":[{}],\"s\":{},\"r\":{},\"w\":{},\"r2\":{},\"w2\":{},\"r3\":{},\"eq\":{}}}",
        id,
        jb(spec.as_bytes()),
        f[0],
        nul,
        jb(&lo),
        jb(&host),
        ps.iter()
            .map(|(k, v)| format!("[{},{}]", jb(k), jb(v.as_ref().map(|v| &v[..]).unwrap_or(b""))))
            .collect::<Vec<_>>()
            .join(","),
        jb(&s),
        r.json(),
        jb(&w),
        r2.json(),
        jb(&w2),
        r3.json(),
        eq
    ));
}

fn reply(b: &[u8]) -> &'static str {
    let b = b.to_vec();
    catch_unwind(|| match ReplyLine::parse(Bytes::from(b)) {
        Err(_) => "err",
        Ok(r) => {
            let mut w = Vec::new();
            let _ = r.send_to(&mut w);
            "ok"
        }
    })
    .unwrap_or("panic")
}

fn panics(b: &[u8]) -> Option<&'static str> {
    if command(b).0.k == "panic" {
        return Some("command");
    }
    if address(b).0.k == "panic" {
        return Some("address");
    }
    if reply(b) == "panic" {
        return Some("reply");
    }
    None
}

fn main() {
    quiet_panics();
    limit_memory(3);
    watchdog(20);
    let stdin = std::io::stdin();
    for line in stdin.lock().lines() {
        let line = line.unwrap();
        if line.is_empty() {
            continue;
        }
        let sp = line.find(' ').unwrap();
        let (kind, rest) = (&line[..sp], &line[sp + 1..]);
        let f = fields(rest);
        let id = get(&f, "id").unwrap();
        case_begin(format!("{{\"id\":\"{}\",\"hang\":true}}", id));
        match kind {
            "enum" => {
                let t = get(&f, "t").unwrap();
                let pre = unhex(get(&f, "pre").unwrap_or(""));
                let suf = unhex(get(&f, "suf").unwrap_or(""));
                let toks: Vec<Vec<u8>> = get(&f, "toks").unwrap().split(',').map(unhex).collect();
                let len: usize = get(&f, "len").unwrap().parse().unwrap();
                let first: Option<usize> = get(&f, "first").map(|x| x.parse().unwrap());
                let mut seen = BTreeSet::new();
                let mut idx = vec![0usize; len];
                if let (Some(i), true) = (first, len > 0) {
                    idx[0] = i;
                }
                loop {
                    let mut b = pre.clone();
                    for i in &idx {
                        b.extend_from_slice(&toks[*i]);
                    }
                    b.extend_from_slice(&suf);
                    if seen.insert(b.clone()) {
                        case_end();
                        case_begin(format!(
                            "{{\"id\":\"{}\",\"hang\":true,\"in\":{}}}",
                            id,
                            jb(&b)
                        ));
                        run(id, t, &b);
                    }
                    let mut p = len;
                    let stop = if first.is_some() { 1 } else { 0 };
                    loop {
                        if p <= stop {
                            p = 0;
                            break;
                        }
                        p -= 1;
                        idx[p] += 1;
                        if idx[p] < toks.len() {
                            p = 1;
                            break;
                        }
                        idx[p] = 0;
                    }
                    if p == 0 {
                        break;
                    }
                }
            }
            "b" => get(&f, "of").unwrap().split(',').for_each(|x| run_build(id, x)),
            "n" => {
                let mut n = 0;
                for h in get(&f, "in").unwrap().split(',') {
                    let b = unhex(h);
                    n += 1;
                    if let Some(w) = panics(&b) {
                        emit(&format!(
                            "{{\"id\":\"{}\",\"panic\":\"{}\",\"in\":{}}}",
                            id,
                            w,
                            jb(&b)
                        ));
                    }
                }
                emit(&format!("{{\"id\":\"{}\",\"n\":{}}}", id, n));
            }
            _ => {
                for h in get(&f, "in").unwrap().split(',') {
                    let b = unhex(h);
                    run(id, kind, &b);
                }
            }
        }
        case_end();
    }
    emit("{\"eof\":true}");
}
