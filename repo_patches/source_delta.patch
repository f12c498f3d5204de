From d5f7ccb531b3a4923cfb3b1959aabd56f396b1f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:03 +0000
Subject: [PATCH 1/8] fix: send a reply line even when the reply text is empty

A reply whose text was empty (eg. a Refusal with an empty msg) had no chunk, so
nothing at all was sent and the client waited for its reply forever.
---
 smtp-server/src/sendreply.rs | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/smtp-server/src/sendreply.rs b/smtp-server/src/sendreply.rs
index 6d8ac5c..6cb03fc 100644
--- a/smtp-server/src/sendreply.rs
+++ b/smtp-server/src/sendreply.rs
@@ -15,8 +15,15 @@ pub async fn send_reply<W>(
 where
     W: Sink<ReplyLine>,
 {
-    let replies = text
-        .byte_chunks(ReplyLine::MAX_LEN)
+    // An empty text has no chunk, but its reply must still have one (empty) line
+    let empty_line = if text.byte_len() == 0 {
+        Some(text.clone())
+    } else {
+        None
+    };
+    let replies = empty_line
+        .into_iter()
+        .chain(text.byte_chunks(ReplyLine::MAX_LEN))
         .with_position()
         .map(move |t| {
             use itertools::Position::*;
-- 
2.43.0


From 784aa6af4977ce4341545da454caeff1d3e7a82e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:03 +0000
Subject: [PATCH 2/8] fix: do not poll the incoming stream again after its end

When the client disconnected in the middle of a mail, the DataStream got the end
of the stream and next_crlf_line then polled the stream once more, which panics
with streams that are not fused (eg. stream::unfold).
---
 smtp-server/src/interact.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/smtp-server/src/interact.rs b/smtp-server/src/interact.rs
index 5e16a05..49bd923 100644
--- a/smtp-server/src/interact.rs
+++ b/smtp-server/src/interact.rs
@@ -44,7 +44,8 @@ where
     fn randomtest<Writer: Sink<Bytes>, S: Sink<ReplyLine, Error = Writer::Error>>(_: &S) {}
     randomtest::<Writer, _>(&writer);
     let mut writer = unsafe { Pin::new_unchecked(&mut writer) };
-    let mut reader = Prependable::new(incoming);
+    // Fused, because the stream is polled again after its end when it ends inside a mail
+    let mut reader = Prependable::new(incoming.fuse());
 
     send_reply(writer.as_mut(), cfg.welcome_banner()).await?;
     // TODO: (C) optimize by trying parsing directly and not buffering until crlf
-- 
2.43.0


From 14208e6f171d0eacfb867c07348269cd01ccb744 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:03 +0000
Subject: [PATCH 3/8] fix: reject reply codes that are not three digits

u16::from_str accepts a leading plus sign, so "+25 text" was parsed as a reply
with code 25.
---
 smtp-message/src/reply.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/smtp-message/src/reply.rs b/smtp-message/src/reply.rs
index 4e2d71a..b732177 100644
--- a/smtp-message/src/reply.rs
+++ b/smtp-message/src/reply.rs
@@ -130,7 +130,10 @@ named!(pub reply(ByteSlice) -> ReplyLine, do_parse!(
     code: map!(
         verify!(
             map_res!(
-                map_res!(take!(3), ByteSlice::into_utf8),
+                map_res!(
+                    verify!(take!(3), |x: ByteSlice| x.iter().all(|c| c.is_ascii_digit())),
+                    ByteSlice::into_utf8
+                ),
                 |utf8| u16::from_str(utf8)
             ),
             |x: u16| x < 1000
-- 
2.43.0


From 5a3d18c515b6e0c7bd7b2a501eb135ce4a66946b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:03 +0000
Subject: [PATCH 4/8] fix: export FoundInflightMail

It bounds a type parameter of the public Storage trait, which thus could not be
implemented (nor run called) outside of the crate.
---
 smtp-queue/src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/smtp-queue/src/lib.rs b/smtp-queue/src/lib.rs
index 1641032..c301c1c 100644
--- a/smtp-queue/src/lib.rs
+++ b/smtp-queue/src/lib.rs
@@ -8,7 +8,7 @@ mod send_queued_mail;
 mod storage;
 mod transport;
 
-pub use mail::{InflightMail, Mail, QueuedMail};
+pub use mail::{FoundInflightMail, InflightMail, Mail, QueuedMail};
 pub use run::run;
 pub use storage::Storage;
 pub use transport::Transport;
-- 
2.43.0


From a07bcea97d4664fbfdd7939e3f980003163cb9c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:03 +0000
Subject: [PATCH 5/8] fix: wait for an hour from when an in-flight mail was
 found

The delay was counted from startup, so when listing the queue or the in-flight
mails takes time, a mail that this very run moved to inflight meanwhile was put
back in the queue, and thus sent twice, less than an hour after its sending had
started.
---
 smtp-queue/src/run.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/smtp-queue/src/run.rs b/smtp-queue/src/run.rs
index 2277a6c..d02223f 100644
--- a/smtp-queue/src/run.rs
+++ b/smtp-queue/src/run.rs
@@ -21,7 +21,6 @@ where
     Stor: Storage<M, QM, IM, FIM>,
     Transp: Transport<M>,
 {
-    let startup = Instant::now();
     let storage_copy = storage.clone();
     let transport_copy = transport.clone();
     storage
@@ -42,7 +41,7 @@ where
                 let storage_copy2 = storage.clone();
                 let transport_copy = transport.clone();
                 tokio::spawn(
-                    Delay::new(startup.clone() + Duration::from_secs(3600))
+                    Delay::new(Instant::now() + Duration::from_secs(3600))
                         .map_err(|_| ())
                         .and_then(move |()| storage_copy.cancel_found_inflight(fim))
                         .and_then(move |qm| send_queued_mail(storage_copy2, transport_copy, qm)),
-- 
2.43.0


From 1a86c46fb5bf5031c01a56386429a888faad204a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:14 +0000
Subject: [PATCH 6/8] fix: reject greeting lines with blanks after the line
 ending

---
 smtp-message/src/ehlo/mod.rs | 9 +++++----
 smtp-message/src/helo/mod.rs | 9 +++++----
 2 files changed, 10 insertions(+), 8 deletions(-)

diff --git a/smtp-message/src/ehlo/mod.rs b/smtp-message/src/ehlo/mod.rs
index 1231a6b..3d732aa 100644
--- a/smtp-message/src/ehlo/mod.rs
+++ b/smtp-message/src/ehlo/mod.rs
@@ -30,14 +30,15 @@ impl EhloCommand {
 }
 
 named!(pub command_ehlo_args(ByteSlice) -> EhloCommand,
-    sep!(eat_spaces, do_parse!(
-        tag_no_case!("EHLO") >>
-        domain: hostname >>
+    do_parse!(
+        eat_spaces >>
+        tag_no_case!("EHLO") >> eat_spaces >>
+        domain: hostname >> eat_spaces >>
         tag!("\r\n") >>
         (EhloCommand {
             domain: domain.into(),
         })
-    ))
+    )
 );
 
 #[cfg(test)]
diff --git a/smtp-message/src/helo/mod.rs b/smtp-message/src/helo/mod.rs
index 4cc2af5..6a7b835 100644
--- a/smtp-message/src/helo/mod.rs
+++ b/smtp-message/src/helo/mod.rs
@@ -30,14 +30,15 @@ impl HeloCommand {
 }
 
 named!(pub command_helo_args(ByteSlice) -> HeloCommand,
-    sep!(eat_spaces, do_parse!(
-        tag_no_case!("HELO") >>
-        domain: hostname >>
+    do_parse!(
+        eat_spaces >>
+        tag_no_case!("HELO") >> eat_spaces >>
+        domain: hostname >> eat_spaces >>
         tag!("\r\n") >>
         (HeloCommand {
             domain: domain.into(),
         })
-    ))
+    )
 );
 
 #[cfg(test)]
-- 
2.43.0


From a9c593c02ee596e7b4f10bceceba7883fe08c196 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:46:46 +0000
Subject: [PATCH 7/8] fix: do not cut a ByteSlice beyond its own end

The end of the range was compared with the end of the view in the underlying
buffer, so that a view not starting at the buffer's start could be cut into
one exposing bytes behind it.
---
 smtp-message/src/byteslice.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/smtp-message/src/byteslice.rs b/smtp-message/src/byteslice.rs
index c19971c..894e301 100644
--- a/smtp-message/src/byteslice.rs
+++ b/smtp-message/src/byteslice.rs
@@ -60,7 +60,7 @@ impl<'a> PartialEq for ByteSlice<'a> {
 
 impl<'a> Slice<Range<usize>> for ByteSlice<'a> {
     fn slice(&self, range: Range<usize>) -> Self {
-        assert!(range.start <= range.end && range.end <= self.end);
+        assert!(range.start <= range.end && range.end <= self.len());
         ByteSlice {
             buf: self.buf,
             start: self.start + range.start,
-- 
2.43.0


From 0435122c2333416c26b8f3e2b8ae6bdbdd243692 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:02:13 +0000
Subject: [PATCH 8/8] fix: keep telling the end of a mail body once it was
 reached

A DataStream polled again after its end because the connection was cut
off read from the connection again, and one polled after completion went
on to give the commands that follow the mail as if they were its body.
---
 smtp-message/src/data/stream.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/smtp-message/src/data/stream.rs b/smtp-message/src/data/stream.rs
index c495436..4173bc9 100644
--- a/smtp-message/src/data/stream.rs
+++ b/smtp-message/src/data/stream.rs
@@ -95,8 +95,9 @@ where
         use self::DataStreamState::*;
         use Poll::*;
         // First, handle the case when we're done
-        if self.state == Finished {
-            return Ready(None);
+        match self.state {
+            Finished | EarlyFin | Completed => return Ready(None),
+            Running | CrPassed | CrLfPassed => (),
         }
         loop {
             // Figure out what to send from the current buf
-- 
2.43.0

