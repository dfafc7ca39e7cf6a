From 0dfc3fd2ad982933211367eca1f4c90811e31544 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:56 +0000
Subject: [PATCH 01/22] fix: listener: refuse to disown a connection that is
 already closed

Disown after Close (by the owner, or by CloseIdle/Drain) released the
connection's reference a second time and panicked with a negative
WaitGroup counter.
---
 graceful/listener/conn.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/graceful/listener/conn.go b/graceful/listener/conn.go
index 7b34b47..71a66ce 100644
--- a/graceful/listener/conn.go
+++ b/graceful/listener/conn.go
@@ -141,6 +141,8 @@ func (c *conn) disown() error {
 
 	if c.disowned {
 		return errAlreadyDisowned
+	} else if c.closed {
+		return errClosing
 	}
 
 	c.shard.disown(c)
-- 
2.43.0


From a39c67077b5dbd92d9871845fe084c4dbe868526 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:23 +0000
Subject: [PATCH 02/22] fix: listener: DrainAll no longer closes a connection
 disowned meanwhile

DrainAll snapshots the tracked connections and then calls Close on each of
them; a connection disowned in between took the disowned branch of Close and
had its underlying connection closed under its new owner.
---
 graceful/listener/conn.go  | 15 +++++++++++++++
 graceful/listener/shard.go |  2 +-
 2 files changed, 16 insertions(+), 1 deletion(-)

diff --git a/graceful/listener/conn.go b/graceful/listener/conn.go
index 71a66ce..bf55dbf 100644
--- a/graceful/listener/conn.go
+++ b/graceful/listener/conn.go
@@ -133,6 +133,21 @@ func (c *conn) closeIfIdle() error {
 	return nil
 }
 
+// closeIfOwned is like Close, except that it leaves disowned connections alone.
+func (c *conn) closeIfOwned() error {
+	c.mu.Lock()
+	defer c.mu.Unlock()
+
+	if !c.closed && !c.disowned {
+		c.closed = true
+		c.shard.disown(c)
+		defer c.shard.wg.Done()
+		return c.Conn.Close()
+	}
+
+	return nil
+}
+
 var errAlreadyDisowned = errors.New("listener: conn already disowned")
 
 func (c *conn) disown() error {
diff --git a/graceful/listener/shard.go b/graceful/listener/shard.go
index a9addad..56d65d7 100644
--- a/graceful/listener/shard.go
+++ b/graceful/listener/shard.go
@@ -86,7 +86,7 @@ func (s *shard) closeConns(all, drain bool) {
 		// happen. (I also expect that most errors returned in this way
 		// are going to be pretty boring)
 		if all {
-			c.Close()
+			c.closeIfOwned()
 		} else {
 			c.closeIfIdle()
 		}
-- 
2.43.0


From 2a73bbff69bedae5c9be269b7a3d0ea9a46879ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:51 +0000
Subject: [PATCH 03/22] fix: listener: don't count a new connection while Drain
 is waiting

Accept added to the shard's WaitGroup before checking whether the shard was
draining; racing with the last connection's Done this made the Wait in Drain
panic ("WaitGroup is reused before previous Wait has returned").
---
 graceful/listener/conn.go  | 3 +--
 graceful/listener/shard.go | 3 +++
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/graceful/listener/conn.go b/graceful/listener/conn.go
index bf55dbf..ce27f7e 100644
--- a/graceful/listener/conn.go
+++ b/graceful/listener/conn.go
@@ -24,9 +24,8 @@ type conn struct {
 var errClosing = errors.New("use of closed network connection")
 
 func (c *conn) init() error {
-	c.shard.wg.Add(1)
 	if shouldExit := c.shard.track(c); shouldExit {
-		c.Close()
+		c.Conn.Close()
 		return errClosing
 	}
 	return nil
diff --git a/graceful/listener/shard.go b/graceful/listener/shard.go
index 56d65d7..f978262 100644
--- a/graceful/listener/shard.go
+++ b/graceful/listener/shard.go
@@ -30,6 +30,9 @@ func (s *shard) track(c *conn) (shouldClose bool) {
 		s.mu.Unlock()
 		return true
 	}
+	// Counting the connection only while we aren't draining keeps this from
+	// racing with the Wait in Drain.
+	s.wg.Add(1)
 	s.all[c] = struct{}{}
 	s.idle[c] = struct{}{}
 	s.mu.Unlock()
-- 
2.43.0


From 1ced0a3f2b52324be545f266ba22ffddb9aca6c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:13 +0000
Subject: [PATCH 04/22] fix: web: matching a regexp pattern no longer binds URL
 parameters

Match ran with dryrun unset, so the captures of regexp routes that matched the
path but not the method ended up in the URLParams of the route that was
selected (or of the NotFound handler).
---
 web/regexp_pattern.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/web/regexp_pattern.go b/web/regexp_pattern.go
index 95e7e09..7b2a1c5 100644
--- a/web/regexp_pattern.go
+++ b/web/regexp_pattern.go
@@ -19,7 +19,7 @@ func (p regexpPattern) Prefix() string {
 	return p.prefix
 }
 func (p regexpPattern) Match(r *http.Request, c *C) bool {
-	return p.match(r, c, false)
+	return p.match(r, c, true)
 }
 func (p regexpPattern) Run(r *http.Request, c *C) {
 	p.match(r, c, false)
-- 
2.43.0


From 274999561cc4cbb1f7405e2b59c6c2f8f83848a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:49 +0000
Subject: [PATCH 05/22] fix: web: anchor all alternatives of a regexp on the
 left

Only the first top-level alternative of an unanchored regexp was anchored:
"/foo|/bar" also matched "/baz/bar".
---
 web/regexp_pattern.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/web/regexp_pattern.go b/web/regexp_pattern.go
index 7b2a1c5..d2a8fd7 100644
--- a/web/regexp_pattern.go
+++ b/web/regexp_pattern.go
@@ -87,7 +87,12 @@ func sketchOnRegex(re *regexp.Regexp) (*regexp.Regexp, string) {
 	}
 	if p.StartCond()&syntax.EmptyBeginText == 0 {
 		// I hope doing this is always legal...
-		newRe, err := regexp.Compile(`\A` + rawRe)
+		// The group makes sure that we anchor every top-level alternative.
+		newRe, err := regexp.Compile(`\A(?:` + rawRe + `)`)
+		if err != nil {
+			// The expression might end in an unterminated \Q literal.
+			newRe, err = regexp.Compile(`\A(?:` + rawRe + `\E)`)
+		}
 		if err != nil {
 			log.Printf("WARN(web): unable to create a left-"+
 				"anchored regexp from %v. This route might "+
-- 
2.43.0


From 770999ba80af894fce0da1a7d85741bc58f1671c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:23 +0000
Subject: [PATCH 06/22] fix: web: no regexp prefix through U+FFFD

A literal U+FFFD also matches bytes that are not valid UTF-8, which a literal
prefix check rejects.
---
 web/regexp_pattern.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/web/regexp_pattern.go b/web/regexp_pattern.go
index d2a8fd7..0a6dd77 100644
--- a/web/regexp_pattern.go
+++ b/web/regexp_pattern.go
@@ -7,6 +7,7 @@ import (
 	"net/http"
 	"regexp"
 	"regexp/syntax"
+	"unicode/utf8"
 )
 
 type regexpPattern struct {
@@ -124,6 +125,10 @@ Sadness:
 				syntax.Flags(i.Arg)&syntax.FoldCase != 0 {
 				break Sadness
 			}
+			if i.Rune[0] == utf8.RuneError {
+				// This also matches bytes that aren't UTF-8.
+				break Sadness
+			}
 			buf.WriteRune(i.Rune[0])
 		default:
 			break Sadness
-- 
2.43.0


From 6866e96e927df58d1261663098c3234ed18d7b14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:15 +0000
Subject: [PATCH 07/22] fix: web: RawPattern returns the regexp that was
 registered

For regexps that had to be anchored, RawPattern (and the pattern's Raw method)
returned the rewritten regexp instead of the one passed to ParsePattern.
---
 web/match.go          | 2 +-
 web/regexp_pattern.go | 5 ++++-
 2 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/web/match.go b/web/match.go
index 1a44144..2cbcdfa 100644
--- a/web/match.go
+++ b/web/match.go
@@ -42,7 +42,7 @@ func GetMatch(c C) Match {
 func (m Match) RawPattern() PatternType {
 	switch v := m.Pattern.(type) {
 	case regexpPattern:
-		return v.re
+		return v.raw
 	case stringPattern:
 		return v.raw
 	default:
diff --git a/web/regexp_pattern.go b/web/regexp_pattern.go
index 0a6dd77..8727694 100644
--- a/web/regexp_pattern.go
+++ b/web/regexp_pattern.go
@@ -11,6 +11,7 @@ import (
 )
 
 type regexpPattern struct {
+	raw    *regexp.Regexp
 	re     *regexp.Regexp
 	prefix string
 	names  []string
@@ -50,7 +51,7 @@ func (p regexpPattern) String() string {
 }
 
 func (p regexpPattern) Raw() *regexp.Regexp {
-	return p.re
+	return p.raw
 }
 
 /*
@@ -140,6 +141,7 @@ Sadness:
 }
 
 func parseRegexpPattern(re *regexp.Regexp) regexpPattern {
+	raw := re
 	re, prefix := sketchOnRegex(re)
 	rnames := re.SubexpNames()
 	// We have to make our own copy since package regexp forbids us
@@ -152,6 +154,7 @@ func parseRegexpPattern(re *regexp.Regexp) regexpPattern {
 		names[i] = rname
 	}
 	return regexpPattern{
+		raw:    raw,
 		re:     re,
 		prefix: prefix,
 		names:  names,
-- 
2.43.0


From 367b05846ed983f0c27861c5f8ffaa6eeb63fcc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:54 +0000
Subject: [PATCH 08/22] fix: mutil: informational headers are not the response
 status

WriteHeader(103), for instance, was taken for the final status, and the
handler's actual WriteHeader was dropped.
---
 web/mutil/writer_proxy.go       | 7 +++++++
 web/mutil/writer_proxy_go1_8.go | 7 +++++++
 2 files changed, 14 insertions(+)

diff --git a/web/mutil/writer_proxy.go b/web/mutil/writer_proxy.go
index fb4a08b..91f8e85 100644
--- a/web/mutil/writer_proxy.go
+++ b/web/mutil/writer_proxy.go
@@ -58,6 +58,13 @@ type basicWriter struct {
 }
 
 func (b *basicWriter) WriteHeader(code int) {
+	if code >= 100 && code < 200 && code != http.StatusSwitchingProtocols {
+		// Informational headers come before the actual status.
+		if !b.wroteHeader {
+			b.ResponseWriter.WriteHeader(code)
+		}
+		return
+	}
 	if !b.wroteHeader {
 		b.code = code
 		b.wroteHeader = true
diff --git a/web/mutil/writer_proxy_go1_8.go b/web/mutil/writer_proxy_go1_8.go
index 2019c98..42b800e 100644
--- a/web/mutil/writer_proxy_go1_8.go
+++ b/web/mutil/writer_proxy_go1_8.go
@@ -54,6 +54,13 @@ type basicWriter struct {
 }
 
 func (b *basicWriter) WriteHeader(code int) {
+	if code >= 100 && code < 200 && code != http.StatusSwitchingProtocols {
+		// Informational headers come before the actual status.
+		if !b.wroteHeader {
+			b.ResponseWriter.WriteHeader(code)
+		}
+		return
+	}
 	if !b.wroteHeader {
 		b.code = code
 		b.wroteHeader = true
-- 
2.43.0


From 6e3bcd67504abcdcf95bb68ce19e3a3d956d74cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:54 +0000
Subject: [PATCH 09/22] fix: mutil: count the bytes sent by ReadFrom

---
 web/mutil/writer_proxy.go       | 4 +++-
 web/mutil/writer_proxy_go1_8.go | 4 +++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/web/mutil/writer_proxy.go b/web/mutil/writer_proxy.go
index 91f8e85..4acd1aa 100644
--- a/web/mutil/writer_proxy.go
+++ b/web/mutil/writer_proxy.go
@@ -137,7 +137,9 @@ func (f *fancyWriter) ReadFrom(r io.Reader) (int64, error) {
 	}
 	rf := f.basicWriter.ResponseWriter.(io.ReaderFrom)
 	f.basicWriter.maybeWriteHeader()
-	return rf.ReadFrom(r)
+	n, err := rf.ReadFrom(r)
+	f.basicWriter.bytes += int(n)
+	return n, err
 }
 
 type flushWriter struct {
diff --git a/web/mutil/writer_proxy_go1_8.go b/web/mutil/writer_proxy_go1_8.go
index 42b800e..a5bc6b2 100644
--- a/web/mutil/writer_proxy_go1_8.go
+++ b/web/mutil/writer_proxy_go1_8.go
@@ -132,7 +132,9 @@ func (f *fancyWriter) ReadFrom(r io.Reader) (int64, error) {
 	}
 	rf := f.basicWriter.ResponseWriter.(io.ReaderFrom)
 	f.basicWriter.maybeWriteHeader()
-	return rf.ReadFrom(r)
+	n, err := rf.ReadFrom(r)
+	f.basicWriter.bytes += int(n)
+	return n, err
 }
 
 var (
-- 
2.43.0


From dc78a73b4f1f4db6c3953b13dba96d22769a2a3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:54 +0000
Subject: [PATCH 10/22] fix: mutil: flushing sends the header

Status kept reporting 0 after a Flush had sent a 200, and a later WriteHeader
was recorded although the client never saw it.
---
 web/mutil/writer_proxy.go       | 2 ++
 web/mutil/writer_proxy_go1_8.go | 1 +
 2 files changed, 3 insertions(+)

diff --git a/web/mutil/writer_proxy.go b/web/mutil/writer_proxy.go
index 4acd1aa..1cd5633 100644
--- a/web/mutil/writer_proxy.go
+++ b/web/mutil/writer_proxy.go
@@ -123,6 +123,7 @@ func (f *fancyWriter) CloseNotify() <-chan bool {
 
 func (f *fancyWriter) Flush() {
 	fl := f.basicWriter.ResponseWriter.(http.Flusher)
+	f.basicWriter.maybeWriteHeader()
 	fl.Flush()
 }
 
@@ -148,6 +149,7 @@ type flushWriter struct {
 
 func (f *flushWriter) Flush() {
 	fl := f.basicWriter.ResponseWriter.(http.Flusher)
+	f.basicWriter.maybeWriteHeader()
 	fl.Flush()
 }
 
diff --git a/web/mutil/writer_proxy_go1_8.go b/web/mutil/writer_proxy_go1_8.go
index a5bc6b2..e552c21 100644
--- a/web/mutil/writer_proxy_go1_8.go
+++ b/web/mutil/writer_proxy_go1_8.go
@@ -118,6 +118,7 @@ func (f *fancyWriter) Push(target string, opts *http.PushOptions) error {
 
 func (f *fancyWriter) Flush() {
 	fl := f.basicWriter.ResponseWriter.(http.Flusher)
+	f.basicWriter.maybeWriteHeader()
 	fl.Flush()
 }
 
-- 
2.43.0


From 93f755ef43cee71bf7948e3d66ef2a6a37b61bf9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:54 +0000
Subject: [PATCH 11/22] fix: mutil: Push on an HTTP/1 connection no longer
 panics

The proxy of a writer that isn't a Pusher advertises Push; have it return
ErrNotSupported like package net/http does.
---
 web/mutil/writer_proxy_go1_8.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/web/mutil/writer_proxy_go1_8.go b/web/mutil/writer_proxy_go1_8.go
index e552c21..84713d5 100644
--- a/web/mutil/writer_proxy_go1_8.go
+++ b/web/mutil/writer_proxy_go1_8.go
@@ -113,7 +113,10 @@ type fancyWriter struct {
 }
 
 func (f *fancyWriter) Push(target string, opts *http.PushOptions) error {
-	return f.basicWriter.ResponseWriter.(http.Pusher).Push(target, opts)
+	if p, ok := f.basicWriter.ResponseWriter.(http.Pusher); ok {
+		return p.Push(target, opts)
+	}
+	return http.ErrNotSupported
 }
 
 func (f *fancyWriter) Flush() {
-- 
2.43.0


From 21aa2a68318302f5d146eb4322021b0e237eba25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:54 +0000
Subject: [PATCH 12/22] fix: mutil: keep Flush and Push of HTTP/2 response
 writers

Since the introduction of the Go 1.8 proxy, wrapping a writer that can't be
hijacked lost its Flush method.
---
 web/mutil/writer_proxy_go1_8.go | 24 ++++++++++++++++++++++++
 1 file changed, 24 insertions(+)

diff --git a/web/mutil/writer_proxy_go1_8.go b/web/mutil/writer_proxy_go1_8.go
index 84713d5..8e3d7e9 100644
--- a/web/mutil/writer_proxy_go1_8.go
+++ b/web/mutil/writer_proxy_go1_8.go
@@ -40,6 +40,9 @@ func WrapWriter(w http.ResponseWriter) WriterProxy {
 	if fl && hj && rf {
 		return &fancyWriter{bw}
 	}
+	if fl {
+		return &flushWriter{bw}
+	}
 	return &bw
 }
 
@@ -141,9 +144,30 @@ func (f *fancyWriter) ReadFrom(r io.Reader) (int64, error) {
 	return n, err
 }
 
+// flushWriter is a writer that additionally satisfies http.Flusher and
+// http.Pusher, such as the http.ResponseWriter of HTTP/2 requests.
+type flushWriter struct {
+	basicWriter
+}
+
+func (f *flushWriter) Push(target string, opts *http.PushOptions) error {
+	if p, ok := f.basicWriter.ResponseWriter.(http.Pusher); ok {
+		return p.Push(target, opts)
+	}
+	return http.ErrNotSupported
+}
+
+func (f *flushWriter) Flush() {
+	fl := f.basicWriter.ResponseWriter.(http.Flusher)
+	f.basicWriter.maybeWriteHeader()
+	fl.Flush()
+}
+
 var (
 	_ http.Pusher   = &fancyWriter{}
 	_ http.Flusher  = &fancyWriter{}
 	_ http.Hijacker = &fancyWriter{}
 	_ io.ReaderFrom = &fancyWriter{}
+	_ http.Pusher   = &flushWriter{}
+	_ http.Flusher  = &flushWriter{}
 )
-- 
2.43.0


From 51989d7504c2495e287afebcf6bedbeb3bac18c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:06 +0000
Subject: [PATCH 13/22] fix: middleware: NoCache's Expires date is in UTC
 whatever the local time zone

---
 web/middleware/nocache.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/web/middleware/nocache.go b/web/middleware/nocache.go
index ae3d260..754d463 100644
--- a/web/middleware/nocache.go
+++ b/web/middleware/nocache.go
@@ -6,7 +6,7 @@ import (
 )
 
 // Unix epoch time
-var epoch = time.Unix(0, 0).Format(time.RFC1123)
+var epoch = time.Unix(0, 0).UTC().Format(time.RFC1123)
 
 // Taken from https://github.com/mytrile/nocache
 var noCacheHeaders = map[string]string{
-- 
2.43.0


From e654e8d12cd16987f6f87f27a35f3559e292ba95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:10 +0000
Subject: [PATCH 14/22] fix: graceful: a connection refused while draining
 doesn't fail Serve

---
 graceful/graceful.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/graceful/graceful.go b/graceful/graceful.go
index 19490e0..47772b7 100644
--- a/graceful/graceful.go
+++ b/graceful/graceful.go
@@ -61,5 +61,10 @@ func peacefulError(err error) error {
 			}
 		}
 	}
+	// A connection that was accepted just before the shutdown, and refused by
+	// our own listener because it is draining.
+	if err != nil && err.Error() == errClosing {
+		return nil
+	}
 	return err
 }
-- 
2.43.0


From 6cf15cbbfac7ea6c5958f797e57098c91dd61d37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:10 +0000
Subject: [PATCH 15/22] fix: graceful: shut down listeners that are added
 during a shutdown

---
 graceful/graceful.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/graceful/graceful.go b/graceful/graceful.go
index 47772b7..e7144a7 100644
--- a/graceful/graceful.go
+++ b/graceful/graceful.go
@@ -35,6 +35,12 @@ func appendListener(l *listener.T) {
 	defer mu.Unlock()
 
 	listeners = append(listeners, l)
+
+	// If the shutdown has already begun it might not see this listener.
+	if atomic.LoadInt32(&closing) != 0 {
+		l.Close()
+		go l.Drain()
+	}
 }
 
 const errClosing = "use of closed network connection"
-- 
2.43.0


From 18429dd10442672639af308685cc9f4b6c7f09f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:55 +0000
Subject: [PATCH 16/22] fix: graceful: keep all fields of the TLS configuration

cloneTLSConfig copied the fields that tls.Config had in Go 1.6, and so
silently dropped later ones such as VerifyConnection, VerifyPeerCertificate
and GetConfigForClient.
---
 graceful/clone16.go |  2 +-
 graceful/clone18.go | 14 ++++++++++++++
 2 files changed, 15 insertions(+), 1 deletion(-)
 create mode 100644 graceful/clone18.go

diff --git a/graceful/clone16.go b/graceful/clone16.go
index 810b3a2..18fbbbc 100644
--- a/graceful/clone16.go
+++ b/graceful/clone16.go
@@ -1,4 +1,4 @@
-// +build go1.6
+// +build go1.6,!go1.8
 
 package graceful
 
diff --git a/graceful/clone18.go b/graceful/clone18.go
new file mode 100644
index 0000000..5e71da8
--- /dev/null
+++ b/graceful/clone18.go
@@ -0,0 +1,14 @@
+// +build go1.8
+
+package graceful
+
+import "crypto/tls"
+
+// cloneTLSConfig copies all of the configuration, including the fields that
+// were added to tls.Config since clone16.go was written.
+func cloneTLSConfig(cfg *tls.Config) *tls.Config {
+	if cfg == nil {
+		return &tls.Config{}
+	}
+	return cfg.Clone()
+}
-- 
2.43.0


From 1638e04762af53a34e15b4815eee86996936f50d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:24:36 +0000
Subject: [PATCH 17/22] fix: bind: a negative descriptor is an error, not a
 panic

---
 bind/bind.go    | 3 +++
 bind/einhorn.go | 4 ++++
 2 files changed, 7 insertions(+)

diff --git a/bind/bind.go b/bind/bind.go
index 43d11dd..b40e575 100644
--- a/bind/bind.go
+++ b/bind/bind.go
@@ -108,6 +108,9 @@ func listenTo(bind string) (net.Listener, error) {
 				bind, err)
 		}
 		f := os.NewFile(uintptr(fd), bind)
+		if f == nil {
+			return nil, fmt.Errorf("invalid file descriptor %v", bind)
+		}
 		defer f.Close()
 		return net.FileListener(f)
 	} else if strings.HasPrefix(bind, "einhorn@") {
diff --git a/bind/einhorn.go b/bind/einhorn.go
index e695c0e..a80c8a0 100644
--- a/bind/einhorn.go
+++ b/bind/einhorn.go
@@ -3,6 +3,7 @@
 package bind
 
 import (
+	"errors"
 	"fmt"
 	"log"
 	"net"
@@ -65,6 +66,9 @@ func einhornBind(n int) (net.Listener, error) {
 
 	fno := einhornFdMap(n)
 	f := os.NewFile(uintptr(fno), fmt.Sprintf("einhorn@%d", n))
+	if f == nil {
+		return nil, errors.New(einhornErr)
+	}
 	defer f.Close()
 	return net.FileListener(f)
 }
-- 
2.43.0


From c51fa560e93deef3834a9192465dda352e1b630d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:53:43 +0000
Subject: [PATCH 18/22] fix: graceful: handlers see the TLS state of
 connections

net/http can do the handshake and fill in Request.TLS only if the methods of
the TLS connection are visible through the listener's wrapper.
---
 graceful/listener/listener.go |  8 +++----
 graceful/listener/notls.go    | 16 ++++++++++++++
 graceful/listener/tls.go      | 40 +++++++++++++++++++++++++++++++++++
 3 files changed, 60 insertions(+), 4 deletions(-)
 create mode 100644 graceful/listener/notls.go
 create mode 100644 graceful/listener/tls.go

diff --git a/graceful/listener/listener.go b/graceful/listener/listener.go
index 6c9c477..1976812 100644
--- a/graceful/listener/listener.go
+++ b/graceful/listener/listener.go
@@ -88,7 +88,7 @@ func (t *T) Accept() (net.Conn, error) {
 	if err = wc.init(); err != nil {
 		return nil, err
 	}
-	return wc, nil
+	return expose(wc), nil
 }
 
 // Addr returns the wrapped listener's network address.
@@ -149,7 +149,7 @@ var errNotManaged = errors.New("listener: passed net.Conn is not managed by this
 // passed connection must have been returned by a call to Accept from this
 // listener.
 func Disown(c net.Conn) error {
-	if cn, ok := c.(*conn); ok {
+	if cn, ok := managed(c); ok {
 		return cn.disown()
 	}
 	return errNotManaged
@@ -159,7 +159,7 @@ func Disown(c net.Conn) error {
 // closing at any time. The passed connection must have been returned by a call
 // to Accept from this listener.
 func MarkIdle(c net.Conn) error {
-	if cn, ok := c.(*conn); ok {
+	if cn, ok := managed(c); ok {
 		cn.markIdle()
 		return nil
 	}
@@ -170,7 +170,7 @@ func MarkIdle(c net.Conn) error {
 // connections which are eligible for closing. The passed connection must have
 // been returned by a call to Accept from this listener.
 func MarkInUse(c net.Conn) error {
-	if cn, ok := c.(*conn); ok {
+	if cn, ok := managed(c); ok {
 		cn.markInUse()
 		return nil
 	}
diff --git a/graceful/listener/notls.go b/graceful/listener/notls.go
new file mode 100644
index 0000000..b6fcd46
--- /dev/null
+++ b/graceful/listener/notls.go
@@ -0,0 +1,16 @@
+//go:build !go1.17
+// +build !go1.17
+
+package listener
+
+import "net"
+
+// see tls.go
+func expose(c *conn) net.Conn {
+	return c
+}
+
+func managed(c net.Conn) (*conn, bool) {
+	cn, ok := c.(*conn)
+	return cn, ok
+}
diff --git a/graceful/listener/tls.go b/graceful/listener/tls.go
new file mode 100644
index 0000000..bc14721
--- /dev/null
+++ b/graceful/listener/tls.go
@@ -0,0 +1,40 @@
+//go:build go1.17
+// +build go1.17
+
+package listener
+
+import (
+	"context"
+	"crypto/tls"
+	"net"
+)
+
+// These are the methods of a TLS connection that net/http needs in order to do
+// the handshake and to fill in the TLS field of requests.
+type tlsMethods interface {
+	ConnectionState() tls.ConnectionState
+	HandshakeContext(ctx context.Context) error
+}
+
+// A managed connection on top of a TLS connection.
+type tlsConn struct {
+	*conn
+	tlsMethods
+}
+
+// expose returns the net.Conn that is handed out for a managed connection.
+func expose(c *conn) net.Conn {
+	if t, ok := c.Conn.(tlsMethods); ok {
+		return &tlsConn{c, t}
+	}
+	return c
+}
+
+// managed is the inverse of expose.
+func managed(c net.Conn) (*conn, bool) {
+	if t, ok := c.(*tlsConn); ok {
+		return t.conn, true
+	}
+	cn, ok := c.(*conn)
+	return cn, ok
+}
-- 
2.43.0


From 075a3397b88d48736a1f280fd234b4ec3c4f20bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:53:43 +0000
Subject: [PATCH 19/22] fix: graceful: ListenAndServeTLS works without
 certificate files

As with net/http, the files are optional if TLSConfig has certificates.
---
 graceful/clone.go   |  6 ++++++
 graceful/clone16.go |  6 ++++++
 graceful/clone18.go |  6 ++++++
 graceful/server.go  | 12 +++++++-----
 4 files changed, 25 insertions(+), 5 deletions(-)

diff --git a/graceful/clone.go b/graceful/clone.go
index a9027e5..effb8ed 100644
--- a/graceful/clone.go
+++ b/graceful/clone.go
@@ -9,3 +9,9 @@ func cloneTLSConfig(cfg *tls.Config) *tls.Config {
 	c := *cfg
 	return &c
 }
+
+// hasCertificate reports whether the configuration is usable without a
+// certificate from a file.
+func hasCertificate(cfg *tls.Config) bool {
+	return len(cfg.Certificates) > 0 || cfg.GetCertificate != nil
+}
diff --git a/graceful/clone16.go b/graceful/clone16.go
index 18fbbbc..4f2843f 100644
--- a/graceful/clone16.go
+++ b/graceful/clone16.go
@@ -32,3 +32,9 @@ func cloneTLSConfig(cfg *tls.Config) *tls.Config {
 		CurvePreferences:         cfg.CurvePreferences,
 	}
 }
+
+// hasCertificate reports whether the configuration is usable without a
+// certificate from a file.
+func hasCertificate(cfg *tls.Config) bool {
+	return len(cfg.Certificates) > 0 || cfg.GetCertificate != nil
+}
diff --git a/graceful/clone18.go b/graceful/clone18.go
index 5e71da8..b825ba0 100644
--- a/graceful/clone18.go
+++ b/graceful/clone18.go
@@ -12,3 +12,9 @@ func cloneTLSConfig(cfg *tls.Config) *tls.Config {
 	}
 	return cfg.Clone()
 }
+
+// hasCertificate reports whether the configuration is usable without a
+// certificate from a file.
+func hasCertificate(cfg *tls.Config) bool {
+	return len(cfg.Certificates) > 0 || cfg.GetCertificate != nil || cfg.GetConfigForClient != nil
+}
diff --git a/graceful/server.go b/graceful/server.go
index ae9a5fb..e6b5a2f 100644
--- a/graceful/server.go
+++ b/graceful/server.go
@@ -64,11 +64,13 @@ func (srv *Server) ListenAndServeTLS(certFile, keyFile string) error {
 		config.NextProtos = []string{"http/1.1"}
 	}
 
-	var err error
-	config.Certificates = make([]tls.Certificate, 1)
-	config.Certificates[0], err = tls.LoadX509KeyPair(certFile, keyFile)
-	if err != nil {
-		return err
+	if !hasCertificate(config) || certFile != "" || keyFile != "" {
+		var err error
+		config.Certificates = make([]tls.Certificate, 1)
+		config.Certificates[0], err = tls.LoadX509KeyPair(certFile, keyFile)
+		if err != nil {
+			return err
+		}
 	}
 
 	ln, err := net.Listen("tcp", addr)
-- 
2.43.0


From 3f2359df70b60c13a0987780fc3080fff05f7998 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:04:39 +0000
Subject: [PATCH 20/22] fix: middleware: AutomaticOptions answers after
 informational headers

---
 web/middleware/options.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/web/middleware/options.go b/web/middleware/options.go
index 4bdce5f..c8fdcaf 100644
--- a/web/middleware/options.go
+++ b/web/middleware/options.go
@@ -40,6 +40,11 @@ func (p *autoOptionsProxy) Write(buf []byte) (int, error) {
 }
 
 func (p *autoOptionsProxy) WriteHeader(code int) {
+	if code >= 100 && code < 200 && code != http.StatusSwitchingProtocols {
+		// Informational headers come before the actual status.
+		p.w.WriteHeader(code)
+		return
+	}
 	methods := getValidMethods(*p.c)
 	switch p.state {
 	case aosInit:
-- 
2.43.0


From f20872ec6d4cc870383bb868516c64b4984dbba0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:04:39 +0000
Subject: [PATCH 21/22] fix: middleware: NoCache removes headers whose first
 value is empty

---
 web/middleware/nocache.go | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/web/middleware/nocache.go b/web/middleware/nocache.go
index 754d463..f392673 100644
--- a/web/middleware/nocache.go
+++ b/web/middleware/nocache.go
@@ -38,9 +38,7 @@ func NoCache(h http.Handler) http.Handler {
 
 		// Delete any ETag headers that may have been set
 		for _, v := range etagHeaders {
-			if r.Header.Get(v) != "" {
-				r.Header.Del(v)
-			}
+			r.Header.Del(v)
 		}
 
 		// Set our NoCache headers
-- 
2.43.0


From 8098f4ab76fb179728bbb94f42a16eb743c56f0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:49:32 +0000
Subject: [PATCH 22/22] fix: listener: don't track closed or disowned
 connections as idle

---
 graceful/listener/conn.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/graceful/listener/conn.go b/graceful/listener/conn.go
index ce27f7e..0f639b7 100644
--- a/graceful/listener/conn.go
+++ b/graceful/listener/conn.go
@@ -94,7 +94,9 @@ func (c *conn) markIdle() {
 	c.mu.Lock()
 	defer c.mu.Unlock()
 
-	if !c.busy {
+	// Connections that aren't tracked anymore must not end up in the shard's
+	// set of idle connections, which nobody would remove them from.
+	if !c.busy || c.closed || c.disowned {
 		return
 	}
 	c.busy = false
-- 
2.43.0

