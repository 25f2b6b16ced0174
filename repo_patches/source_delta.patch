From 5f8138c2231f69ee1122d06d0b308b671bc93f24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:53 +0000
Subject: [PATCH 01/14] fix: accept port 0 in sock_resolve, so that "-b [IP
 address]" works

sock_addr_ensure_port() adds ":0" to an IP address without a port, which
sock_resolve() then refused: the documented "-b [IP address]" could not be
used.
---
 libcperciva/util/sock.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libcperciva/util/sock.c b/libcperciva/util/sock.c
index f86aea2..5b24c2c 100644
--- a/libcperciva/util/sock.c
+++ b/libcperciva/util/sock.c
@@ -280,7 +280,7 @@ sock_resolve(const char * addr)
 	ips[strlen(ips) - 1] = '\0';
 
 	/* Parse the port number in base 10, no trailing characters. */
-	if (PARSENUM_EX(&p, ports, 1, 65535, 10, 0)) {
+	if (PARSENUM_EX(&p, ports, 0, 65535, 10, 0)) {
 		warn0("Invalid port number: %s", ports);
 		goto err1;
 	}
-- 
2.43.0


From 63f1f0485cbb933f60f9aad755427d28ff9c5461 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:31 +0000
Subject: [PATCH 02/14] fix: don't shut down a dispatcher which was never
 started

If dropping privileges or starting the dispatcher failed, spiped crashed
(NULL pointer dereference in dispatch_shutdown) rather than exiting with
status 1.
---
 spiped/main.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/spiped/main.c b/spiped/main.c
index 60110b2..cc6ff42 100644
--- a/spiped/main.c
+++ b/spiped/main.c
@@ -343,7 +343,7 @@ main(int argc, char * argv[])
 	/* Drop privileges (if applicable). */
 	if (opt_u && setuidgid(opt_u, SETUIDGID_SGROUP_LEAVE_WARN)) {
 		warnp("Failed to drop privileges");
-		goto err7;
+		goto err6;
 	}
 
 	/* Start accepting connections. */
@@ -351,7 +351,7 @@ main(int argc, char * argv[])
 	    sas_t, sa_b, opt_d, opt_f, opt_g, opt_j, K, opt_n, opt_o,
 	    &conndone)) == NULL) {
 		warnp("Failed to initialize connection acceptor");
-		goto err7;
+		goto err6;
 	}
 
 	/* dispatch is now maintaining sas_t and s. */
-- 
2.43.0


From 77f089e4efc1a8d646dd31e1118b58dfc02bcc52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:57 +0000
Subject: [PATCH 03/14] fix: don't run atexit handlers from a bit-pushing
 thread

exit(3) called by a worker thread (after an error in reading, writing, or
shutting down) ran the atexit handlers, which free timers and memory pools,
while the main thread was still using those.
---
 spipe/pushbits.c | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/spipe/pushbits.c b/spipe/pushbits.c
index 78be162..54df422 100644
--- a/spipe/pushbits.c
+++ b/spipe/pushbits.c
@@ -32,7 +32,7 @@ workthread_cleanup(void * cookie)
 	if (shutdown(P->out, SHUT_WR)) {
 		if (errno != ENOTSOCK) {
 			warnp("Error shutting down socket");
-			exit(1);
+			_exit(1);
 		}
 	}
 
@@ -40,7 +40,10 @@ workthread_cleanup(void * cookie)
 	free(P);
 }
 
-/* Bit-pushing thread. */
+/*
+ * Bit-pushing thread.  This must not call exit(3): Other threads keep running
+ * while the functions registered by atexit(3) free what those are using.
+ */
 static void *
 workthread(void * cookie)
 {
@@ -57,7 +60,7 @@ workthread(void * cookie)
 			if (errno == EINTR)
 				continue;
 			warnp("Error reading");
-			exit(1);
+			_exit(1);
 		}
 
 		/* If we hit EOF, exit the loop. */
@@ -68,7 +71,7 @@ workthread(void * cookie)
 		if (noeintr_write(P->out, &P->buf, (size_t)readlen)
 		    != readlen) {
 			warnp("Error writing");
-			exit(1);
+			_exit(1);
 		}
 	} while (1);
 
-- 
2.43.0


From b9095b4ae4e877e5c26366e0fc859113cda46709 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:30 +0000
Subject: [PATCH 04/14] fix: don't drop spipe's connection twice

If the event loop failed because dropping the connection was part of a failure
(for example, no descriptor left to open /dev/urandom), spipe dropped the
connection, which was already freed, again.
---
 spipe/main.c | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/spipe/main.c b/spipe/main.c
index ba21659..ca4a76b 100644
--- a/spipe/main.c
+++ b/spipe/main.c
@@ -25,6 +25,7 @@
 struct events_threads {
 	pthread_t threads[2];
 	int conndone;
+	int conndied;
 	int connection_error;
 	int stopped;
 };
@@ -34,6 +35,9 @@ callback_conndied(void * cookie, int reason)
 {
 	struct events_threads * ET = cookie;
 
+	/* The connection no longer exists. */
+	ET->conndied = 1;
+
 	/* Check reason. */
 	switch (reason) {
 	case PROTO_CONN_CLOSED:
@@ -229,6 +233,7 @@ main(int argc, char * argv[])
 
 	/* Initialize the "events & threads" cookie. */
 	ET.conndone = 0;
+	ET.conndied = 0;
 	ET.connection_error = 0;
 	ET.stopped = 0;
 
@@ -338,7 +343,8 @@ err6:
 	if ((rc = pthread_join(ET.threads[1], NULL)) != 0)
 		warn0("pthread_join: %s", strerror(rc));
 err5:
-	proto_conn_drop(conn_cookie, PROTO_CONN_CANCELLED);
+	if (!ET.conndied)
+		proto_conn_drop(conn_cookie, PROTO_CONN_CANCELLED);
 err4:
 	if ((s[1] != -1) && close(s[1]))
 		warnp("close");
-- 
2.43.0


From bd0e436ff2bc4103c91e7f811d4a10221966977e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:22 +0000
Subject: [PATCH 05/14] fix: don't join spipe's threads twice

If the connection broke in the same iteration of the event loop in which a
SIGTERM was noticed, threads which had already been joined were cancelled and
joined again (undefined behaviour).
---
 spipe/main.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/spipe/main.c b/spipe/main.c
index ca4a76b..3e439ae 100644
--- a/spipe/main.c
+++ b/spipe/main.c
@@ -56,8 +56,8 @@ callback_conndied(void * cookie, int reason)
 		ET->connection_error = 1;
 	}
 
-	/* Shut it down if there's an error. */
-	if (ET->connection_error)
+	/* Shut it down if there's an error (unless that already happened). */
+	if (ET->connection_error && !ET->stopped)
 		graceful_shutdown_manual();
 
 	/* Quit event loop. */
-- 
2.43.0


From 60fb27b8eecf78889e23066c24c41aac9f017f19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:32 +0000
Subject: [PATCH 06/14] fix: do not let very long timeouts (e.g. "-o inf")
 expire at once

---
 libcperciva/events/events_timer.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/libcperciva/events/events_timer.c b/libcperciva/events/events_timer.c
index e4033bc..95ec3f5 100644
--- a/libcperciva/events/events_timer.c
+++ b/libcperciva/events/events_timer.c
@@ -105,6 +105,14 @@ events_timer_register_double(int (* func)(void *), void * cookie,
 {
 	struct timeval tv;
 
+	/*
+	 * Converting a value which does not fit into a time_t is undefined, as
+	 * is adding a very large time to the present one.  Waiting for 10^9
+	 * seconds is as good as waiting for longer (or for ever).
+	 */
+	if (timeo > 1000000000.0)
+		timeo = 1000000000.0;
+
 	/* Convert timeo to a struct timeval. */
 	tv.tv_sec = (time_t)timeo;
 	tv.tv_usec = (suseconds_t)((timeo - (double)tv.tv_sec) * 1000000.0);
-- 
2.43.0


From 5894fc755a18533f0c763e2ae10838c90002f674 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:53 +0000
Subject: [PATCH 07/14] fix: refuse negative numbers where an unsigned number
 is wanted (e.g. "-n -1")

---
 libcperciva/util/parsenum.h | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/libcperciva/util/parsenum.h b/libcperciva/util/parsenum.h
index d8406c9..ea10711 100644
--- a/libcperciva/util/parsenum.h
+++ b/libcperciva/util/parsenum.h
@@ -7,6 +7,7 @@
 #include <math.h>
 #include <stdio.h>
 #include <stdlib.h>
+#include <string.h>
 
 /* Handle compiler warnings about implicit variable conversion in PARSENUM. */
 #ifdef __clang__
@@ -191,6 +192,10 @@ parsenum_unsigned(const char * s, uintmax_t min, uintmax_t max,
 		errno = EINVAL;
 	else if ((val < min) || (val > max) || (val > typemax))
 		errno = ERANGE;
+	else if ((val != 0) && (memchr(s, '-', (size_t)(eptr - s)) != NULL)) {
+		/* strtoumax() has negated the number; it is below ${min}. */
+		errno = ERANGE;
+	}
 	return (val);
 }
 
-- 
2.43.0


From 280fb95f688d66d5af5ff8fa37dc3d36f4a5c944 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:53 +0000
Subject: [PATCH 08/14] fix: refuse "-r nan", like "-o nan"

---
 spiped/main.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/spiped/main.c b/spiped/main.c
index cc6ff42..65d4da8 100644
--- a/spiped/main.c
+++ b/spiped/main.c
@@ -238,6 +238,8 @@ main(int argc, char * argv[])
 		usage();
 	if (!(opt_o > 0.0))
 		usage();
+	if (!(opt_r > 0.0))
+		usage();
 	if ((opt_r != 60.0) && opt_R)
 		usage();
 	if ((opt_s == NULL) || sock_addr_validate(opt_s))
-- 
2.43.0


From 665b551882538115875bd174db50bfc3150a5401 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:12 +0000
Subject: [PATCH 09/14] fix: look for leftover supplementary groups after
 changing the group

setuidgid() checked before calling setgid(), so if setgroups() was refused
and our only supplementary group was our old group, no warning was printed.
---
 libcperciva/util/setuidgid.c | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/libcperciva/util/setuidgid.c b/libcperciva/util/setuidgid.c
index 25b0b28..be8addf 100644
--- a/libcperciva/util/setuidgid.c
+++ b/libcperciva/util/setuidgid.c
@@ -244,8 +244,18 @@ setuidgid(const char * user_group_string, int leave_suppgrp)
 			if (leave_suppgrp == SETUIDGID_SGROUP_LEAVE_ERROR)
 				goto err1;
 		}
+	}
+
+	/* Set group; must be changed before user. */
+	if (groupname && set_group(groupname))
+		goto err1;
 
-		/* Check that we have actually left all supplementary groups. */
+	/*
+	 * Check that we have actually left all supplementary groups; this must
+	 * be after setting the group, since our old (effective) group could
+	 * also be one of our supplementary groups.
+	 */
+	if (leave_suppgrp != SETUIDGID_SGROUP_IGNORE) {
 		if (check_supplementary_groups_none()) {
 			if (leave_suppgrp == SETUIDGID_SGROUP_LEAVE_ERROR) {
 				warn0("Failed to leave supplementary groups");
@@ -257,10 +267,6 @@ setuidgid(const char * user_group_string, int leave_suppgrp)
 		}
 	}
 
-	/* Set group; must be changed before user. */
-	if (groupname && set_group(groupname))
-		goto err1;
-
 	/* Set user. */
 	if (username && set_user(username))
 		goto err1;
-- 
2.43.0


From 16fc5780f5b812aad2d39f0080f92af267ae56ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:58 +0000
Subject: [PATCH 10/14] fix: tell the caller when a connection attempt ends in
 a fatal error

network_connect() promises to invoke the callback with -1 upon fatal
errors, but after returning its cookie it freed the cookie without telling
anyone; when the caller then cancelled the attempt (e.g., while cleaning
up), it used freed memory.
---
 libcperciva/network/network_connect.c | 33 ++++++++++++++++++++++-----
 1 file changed, 27 insertions(+), 6 deletions(-)

diff --git a/libcperciva/network/network_connect.c b/libcperciva/network/network_connect.c
index 940e7a9..ad108e1 100644
--- a/libcperciva/network/network_connect.c
+++ b/libcperciva/network/network_connect.c
@@ -43,6 +43,21 @@ docallback(void * cookie)
 	return (rc);
 }
 
+/* A fatal error occurred after we returned the cookie to our caller. */
+static int
+dofatal(struct connect_cookie * C)
+{
+
+	/*
+	 * Tell our caller that we failed, and that the cookie is no longer
+	 * valid.
+	 */
+	(void)docallback(C);
+
+	/* Fatal error! */
+	return (-1);
+}
+
 /* An address failed to connect. */
 static int
 dofailed(struct connect_cookie * C)
@@ -59,7 +74,11 @@ dofailed(struct connect_cookie * C)
 	C->sas++;
 
 	/* Try other addresses until we run out of options. */
-	return (tryconnect(C));
+	if (tryconnect(C))
+		return (dofatal(C));
+
+	/* Success! */
+	return (0);
 }
 
 /* Callback when connect(2) succeeds or fails. */
@@ -92,10 +111,10 @@ callback_connect(void * cookie)
 err1:
 	if (close(C->s))
 		warnp("close");
-	free(C);
+	C->s = -1;
 
 	/* Fatal error! */
-	return (-1);
+	return (dofatal(C));
 }
 
 /* Callback when a timer expires. */
@@ -114,7 +133,7 @@ callback_timeo(void * cookie)
 	return (dofailed(C));
 }
 
-/* Try to launch a connection.  Free the cookie on fatal errors. */
+/* Try to launch a connection.  Close the socket on fatal errors. */
 static int
 tryconnect(struct connect_cookie * C)
 {
@@ -162,7 +181,7 @@ err2:
 err1:
 	if ((C->s != -1) && close(C->s))
 		warnp("close");
-	free(C);
+	C->s = -1;
 
 	/* Fatal error. */
 	return (-1);
@@ -209,11 +228,13 @@ network_connect_internal(struct sock_addr * const * sas,
 
 	/* Try to connect to the first address. */
 	if (tryconnect(C))
-		goto err0;
+		goto err1;
 
 	/* Success! */
 	return (C);
 
+err1:
+	free(C);
 err0:
 	/* Failure! */
 	return (NULL);
-- 
2.43.0


From 4487e823e8adb248ef036f5eb025e54bacf528aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:16 +0000
Subject: [PATCH 11/14] fix: events: do not let network events starve timers

Timers were looked at only when no socket was ready.  On a daemon which is
busy enough for there always to be another socket ready, timeouts did not
expire and SIGTERM was not noticed until the load went away.  Look for expired
timers after each round of network events.
---
 libcperciva/events/events.c         | 26 ++++++++++++++++++--------
 libcperciva/events/events_network.c |  4 ++++
 2 files changed, 22 insertions(+), 8 deletions(-)

diff --git a/libcperciva/events/events.c b/libcperciva/events/events.c
index 8e9baf1..8634ea0 100644
--- a/libcperciva/events/events.c
+++ b/libcperciva/events/events.c
@@ -94,6 +94,7 @@ events_run_internal(void)
 	struct eventrec * r;
 	struct timeval * tv;
 	struct timeval tv2;
+	int polled = 0;
 	int rc = 0;
 
 	/* If we have any immediate events, process them and return. */
@@ -149,17 +150,26 @@ events_run_internal(void)
 			continue;
 		}
 
-		/* Check if any new network events are available. */
-		memcpy(&tv2, &tv_zero, sizeof(struct timeval));
-		if (events_network_select(&tv2, &interrupt_requested))
-			goto err0;
-		if ((r = events_network_get()) != NULL) {
-			if ((rc = doevent(r)) != 0)
-				goto done;
-			continue;
+		/*
+		 * Check if any new network events are available, unless we
+		 * have run network events since we last looked for expired
+		 * timers: If there is always another network event, timers
+		 * must still get their turn.
+		 */
+		if (!polled) {
+			polled = 1;
+			memcpy(&tv2, &tv_zero, sizeof(struct timeval));
+			if (events_network_select(&tv2, &interrupt_requested))
+				goto err0;
+			if ((r = events_network_get()) != NULL) {
+				if ((rc = doevent(r)) != 0)
+					goto done;
+				continue;
+			}
 		}
 
 		/* Run a timer event, if one is available. */
+		polled = 0;
 		if (events_timer_get(&r))
 			goto err0;
 		if (r != NULL) {
diff --git a/libcperciva/events/events_network.c b/libcperciva/events/events_network.c
index 73d6aa7..c20dae2 100644
--- a/libcperciva/events/events_network.c
+++ b/libcperciva/events/events_network.c
@@ -426,6 +426,10 @@ events_network_get(void)
 	/* We haven't found any events yet. */
 	r = NULL;
 
+	/* If the end of the array has been removed, carry on below it. */
+	if ((fdscanpos != (size_t)(-1)) && (fdscanpos >= nfds))
+		fdscanpos = nfds - 1;
+
 	/* Scan through the pollfds looking for ready descriptors. */
 	for (; fdscanpos < nfds; fdscanpos--) {
 		/* Did we poll on an invalid descriptor? */
-- 
2.43.0


From ec0a135d32afad1e55517f31ccbd6fbfb9cdf264 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:44 +0000
Subject: [PATCH 12/14] fix: netbuf: keep the bytes which have arrived when a
 wait is cancelled

They were in the buffer but not counted until all of the data wanted was
there, so that the next netbuf_read_wait() overwrote them; likewise at EOF.
---
 libcperciva/netbuf/netbuf_read.c | 42 +++++++++++++++++++++++---------
 1 file changed, 31 insertions(+), 11 deletions(-)

diff --git a/libcperciva/netbuf/netbuf_read.c b/libcperciva/netbuf/netbuf_read.c
index bdbf8e3..c69a897 100644
--- a/libcperciva/netbuf/netbuf_read.c
+++ b/libcperciva/netbuf/netbuf_read.c
@@ -30,6 +30,7 @@ struct netbuf_read {
 	void * cookie;			/* Cookie for _wait. */
 	void * read_cookie;		/* From network_read. */
 	void * immediate_cookie;	/* From events_immediate_register. */
+	size_t waitlen;			/* Data length wanted by _wait. */
 
 	/* Buffer state. */
 	uint8_t * buf;			/* Current read buffer. */
@@ -138,6 +139,26 @@ err0:
 	return (-1);
 }
 
+/*
+ * Read data into the buffer, however little arrives: callback_read() takes
+ * note of it (so that it is not lost if the wait is cancelled, or if there is
+ * no more) and asks for the rest.
+ */
+static int
+netbuf_read_more(struct netbuf_read * R)
+{
+
+	if (R->ssl)
+		R->read_cookie = (netbuf_read_ssl_func)(R->ssl,
+		    &R->buf[R->datalen], R->buflen - R->datalen, 1,
+		    callback_read, R);
+	else
+		R->read_cookie = network_read(R->s, &R->buf[R->datalen],
+		    R->buflen - R->datalen, 1, callback_read, R);
+
+	return (R->read_cookie == NULL ? -1 : 0);
+}
+
 /**
  * netbuf_read_wait(R, len, callback, cookie):
  * Wait until ${R} has ${len} or more bytes of data buffered or an error
@@ -156,6 +177,7 @@ netbuf_read_wait(struct netbuf_read * R, size_t len,
 	/* Record parameters for future reference. */
 	R->callback = callback;
 	R->cookie = cookie;
+	R->waitlen = len;
 
 	/* If we have enough data already, schedule a callback. */
 	if (R->datalen - R->bufpos >= len) {
@@ -178,17 +200,8 @@ netbuf_read_wait(struct netbuf_read * R, size_t len,
 	}
 
 	/* Read data into the buffer. */
-	if (R->ssl) {
-		if ((R->read_cookie = (netbuf_read_ssl_func)(R->ssl,
-		    &R->buf[R->datalen], R->buflen - R->datalen,
-		    R->bufpos + len - R->datalen, callback_read, R)) == NULL)
-			goto err0;
-	} else {
-		if ((R->read_cookie = network_read(R->s, &R->buf[R->datalen],
-		    R->buflen - R->datalen, R->bufpos + len - R->datalen,
-		    callback_read, R)) == NULL)
-			goto err0;
-	}
+	if (netbuf_read_more(R))
+		goto err0;
 
 done:
 	/* Success! */
@@ -238,6 +251,13 @@ callback_read(void * cookie, ssize_t lenread)
 	/* We've got more data. */
 	R->datalen += (size_t)lenread;
 
+	/* Keep on waiting if it is not enough. */
+	if (R->datalen - R->bufpos < R->waitlen) {
+		if (netbuf_read_more(R))
+			goto failed;
+		return (0);
+	}
+
 	/* Perform callback. */
 	return ((R->callback)(R->cookie, 0));
 
-- 
2.43.0


From 28e6868ff2e7e861ffeced30888cf5db32c1c96d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:06 +0000
Subject: [PATCH 13/14] fix: dnsthread_kill with a pending resolution must not
 leave things behind

The address, the results, the wakeup listener (whose cookie is freed by the
thread) and the thread itself were not cleaned up.
---
 lib/dnsthread/dnsthread.c | 56 ++++++++++++++++++++++++++++++++-------
 lib/dnsthread/dnsthread.h |  3 ++-
 2 files changed, 48 insertions(+), 11 deletions(-)

diff --git a/lib/dnsthread/dnsthread.c b/lib/dnsthread/dnsthread.c
index 1733b6f..8b509b4 100644
--- a/lib/dnsthread/dnsthread.c
+++ b/lib/dnsthread/dnsthread.c
@@ -29,6 +29,7 @@ struct dnsthread_internal {
 	char * addr;		/* Address to be resolved. */
 	struct sock_addr ** sas;	/* Results. */
 	int res_errno;		/* Errno to be passed back on failure. */
+	int pending;		/* Callback has yet to be performed. */
 
 	/* Callback to occur when resolution is complete. */
 	int (* callback)(void *, struct sock_addr **);	/* Callback. */
@@ -124,6 +125,10 @@ workthread(void * cookie)
 			T->state = THREAD_SLEEPING;
 	} while (1);
 
+	/* Free anything which was never passed to a callback. */
+	free(T->addr);
+	sock_addr_freelist(T->sas);
+
 	/* Close the socket pair. */
 	if (close(T->wakeupsock[1]))
 		warnp("close");
@@ -194,6 +199,9 @@ dnsthread_spawn(void)
 
 	/* The thread starts out sleeping. */
 	T->state = THREAD_SLEEPING;
+	T->addr = NULL;
+	T->sas = NULL;
+	T->pending = 0;
 
 	/* Create the thread. */
 	if ((rc = pthread_create(&T->thr, NULL, workthread, T)) != 0) {
@@ -265,21 +273,22 @@ dnsthread_resolveone(DNSTHREAD T, const char * addr,
 	T->callback = callback;
 	T->cookie = cookie;
 
-	/* There is now work for the thread to do. */
-	T->state = THREAD_HASWORK;
+	/* We want a callback when the worker thread pokes us. */
+	if (events_network_register(callback_resolveone, T, T->wakeupsock[1],
+	    EVENTS_NETWORK_OP_READ)) {
+		warnp("Error registering wakeup listener");
+		goto err2;
+	}
 
 	/* Wake up the worker thread. */
 	if ((rc = pthread_cond_signal(&T->cv)) != 0) {
 		warn0("pthread_cond_signal: %s", strerror(rc));
-		goto err1;
+		goto err3;
 	}
 
-	/* We want a callback when the worker thread pokes us. */
-	if (events_network_register(callback_resolveone, T, T->wakeupsock[1],
-	    EVENTS_NETWORK_OP_READ)) {
-		warnp("Error registering wakeup listener");
-		goto err1;
-	}
+	/* There is now work for the thread to do. */
+	T->state = THREAD_HASWORK;
+	T->pending = 1;
 
 ealready:
 	/* Release the mutex. */
@@ -295,6 +304,11 @@ ealready:
 	/* Success! */
 	return (0);
 
+err3:
+	events_network_cancel(T->wakeupsock[1], EVENTS_NETWORK_OP_READ);
+err2:
+	free(T->addr);
+	T->addr = NULL;
 err1:
 	pthread_mutex_unlock(&T->mtx);
 err0:
@@ -328,14 +342,17 @@ callback_resolveone(void * cookie)
 
 	/* Free the (strduped) address which was to be resolved. */
 	free(T->addr);
+	T->addr = NULL;
 
 	/* Grab the result. */
 	sas = T->sas;
+	T->sas = NULL;
 	res_errno = T->res_errno;
 
 	/* Grab the callback. */
 	callback = T->callback;
 	cb_cookie = T->cookie;
+	T->pending = 0;
 
 	/* Release the mutex. */
 	if ((rc = pthread_mutex_unlock(&T->mtx)) != 0) {
@@ -357,7 +374,8 @@ err0:
  * dnsthread_kill(T):
  * Instruct an address resolution thread to die.  If the thread does not have
  * an address resolution operation currently pending, wait for the thread to
- * die before returning.
+ * die before returning.  If there is an address resolution operation for which
+ * the callback has not been performed yet, it will not be performed.
  */
 int
 dnsthread_kill(DNSTHREAD T)
@@ -378,6 +396,24 @@ dnsthread_kill(DNSTHREAD T)
 	/* Grab the thread ID. */
 	thr = T->thr;
 
+	/* If there is a callback pending, it must not happen any more. */
+	if (T->pending) {
+		if (events_network_cancel(T->wakeupsock[1],
+		    EVENTS_NETWORK_OP_READ)) {
+			warnp("Error cancelling wakeup listener");
+			goto err1;
+		}
+		T->pending = 0;
+	}
+
+	/* If the thread is not sleeping, we will not wait for it. */
+	if (ostate != THREAD_SLEEPING) {
+		if ((rc = pthread_detach(thr)) != 0) {
+			warn0("pthread_detach: %s", strerror(rc));
+			goto err1;
+		}
+	}
+
 	/* Tell the thread to die, and wake it up. */
 	T->state = THREAD_SUICIDE;
 	if ((rc = pthread_cond_signal(&T->cv)) != 0) {
diff --git a/lib/dnsthread/dnsthread.h b/lib/dnsthread/dnsthread.h
index 217b13a..a6ad7dd 100644
--- a/lib/dnsthread/dnsthread.h
+++ b/lib/dnsthread/dnsthread.h
@@ -31,7 +31,8 @@ int dnsthread_resolveone(DNSTHREAD, const char *,
  * dnsthread_kill(T):
  * Instruct an address resolution thread to die.  If the thread does not have
  * an address resolution operation currently pending, wait for the thread to
- * die before returning.
+ * die before returning.  If there is an address resolution operation for which
+ * the callback has not been performed yet, it will not be performed.
  */
 int dnsthread_kill(DNSTHREAD);
 
-- 
2.43.0


From 4dda1d1ff7bc8cbaf40c1fce0a3a9c109571ed4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:06 +0000
Subject: [PATCH 14/14] fix: dnsthread_resolveone must return EALREADY until
 the callback is done

The thread goes back to sleep before its result is passed to the callback; a
new request at that point overwrote the address and callback of the old one.
---
 lib/dnsthread/dnsthread.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/dnsthread/dnsthread.c b/lib/dnsthread/dnsthread.c
index 8b509b4..398b360 100644
--- a/lib/dnsthread/dnsthread.c
+++ b/lib/dnsthread/dnsthread.c
@@ -259,8 +259,8 @@ dnsthread_resolveone(DNSTHREAD T, const char * addr,
 		goto err0;
 	}
 
-	/* If the resolver is already busy, fail. */
-	if (T->state == THREAD_HASWORK) {
+	/* If the resolver is already busy (or has an unused result), fail. */
+	if (T->pending) {
 		err = EALREADY;
 		goto ealready;
 	}
-- 
2.43.0

