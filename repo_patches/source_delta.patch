From 352cc68791f64ee11c8558560bb7fab4c84df10b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:20 +0000
Subject: [PATCH 01/25] fix: string_write advances past the bytes already
 written

---
 src/reactor/string.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/reactor/string.c b/src/reactor/string.c
index 4c09f92..b204333 100644
--- a/src/reactor/string.c
+++ b/src/reactor/string.c
@@ -220,7 +220,7 @@ void string_write(string s, int fd)
   {
     n = write(fd, s + offset, string_size(s) - offset);
     assert(n > 0);
-    offset -= n;
+    offset += n;
   }
 }
 
-- 
2.43.0


From 55526760a548ad6379fe162dc4779293ed09ec2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:20 +0000
Subject: [PATCH 02/25] fix: string_free releases allocated strings that have
 become empty

---
 src/reactor/string.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/reactor/string.c b/src/reactor/string.c
index b204333..0fb3bea 100644
--- a/src/reactor/string.c
+++ b/src/reactor/string.c
@@ -35,7 +35,7 @@ string string_null(void)
 
 void string_free(string s)
 {
-  if (!string_equal(s, string_null()))
+  if (s != string_null())
     free(string_header(s));
 }
 
-- 
2.43.0


From 311a15587f4117e26d3037425f54efa5808b5dc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:20 +0000
Subject: [PATCH 03/25] fix: string_save replaces the previous contents of the
 file

---
 src/reactor/string.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/reactor/string.c b/src/reactor/string.c
index 0fb3bea..3a7b579 100644
--- a/src/reactor/string.c
+++ b/src/reactor/string.c
@@ -228,7 +228,7 @@ int string_save(string s, const char *path)
 {
   int fd;
 
-  fd = open(path, O_WRONLY);
+  fd = open(path, O_WRONLY | O_TRUNC);
   if (fd == -1)
     return -1;
 
-- 
2.43.0


From 2091137568001abf0a02dfbcc8b0de2049bc61f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:31 +0000
Subject: [PATCH 04/25] fix: HTTP parsing does not read past its input after a
 blank

---
 src/picohttpparser/picohttpparser.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/picohttpparser/picohttpparser.c b/src/picohttpparser/picohttpparser.c
index 74ccc3e..77bd596 100644
--- a/src/picohttpparser/picohttpparser.c
+++ b/src/picohttpparser/picohttpparser.c
@@ -355,10 +355,12 @@ static const char *parse_request(const char *buf, const char *buf_end, const cha
     ADVANCE_TOKEN(*method, *method_len);
     do {
         ++buf;
+        CHECK_EOF();
     } while (*buf == ' ');
     ADVANCE_TOKEN(*path, *path_len);
     do {
         ++buf;
+        CHECK_EOF();
     } while (*buf == ' ');
     if (*method_len == 0 || *path_len == 0) {
         *ret = -1;
@@ -422,6 +424,7 @@ static const char *parse_response(const char *buf, const char *buf_end, int *min
     }
     do {
         ++buf;
+        CHECK_EOF();
     } while (*buf == ' ');
     /* parse status code, we want at least [:digit:][:digit:][:digit:]<other char> to try to parse */
     if (buf_end - buf < 4) {
-- 
2.43.0


From 478bdf554bbf3589abfc1e7d5946536ac3000871 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:31 +0000
Subject: [PATCH 05/25] fix: http_write_response reserves the space its date
 needs

---
 src/reactor/http.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/reactor/http.c b/src/reactor/http.c
index 1fb7124..7a8cab7 100644
--- a/src/reactor/http.c
+++ b/src/reactor/http.c
@@ -111,7 +111,7 @@ void http_write_response(stream *stream, data status, data date, data type, data
   utility_u32_sprint(data_size(body), storage + size);
   length = data_construct(storage, size);
 
-  p = stream_allocate(stream, 9 + data_size(status) + 2 + 17 + 37 +
+  p = stream_allocate(stream, 9 + data_size(status) + 2 + 17 + 8 + data_size(date) +
                       (data_empty(type) ? 0 : 16 + data_size(type)) +
                       (18 + data_size(length)) + 2 + data_size(body));
   pointer_push(&p, data_string("HTTP/1.1 "));
-- 
2.43.0


From 4e0e135da49144e9747394c542910cabab9c54ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:23 +0000
Subject: [PATCH 06/25] fix: a write to a connection the peer has left does not
 abort the process

---
 src/reactor/stream.c | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/src/reactor/stream.c b/src/reactor/stream.c
index 48d24bc..e11e714 100644
--- a/src/reactor/stream.c
+++ b/src/reactor/stream.c
@@ -55,10 +55,7 @@ static void stream_socket_write(stream *stream)
   {
     n = write(descriptor_fd(&stream->descriptor), data + total, size - total);
     if (n == -1)
-    {
-      assert(errno == EAGAIN);
       break;
-    }
     total += n;
   }
   buffer_erase(&stream->output, 0, total);
-- 
2.43.0


From fc59773b28fb73d20acdb3b4656e290e9f4e0ef2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:41 +0000
Subject: [PATCH 07/25] fix: event signals given before they are dispatched are
 not lost

---
 src/reactor/event.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/reactor/event.c b/src/reactor/event.c
index c66e6e1..f9785cb 100644
--- a/src/reactor/event.c
+++ b/src/reactor/event.c
@@ -33,7 +33,7 @@ void event_open(event *event)
 
   fd = eventfd(0, EFD_CLOEXEC | EFD_NONBLOCK | EFD_SEMAPHORE);
   assert(fd != -1);
-  descriptor_open(&event->descriptor, fd, DESCRIPTOR_READ);
+  descriptor_open(&event->descriptor, fd, DESCRIPTOR_READ | DESCRIPTOR_LEVEL);
 }
 
 int event_is_open(event *event)
-- 
2.43.0


From f43ba6b0327d8bff49a23d00d98dae0df00d8725 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:41 +0000
Subject: [PATCH 08/25] fix: a timer set anew in the turn it expired does not
 abort the process

---
 src/reactor/timer.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/reactor/timer.c b/src/reactor/timer.c
index a141b88..96c9702 100644
--- a/src/reactor/timer.c
+++ b/src/reactor/timer.c
@@ -28,7 +28,8 @@ static void timer_callback(reactor_event *event)
     assert(n == sizeof expirations);
     total += expirations;
   }
-  assert(total);
+  if (!total)
+    return;
   reactor_dispatch(&timer->handler, TIMER_EXPIRATION, total);
 }
 
-- 
2.43.0


From 826aa6b5675796a255cbb4efec53d41723a48b30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:41 +0000
Subject: [PATCH 09/25] fix: notifications that belong to no watch, as queue
 overflow, are skipped

---
 src/reactor/notify.c | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/reactor/notify.c b/src/reactor/notify.c
index d33feff..7643695 100644
--- a/src/reactor/notify.c
+++ b/src/reactor/notify.c
@@ -42,10 +42,12 @@ static void notify_callback(reactor_event *event)
     {
       inotify_event = (struct inotify_event *) p;
       e = list_front(&notify->entries);
-      while (e->id != inotify_event->wd)
-      {
+      while (e != list_end(&notify->entries) && e->id != inotify_event->wd)
         e = list_next(e);
-        assert(e != list_end(&notify->entries));
+      if (e == list_end(&notify->entries))
+      {
+        notify->errors++;
+        continue;
       }
       notify_event = (struct notify_event) {.mask = inotify_event->mask, .id = e->id,
         .name = inotify_event->len ? inotify_event->name : "", .path = e->path};
-- 
2.43.0


From db65136043b9e0d08d35a389afde045749be3c42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:41 +0000
Subject: [PATCH 10/25] fix: notify_clear stops delivery and forgets the
 watched paths

---
 src/reactor/notify.c | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/reactor/notify.c b/src/reactor/notify.c
index 7643695..7dc2f56 100644
--- a/src/reactor/notify.c
+++ b/src/reactor/notify.c
@@ -71,6 +71,12 @@ void notify_construct(notify *notify, reactor_callback *callback, void *state)
 void notify_clear(notify *notify)
 {
   descriptor_close(&notify->descriptor);
+  list_clear(&notify->entries, notify_release_entry);
+  if (notify->cancel)
+  {
+    *(notify->cancel) = 1;
+    notify->cancel = NULL;
+  }
 }
 
 int notify_watch(notify *notify, char *path, uint32_t mask)
@@ -99,9 +105,4 @@ void notify_destruct(notify *notify)
 {
   notify_clear(notify);
   list_destruct(&notify->entries, notify_release_entry);
-  if (notify->cancel)
-  {
-    *(notify->cancel) = 1;
-    notify->cancel = NULL;
-  }
 }
-- 
2.43.0


From bec31f26c3bb78056a9813aa199a36c4b77f48f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:18:41 +0000
Subject: [PATCH 11/25] fix: responses given before the first tick of the date
 timer carry a date

---
 src/reactor/server.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/reactor/server.c b/src/reactor/server.c
index c185fd3..6679de8 100644
--- a/src/reactor/server.c
+++ b/src/reactor/server.c
@@ -212,6 +212,7 @@ void server_open(server *server, int fd, SSL_CTX *ssl_ctx)
     server_ssl_open(server, fd, ssl_ctx);
   else
     server_socket_open(server, fd);
+  server_date_update();
   server->is_open = 1;
 }
 
@@ -237,6 +238,8 @@ void server_shutdown(server *server)
 
 void server_accept(server *server, int fd)
 {
+  if (!server->is_open)
+    server_date_update();
   if (server->ssl_ctx)
     server_ssl_accept(server, fd);
   else
-- 
2.43.0


From 7785957b20f1f674b76885fd7baea18682e979d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:22:17 +0000
Subject: [PATCH 12/25] fix: a connection is not closed when its client has
 caught up with the output

---
 src/reactor/server.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/reactor/server.c b/src/reactor/server.c
index 6679de8..ea057d7 100644
--- a/src/reactor/server.c
+++ b/src/reactor/server.c
@@ -107,6 +107,8 @@ static void server_request_callback(reactor_event *event)
   case STREAM_READ:
     server_request_update(request);
     break;
+  case STREAM_WRITE:
+    break;
   default:
   case STREAM_CLOSE:
     server_close(request);
-- 
2.43.0


From 8b71425549435933248724695d346d2d19804dd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:22:17 +0000
Subject: [PATCH 13/25] fix: server_shutdown closes connections whose requests
 are still held, and only once

---
 src/reactor/server.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/reactor/server.c b/src/reactor/server.c
index ea057d7..3c54672 100644
--- a/src/reactor/server.c
+++ b/src/reactor/server.c
@@ -226,7 +226,7 @@ void server_shutdown(server *server)
   while (request != list_end(&server->requests))
   {
     next = list_next(request);
-    server_release(request);
+    server_close(request);
     request = next;
   }
 
-- 
2.43.0


From 0866aa3011f6f59f736f4a166e405f2cbe6e932e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:22:36 +0000
Subject: [PATCH 14/25] fix: a request held beyond the destruction of its
 server can be released

---
 src/reactor/server.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/reactor/server.c b/src/reactor/server.c
index 3c54672..4159664 100644
--- a/src/reactor/server.c
+++ b/src/reactor/server.c
@@ -205,6 +205,10 @@ void server_construct(server *server, reactor_callback *callback, void *state)
 void server_destruct(server *server)
 {
   server_shutdown(server);
+  /* closed requests still held are released later, when the server may be gone */
+  server->requests.next->list.previous = server->requests.previous;
+  server->requests.previous->list.next = server->requests.next;
+  list_construct(&server->requests);
   timer_destruct(&server->timer);
 }
 
-- 
2.43.0


From b45f94149ab7a1cd4d2348782b13db3fd704971d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:22:36 +0000
Subject: [PATCH 15/25] fix: connections pending after a failing accept are
 accepted

---
 src/reactor/server.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/reactor/server.c b/src/reactor/server.c
index 4159664..c5c6872 100644
--- a/src/reactor/server.c
+++ b/src/reactor/server.c
@@ -153,7 +153,7 @@ static void server_socket_open(server *server, int fd)
 {
   timer_set(&server->timer, 0, 1000000000);
   descriptor_construct(&server->descriptor, server_socket_descriptor_callback, server);
-  descriptor_open(&server->descriptor, fd, DESCRIPTOR_READ);
+  descriptor_open(&server->descriptor, fd, DESCRIPTOR_READ | DESCRIPTOR_LEVEL);
 }
 
 /* ssl socket routines */
@@ -189,7 +189,7 @@ static void server_ssl_open(server *server, int fd, SSL_CTX *ssl_ctx)
   server->ssl_ctx = ssl_ctx;
   timer_set(&server->timer, 0, 1000000000);
   descriptor_construct(&server->descriptor, server_ssl_descriptor_callback, server);
-  descriptor_open(&server->descriptor, fd, DESCRIPTOR_READ);
+  descriptor_open(&server->descriptor, fd, DESCRIPTOR_READ | DESCRIPTOR_LEVEL);
 }
 
 /* public */
-- 
2.43.0


From f647e60c7c3c27477be2b3a28ad9ac8439b41fc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:22:36 +0000
Subject: [PATCH 16/25] fix: a bad request is answered in full before its
 connection is closed

---
 src/reactor/server.c | 24 ++++++++++++++++++++----
 src/reactor/server.h |  1 +
 2 files changed, 21 insertions(+), 4 deletions(-)

diff --git a/src/reactor/server.c b/src/reactor/server.c
index c5c6872..c6b696b 100644
--- a/src/reactor/server.c
+++ b/src/reactor/server.c
@@ -45,6 +45,17 @@ static void server_date_update(void)
 
 /* common routines */
 
+static void server_request_finish(server_request *request)
+{
+  if (buffer_size(&request->stream.output))
+  {
+    request->state = SERVER_REQUEST_CLOSING;
+    stream_notify(&request->stream);
+  }
+  else
+    server_close(request);
+}
+
 static void server_request_read(server_request *request)
 {
   ssize_t n;
@@ -105,9 +116,14 @@ static void server_request_callback(reactor_event *event)
   switch (event->type)
   {
   case STREAM_READ:
-    server_request_update(request);
+    if (request->state == SERVER_REQUEST_CLOSING)
+      stream_consume(&request->stream, buffer_size(&request->stream.input));
+    else
+      server_request_update(request);
     break;
   case STREAM_WRITE:
+    if (request->state == SERVER_REQUEST_CLOSING)
+      server_request_finish(request);
     break;
   default:
   case STREAM_CLOSE:
@@ -279,7 +295,7 @@ void server_release(server_request *request)
 
 void server_respond(server_request *request, data status, data type, data body)
 {
-  if (request->state != SERVER_REQUEST_CLOSED)
+  if (request->state < SERVER_REQUEST_CLOSING)
   {
     http_write_response(&request->stream, status, server_date(), type, body);
     if (request->event_triggered)
@@ -306,11 +322,11 @@ void server_not_found(server_request *request)
 
 void server_bad_request(server_request *request)
 {
-  if (request->state != SERVER_REQUEST_CLOSED)
+  if (request->state < SERVER_REQUEST_CLOSING)
   {
     http_write_response(&request->stream, data_string("400 Bad Request"), server_date(), data_null(), data_null());
     stream_flush(&request->stream);
-    server_close(request);
+    server_request_finish(request);
   }
   server_release(request);
 }
diff --git a/src/reactor/server.h b/src/reactor/server.h
index 68d11ed..098bab3 100644
--- a/src/reactor/server.h
+++ b/src/reactor/server.h
@@ -15,6 +15,7 @@ enum server_state
   SERVER_REQUEST_NEED_MORE_DATA,
   SERVER_REQUEST_READ,
   SERVER_REQUEST_HANDLING,
+  SERVER_REQUEST_CLOSING,
   SERVER_REQUEST_CLOSED
 };
 
-- 
2.43.0


From cdb62abfcc6708008cc912e3a19cdb1f6e2548dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:33:39 +0000
Subject: [PATCH 17/25] fix: net_socket returns -1 when a socket cannot be
 created or does not listen

---
 src/reactor/net.c | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/reactor/net.c b/src/reactor/net.c
index 4849c5d..3339903 100644
--- a/src/reactor/net.c
+++ b/src/reactor/net.c
@@ -27,22 +27,24 @@ int net_socket(struct addrinfo *addrinfo)
   if (!addrinfo)
     return -1;
   fd = socket(addrinfo->ai_family, addrinfo->ai_socktype | SOCK_NONBLOCK, addrinfo->ai_protocol);
+  if (fd == -1)
+  {
+    freeaddrinfo(addrinfo);
+    return -1;
+  }
   if (addrinfo->ai_flags & AI_PASSIVE)
   {
     (void) setsockopt(fd, SOL_SOCKET, SO_REUSEADDR, (int[]) {1}, sizeof(int));
     (void) setsockopt(fd, SOL_SOCKET, SO_REUSEPORT, (int[]) {1}, sizeof(int));
     e = bind(fd, addrinfo->ai_addr, addrinfo->ai_addrlen);
+    if (e == 0)
+      e = listen(fd, INT_MAX);
     if (e == -1)
     {
       e = close(fd);
       assert(e == 0);
       fd = -1;
     }
-    else
-    {
-      e = listen(fd, INT_MAX);
-      assert(e == 0);
-    }
   }
   else
     (void) connect(fd, addrinfo->ai_addr, addrinfo->ai_addrlen);
-- 
2.43.0


From d8c3c4a5162c4adcb9078fadcb21d7e60ad2aab4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:40:36 +0000
Subject: [PATCH 18/25] fix: an encrypted client stream that has nothing to
 write begins its handshake

---
 src/reactor/stream.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/reactor/stream.c b/src/reactor/stream.c
index e11e714..24e4d1b 100644
--- a/src/reactor/stream.c
+++ b/src/reactor/stream.c
@@ -183,7 +183,11 @@ static void stream_ssl_open(stream *stream, int fd, SSL_CTX *ssl_ctx)
   if (SSL_is_server(stream->ssl))
     SSL_set_accept_state(stream->ssl);
   else
+  {
     SSL_set_connect_state(stream->ssl);
+    /* a client begins the handshake */
+    stream->ssl_state = SSL_ERROR_WANT_WRITE;
+  }
   SSL_set_mode(stream->ssl, SSL_MODE_ENABLE_PARTIAL_WRITE | SSL_MODE_ACCEPT_MOVING_WRITE_BUFFER);
   descriptor_construct(&stream->descriptor, stream_ssl_callback, stream);
   descriptor_open(&stream->descriptor, fd, stream_ssl_mask(stream));
-- 
2.43.0


From 6b0fb87219947592b617cca610bf911018709988 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:42:16 +0000
Subject: [PATCH 19/25] fix: an encrypted stream that is only written to
 completes its handshake

---
 src/reactor/stream.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/reactor/stream.c b/src/reactor/stream.c
index 24e4d1b..de25bbc 100644
--- a/src/reactor/stream.c
+++ b/src/reactor/stream.c
@@ -101,7 +101,8 @@ static void stream_socket_open(stream *stream, int fd)
 
 static int stream_ssl_mask(stream *stream)
 {
-  return (stream->mask & STREAM_READ) |
+  /* the handshake needs input also when the stream is only written to */
+  return ((stream->mask & STREAM_READ) || SSL_in_init(stream->ssl) ? STREAM_READ : 0) |
     ((stream->ssl_state == SSL_ERROR_WANT_WRITE) | buffer_size(&stream->output) | stream->notify ? STREAM_WRITE : 0);
 }
 
@@ -151,7 +152,7 @@ static void stream_ssl_callback(reactor_event *event)
   case DESCRIPTOR_READ:
     n = stream_ssl_read(stream);
     stream_ssl_update(stream);
-    if (n)
+    if (n && stream->mask & STREAM_READ)
       reactor_dispatch(&stream->handler, STREAM_READ, 0);
     break;
   case DESCRIPTOR_WRITE:
-- 
2.43.0


From 6e5b95d3246ef1cb9c2ceae34b0568862bd36719 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:43:47 +0000
Subject: [PATCH 20/25] fix: encrypted output larger than one record is sent
 completely

---
 src/reactor/stream.c | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/reactor/stream.c b/src/reactor/stream.c
index de25bbc..a469a75 100644
--- a/src/reactor/stream.c
+++ b/src/reactor/stream.c
@@ -136,9 +136,12 @@ static void stream_ssl_flush(stream *stream)
   ssize_t n;
 
   assert(stream_ssl_activated);
-  n = SSL_write(stream->ssl, buffer_data(&stream->output), buffer_size(&stream->output));
-  if (n > 0)
-    buffer_erase(&stream->output, 0, n);
+  do
+  {
+    n = SSL_write(stream->ssl, buffer_data(&stream->output), buffer_size(&stream->output));
+    if (n > 0)
+      buffer_erase(&stream->output, 0, n);
+  } while (n > 0 && buffer_size(&stream->output));
   stream->ssl_state = SSL_get_error(stream->ssl, n);
 }
 
-- 
2.43.0


From 352c9d3e43a4fa47c7a44b3818abd7d39d2583b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:50:12 +0000
Subject: [PATCH 21/25] fix: a closed encrypted stream forgets its encryption
 state

---
 src/reactor/stream.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/reactor/stream.c b/src/reactor/stream.c
index a469a75..9fcb591 100644
--- a/src/reactor/stream.c
+++ b/src/reactor/stream.c
@@ -250,6 +250,8 @@ void stream_close(stream *stream)
 
   if (stream_ssl_activated)
     SSL_free(stream->ssl);
+  stream->ssl = NULL;
+  stream->ssl_state = 0;
 
   stream->notify = 0;
   descriptor_close(&stream->descriptor);
-- 
2.43.0


From fb5844d6441e350cb1ba9e6061edf424224df46e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:06:23 +0000
Subject: [PATCH 22/25] fix: a server opened again without encryption hands
 accepted connections no stale TLS context

---
 src/reactor/server.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/reactor/server.c b/src/reactor/server.c
index c6b696b..c61af09 100644
--- a/src/reactor/server.c
+++ b/src/reactor/server.c
@@ -167,6 +167,7 @@ static void server_socket_descriptor_callback(reactor_event *event)
 
 static void server_socket_open(server *server, int fd)
 {
+  server->ssl_ctx = NULL;
   timer_set(&server->timer, 0, 1000000000);
   descriptor_construct(&server->descriptor, server_socket_descriptor_callback, server);
   descriptor_open(&server->descriptor, fd, DESCRIPTOR_READ | DESCRIPTOR_LEVEL);
-- 
2.43.0


From 9f20e348c3f3d2e349d6c36ca48f7f4e82e0c171 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:38:02 +0000
Subject: [PATCH 23/25] fix: cancelling an asynchronous call waits for its
 thread to end

---
 src/reactor/async.c | 15 +++++----------
 1 file changed, 5 insertions(+), 10 deletions(-)

diff --git a/src/reactor/async.c b/src/reactor/async.c
index 0ee4cb7..423b35d 100644
--- a/src/reactor/async.c
+++ b/src/reactor/async.c
@@ -18,7 +18,6 @@ static void async_callback(reactor_event *event)
   async *async = event->state;
 
   assert(event->type == EVENT_SIGNAL);
-  async->thread = 0;
   async_cancel(async);
   reactor_dispatch(&async->handler, ASYNC_DONE, 0);
 }
@@ -39,12 +38,9 @@ void async_destruct(async *async)
 void async_call(async *async)
 {
   int e;
-  pthread_attr_t attr;
 
   event_open(&async->event);
-  pthread_attr_init(&attr);
-  pthread_attr_setdetachstate(&attr, PTHREAD_CREATE_DETACHED);
-  e = pthread_create(&async->thread, &attr, async_thread, async);
+  e = pthread_create(&async->thread, NULL, async_thread, async);
   assert(e == 0);
 }
 
@@ -52,11 +48,10 @@ void async_cancel(async *async)
 {
   if (event_is_open(&async->event))
   {
+    /* the thread uses the object until it has ended */
+    (void) pthread_cancel(async->thread);
+    (void) pthread_join(async->thread, NULL);
+    async->thread = 0;
     event_close(&async->event);
-    if (async->thread)
-    {
-      (void) pthread_cancel(async->thread);
-      async->thread = 0;
-    }
   }
 }
-- 
2.43.0


From ce03b42139cace87117e14f5dd6a7135d2b1c100 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:37 +0000
Subject: [PATCH 24/25] fix: timer: do not read until no expiration is left

A timer whose interval is not longer than the time a read takes never ran
out of expirations, so its callback was never invoked and the loop hung.
---
 src/reactor/timer.c | 22 ++++++++--------------
 1 file changed, 8 insertions(+), 14 deletions(-)

diff --git a/src/reactor/timer.c b/src/reactor/timer.c
index 96c9702..5347798 100644
--- a/src/reactor/timer.c
+++ b/src/reactor/timer.c
@@ -13,24 +13,18 @@
 static void timer_callback(reactor_event *event)
 {
   timer *timer = event->state;
-  uint64_t expirations, total;
+  uint64_t expirations;
   ssize_t n;
 
-  total = 0;
-  while (1)
+  /* one read consumes all expirations so far, later ones are signalled again */
+  n = read(descriptor_fd(&timer->descriptor), &expirations, sizeof expirations);
+  if (n == -1)
   {
-    n = read(descriptor_fd(&timer->descriptor), &expirations, sizeof expirations);
-    if (n == -1)
-    {
-      assert(errno == EAGAIN);
-      break;
-    }
-    assert(n == sizeof expirations);
-    total += expirations;
-  }
-  if (!total)
+    assert(errno == EAGAIN);
     return;
-  reactor_dispatch(&timer->handler, TIMER_EXPIRATION, total);
+  }
+  assert(n == sizeof expirations);
+  reactor_dispatch(&timer->handler, TIMER_EXPIRATION, expirations);
 }
 
 void timer_construct(timer *timer, reactor_callback *callback, void *state)
-- 
2.43.0


From 81db37da7a1a6f68e5065ff9e4687f6dec0f2466 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:09 +0000
Subject: [PATCH 25/25] fix: a server that is not open keeps the date of its
 connections current

---
 src/reactor/server.c | 6 ++++++
 src/reactor/server.h | 1 +
 2 files changed, 7 insertions(+)

diff --git a/src/reactor/server.c b/src/reactor/server.c
index c61af09..3d5c680 100644
--- a/src/reactor/server.c
+++ b/src/reactor/server.c
@@ -267,6 +267,8 @@ void server_accept(server *server, int fd)
     server_ssl_accept(server, fd);
   else
     server_socket_accept(server, fd);
+  /* no timer of this server keeps the date current */
+  ((server_request *) list_back(&server->requests))->update_date = !server->is_open;
 }
 
 void server_close(server_request *request)
@@ -298,6 +300,8 @@ void server_respond(server_request *request, data status, data type, data body)
 {
   if (request->state < SERVER_REQUEST_CLOSING)
   {
+    if (request->update_date)
+      server_date_update();
     http_write_response(&request->stream, status, server_date(), type, body);
     if (request->event_triggered)
       request->state = SERVER_REQUEST_READ;
@@ -325,6 +329,8 @@ void server_bad_request(server_request *request)
 {
   if (request->state < SERVER_REQUEST_CLOSING)
   {
+    if (request->update_date)
+      server_date_update();
     http_write_response(&request->stream, data_string("400 Bad Request"), server_date(), data_null(), data_null());
     stream_flush(&request->stream);
     server_request_finish(request);
diff --git a/src/reactor/server.h b/src/reactor/server.h
index 098bab3..9ab21a3 100644
--- a/src/reactor/server.h
+++ b/src/reactor/server.h
@@ -44,6 +44,7 @@ struct server_request
   data                target;
   http_field          fields[16];
   size_t              fields_count;
+  int                 update_date;
 };
 
 void server_construct(server *, reactor_callback *, void *);
-- 
2.43.0

