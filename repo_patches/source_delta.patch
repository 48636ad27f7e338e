From c3c99498950ef21337e663612476335ab0ee48b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:38 +0000
Subject: [PATCH 01/59] fix: reject base64 input with padding characters before
 the last quartet

The decoding loop stopped at the first '=' and, when the padding count at the
end was consistent by itself, returned a buffer whose tail was never written.
---
 src/crypto.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/crypto.c b/src/crypto.c
index 779263f..cf0a3d5 100644
--- a/src/crypto.c
+++ b/src/crypto.c
@@ -376,6 +376,9 @@ static void base64_decode(xmpp_ctx_t *ctx,
         }
         if (hextet > 64)
             goto _base64_decode_error;
+        /* only the last quartet may contain padding */
+        if (i != (dlen % 3 ? len - 4 : len))
+            goto _base64_decode_error;
         /* handle the remainder */
         switch (dlen % 3) {
         case 0:
-- 
2.43.0


From c0da31fb2a48e6ba44f408575d1a7ff8492af06c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:37 +0000
Subject: [PATCH 02/59] fix: do not reject SRV responses that end in a short
 non-SRV record

The bounds check before each answer demanded room for a whole SRV record, so a
response whose last answer was e.g. an A or CNAME record was refused although
it was complete.
---
 src/resolver.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/resolver.c b/src/resolver.c
index 028320a..ea2d772 100644
--- a/src/resolver.c
+++ b/src/resolver.c
@@ -452,12 +452,13 @@ static int resolver_raw_srv_lookup_buf(xmpp_ctx_t *ctx,
         if (name_len == 0)
             return XMPP_DOMAIN_NOT_FOUND;
         j += name_len;
-        BUF_OVERFLOW_CHECK(j + 16, len);
+        BUF_OVERFLOW_CHECK(j + 9, len);
         type = xmpp_ntohs_ptr(&buf[j]);
         class = xmpp_ntohs_ptr(&buf[j + 2]);
         rdlength = xmpp_ntohs_ptr(&buf[j + 8]);
         j += 10;
         if (type == MESSAGE_T_SRV && class == MESSAGE_C_IN) {
+            BUF_OVERFLOW_CHECK(j + 6, len);
             rr = resolver_srv_rr_new(ctx, NULL, 0, 0, 0);
             if (rr) {
                 rr->next = *srv_rr_list;
-- 
2.43.0


From 5ce55cae3b079fd253f396db24416c10beec5914 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:48 +0000
Subject: [PATCH 03/59] fix: no trailing dot when an SRV target ends in a
 pointer to the root

The name was returned with the separator of its last label still attached.
---
 src/resolver.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/resolver.c b/src/resolver.c
index ea2d772..112848a 100644
--- a/src/resolver.c
+++ b/src/resolver.c
@@ -359,6 +359,9 @@ static unsigned message_name_get(const unsigned char *buf,
                 name_max > name_len ? name_max - name_len : 0);
             if (rc == 0)
                 return 0;
+            /* Pointer to the root domain: drop the dot after the last label. */
+            if (name != NULL && name_len > 0 && name[name_len] == '\0')
+                name[name_len - 1] = '\0';
             /* Pointer is always the last. */
             break;
 
-- 
2.43.0


From 89d58c368729ba800991b90e286a1a4640fbdc1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:07 +0000
Subject: [PATCH 04/59] fix: reset the text buffer bookkeeping in parser_reset

After a reset in the middle of character data the parser believed it still
had room in a buffer that was already freed, and wrote through NULL on the
next text.
---
 src/parser_expat.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/parser_expat.c b/src/parser_expat.c
index c1d1d38..2c25758 100644
--- a/src/parser_expat.c
+++ b/src/parser_expat.c
@@ -352,6 +352,8 @@ int parser_reset(parser_t *parser)
         strophe_free(parser->ctx, parser->inner_text);
         parser->inner_text = NULL;
     }
+    parser->inner_text_size = 0;
+    parser->inner_text_used = 0;
 
     if (!parser->expat)
         return 0;
-- 
2.43.0


From d2bf147255b02e94661037b91712d46118beb6ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:07 +0000
Subject: [PATCH 05/59] fix: deliver a stanza when its last byte arrives with
 expat >= 2.6

expat's reparse deferral holds back complete tokens that were received in
small pieces until enough further data is fed, so whether a stanza was
dispatched depended on how the bytes were split across reads.
---
 src/parser_expat.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/parser_expat.c b/src/parser_expat.c
index 2c25758..5f192fa 100644
--- a/src/parser_expat.c
+++ b/src/parser_expat.c
@@ -360,6 +360,12 @@ int parser_reset(parser_t *parser)
 
     parser->depth = 0;
 
+#if XML_MAJOR_VERSION > 2 || \
+    (XML_MAJOR_VERSION == 2 && XML_MINOR_VERSION >= 6)
+    /* A stanza must be delivered when its last byte arrives, expat must not
+     * wait for more data if the stanza was received in small pieces. */
+    XML_SetReparseDeferralEnabled(parser->expat, XML_FALSE);
+#endif
     XML_SetUserData(parser->expat, parser);
     XML_SetElementHandler(parser->expat, _start_element, _end_element);
     XML_SetCharacterDataHandler(parser->expat, _characters);
-- 
2.43.0


From f9d5cf52424d1846410a80b7e0cf775c5fcfef8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:09:39 +0000
Subject: [PATCH 06/59] fix: escape white space that XML parsers would
 normalize when rendering

---
 src/stanza.c | 28 +++++++++++++++++++++++++---
 1 file changed, 25 insertions(+), 3 deletions(-)

diff --git a/src/stanza.c b/src/stanza.c
index 6c6d6df..0c0d19f 100644
--- a/src/stanza.c
+++ b/src/stanza.c
@@ -236,9 +236,11 @@ int xmpp_stanza_is_tag(xmpp_stanza_t *stanza)
  * the input string is encoded in UTF-8. On success, returns a pointer to a
  * buffer with the resulting data which must be xmpp_free()'d by the caller.
  * On failure, returns NULL.
+ * XML parsers normalize line ends in text and every white space character in
+ * attribute values, therefore these are written as character references.
  */
 
-static char *_escape_xml(xmpp_ctx_t *ctx, char *text)
+static char *_escape_xml(xmpp_ctx_t *ctx, char *text, int is_attr)
 {
     size_t len = 0;
     char *src;
@@ -256,6 +258,13 @@ static char *_escape_xml(xmpp_ctx_t *ctx, char *text)
         case '"':
             len += 6; /*"&quot;" */
             break;
+        case '\r': /* "&#xD;" */
+            len += 5;
+            break;
+        case '\n': /* "&#xA;" */
+        case '\t': /* "&#x9;" */
+            len += is_attr ? 5 : 1;
+            break;
         default:
             len++;
         }
@@ -281,6 +290,18 @@ static char *_escape_xml(xmpp_ctx_t *ctx, char *text)
             strcpy(dst, "&quot;");
             dst += 6;
             break;
+        case '\r':
+            strcpy(dst, "&#xD;");
+            dst += 5;
+            break;
+        case '\n':
+        case '\t':
+            if (is_attr) {
+                strcpy(dst, *src == '\n' ? "&#xA;" : "&#x9;");
+                dst += 5;
+                break;
+            }
+            /* fall through */
         default:
             *dst = *src;
             dst++;
@@ -330,7 +351,7 @@ _render_stanza_recursive(xmpp_stanza_t *stanza, char *buf, size_t buflen)
         if (!stanza->data)
             return XMPP_EINVOP;
 
-        tmp = _escape_xml(stanza->ctx, stanza->data);
+        tmp = _escape_xml(stanza->ctx, stanza->data, 0);
         if (tmp == NULL)
             return XMPP_EMEM;
         ret = strophe_snprintf(ptr, left, "%s", tmp);
@@ -366,7 +387,8 @@ _render_stanza_recursive(xmpp_stanza_t *stanza, char *buf, size_t buflen)
                         continue;
                 }
                 tmp = _escape_xml(stanza->ctx,
-                                  (char *)hash_get(stanza->attributes, key));
+                                  (char *)hash_get(stanza->attributes, key),
+                                  1);
                 if (tmp == NULL) {
                     hash_iter_release(iter);
                     return XMPP_EMEM;
-- 
2.43.0


From a3647725649b7d17d72a1f1293350cd00b351ad0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:09:39 +0000
Subject: [PATCH 07/59] fix: use the RFC 6120 name of the not-well-formed
 stream error

---
 src/auth.c   | 3 ++-
 src/stanza.c | 2 +-
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/auth.c b/src/auth.c
index a1bc3b5..07650a6 100644
--- a/src/auth.c
+++ b/src/auth.c
@@ -187,7 +187,8 @@ _handle_error(xmpp_conn_t *conn, xmpp_stanza_t *stanza, void *userdata)
                     conn->stream_error->type = XMPP_SE_UNSUPPORTED_STANZA_TYPE;
                 else if (strcmp(name, "unsupported-version") == 0)
                     conn->stream_error->type = XMPP_SE_UNSUPPORTED_VERSION;
-                else if (strcmp(name, "xml-not-well-formed") == 0)
+                else if (strcmp(name, "not-well-formed") == 0 ||
+                         strcmp(name, "xml-not-well-formed") == 0)
                     conn->stream_error->type = XMPP_SE_XML_NOT_WELL_FORMED;
             }
         } while ((child = xmpp_stanza_get_next(child)));
diff --git a/src/stanza.c b/src/stanza.c
index 0c0d19f..af7bb74 100644
--- a/src/stanza.c
+++ b/src/stanza.c
@@ -1615,7 +1615,7 @@ xmpp_error_new(xmpp_ctx_t *ctx, xmpp_error_type_t type, const char *text)
         xmpp_stanza_set_name(error_type, "unsupported-version");
         break;
     case XMPP_SE_XML_NOT_WELL_FORMED:
-        xmpp_stanza_set_name(error_type, "xml-not-well-formed");
+        xmpp_stanza_set_name(error_type, "not-well-formed");
         break;
     default:
         xmpp_stanza_set_name(error_type, "internal-server-error");
-- 
2.43.0


From cccc1422358d2ca1b216ba45a817ac9422cfd0c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:09:39 +0000
Subject: [PATCH 08/59] fix: detach children from a stanza that is being freed

---
 src/stanza.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/stanza.c b/src/stanza.c
index af7bb74..e33d78c 100644
--- a/src/stanza.c
+++ b/src/stanza.c
@@ -179,6 +179,8 @@ int xmpp_stanza_release(xmpp_stanza_t *stanza)
             tchild = child;
             child = child->next;
             tchild->next = NULL;
+            tchild->prev = NULL;
+            tchild->parent = NULL;
             xmpp_stanza_release(tchild);
         }
 
-- 
2.43.0


From e1000144050f42caf5dd5673d2b446bef801f26e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:10:12 +0000
Subject: [PATCH 09/59] fix: limit the nesting depth of incoming elements

---
 src/parser_expat.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/parser_expat.c b/src/parser_expat.c
index 5f192fa..a9724e9 100644
--- a/src/parser_expat.c
+++ b/src/parser_expat.c
@@ -30,6 +30,10 @@
  * number of re-allocations in 2 times for multi-line texts. */
 #define INNER_TEXT_PADDING 2
 
+/* Stanzas are rendered, copied and released recursively, therefore the peer
+ * must not be able to choose the depth of the recursion. */
+#define MAX_ELEMENT_DEPTH 1024
+
 struct _parser_t {
     xmpp_ctx_t *ctx;
     XML_Parser expat;
@@ -207,6 +211,8 @@ _start_element(void *userdata, const XML_Char *nsname, const XML_Char **attrs)
         strophe_free(parser->ctx, name);
 
     parser->depth++;
+    if (parser->depth > MAX_ELEMENT_DEPTH)
+        XML_StopParser(parser->expat, XML_FALSE);
 }
 
 static void _end_element(void *userdata, const XML_Char *name)
-- 
2.43.0


From 2ee559a5bcf6100f1f5e36b9e58052be7ecb409e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:21 +0000
Subject: [PATCH 10/59] fix: keep the namespace when rendering a child stanza
 on its own

---
 src/stanza.c | 25 ++++++++++++++-----------
 1 file changed, 14 insertions(+), 11 deletions(-)

diff --git a/src/stanza.c b/src/stanza.c
index e33d78c..2341c92 100644
--- a/src/stanza.c
+++ b/src/stanza.c
@@ -332,9 +332,13 @@ static void _render_update(
  * written if the buffer was large enough
  * return values < 0 indicate some error occurred,
  * and return values > buflen indicate buffer was not large enough
+ * parent is the stanza that is rendered around this one, NULL for the
+ * outermost one
  */
-static int
-_render_stanza_recursive(xmpp_stanza_t *stanza, char *buf, size_t buflen)
+static int _render_stanza_recursive(xmpp_stanza_t *stanza,
+                                    const xmpp_stanza_t *parent,
+                                    char *buf,
+                                    size_t buflen)
 {
     char *ptr = buf;
     size_t left = buflen;
@@ -376,14 +380,13 @@ _render_stanza_recursive(xmpp_stanza_t *stanza, char *buf, size_t buflen)
             while ((key = hash_iter_next(iter))) {
                 if (!strcmp(key, "xmlns")) {
                     /* don't output namespace if parent stanza is the same */
-                    if (stanza->parent && stanza->parent->attributes &&
-                        hash_get(stanza->parent->attributes, key) &&
-                        !strcmp(
-                            (char *)hash_get(stanza->attributes, key),
-                            (char *)hash_get(stanza->parent->attributes, key)))
+                    if (parent && parent->attributes &&
+                        hash_get(parent->attributes, key) &&
+                        !strcmp((char *)hash_get(stanza->attributes, key),
+                                (char *)hash_get(parent->attributes, key)))
                         continue;
                     /* or if this is the stream namespace */
-                    if (!stanza->parent &&
+                    if (!parent &&
                         !strcmp((char *)hash_get(stanza->attributes, key),
                                 XMPP_NS_CLIENT))
                         continue;
@@ -424,7 +427,7 @@ _render_stanza_recursive(xmpp_stanza_t *stanza, char *buf, size_t buflen)
             /* iterate and recurse over child stanzas */
             child = stanza->children;
             while (child) {
-                ret = _render_stanza_recursive(child, ptr, left);
+                ret = _render_stanza_recursive(child, stanza, ptr, left);
                 if (ret < 0)
                     return ret;
 
@@ -475,7 +478,7 @@ int xmpp_stanza_to_text(xmpp_stanza_t *stanza, char **buf, size_t *buflen)
         return XMPP_EMEM;
     }
 
-    ret = _render_stanza_recursive(stanza, buffer, length);
+    ret = _render_stanza_recursive(stanza, NULL, buffer, length);
     if (ret < 0) {
         strophe_free(stanza->ctx, buffer);
         *buf = NULL;
@@ -494,7 +497,7 @@ int xmpp_stanza_to_text(xmpp_stanza_t *stanza, char **buf, size_t *buflen)
         length = ret + 1;
         buffer = tmp;
 
-        ret = _render_stanza_recursive(stanza, buffer, length);
+        ret = _render_stanza_recursive(stanza, NULL, buffer, length);
         if ((size_t)ret > length - 1) {
             strophe_free(stanza->ctx, buffer);
             *buf = NULL;
-- 
2.43.0


From 81e4cfa0aa86b8aadaafddf813edd4c5c1c9e262 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:31:10 +0000
Subject: [PATCH 11/59] fix: give component connections a stream management
 state

Only xmpp_connect_client() allocated it, so a component connection
dereferenced NULL on the first stanza, write or disconnect. The send queue
functions did the same after xmpp_conn_get_sm_state() detached the state.
---
 src/conn.c | 33 +++++++++++++++++++++++----------
 1 file changed, 23 insertions(+), 10 deletions(-)

diff --git a/src/conn.c b/src/conn.c
index f586a59..a4d1924 100644
--- a/src/conn.c
+++ b/src/conn.c
@@ -103,6 +103,7 @@ static void _conn_sm_handle_stanza(xmpp_conn_t *const conn,
 static unsigned short _conn_default_port(xmpp_conn_t *conn,
                                          xmpp_conn_type_t type);
 static void _conn_reset(xmpp_conn_t *conn);
+static int _conn_sm_state_init(xmpp_conn_t *conn);
 static int _conn_connect(xmpp_conn_t *conn,
                          const char *domain,
                          xmpp_conn_type_t type,
@@ -689,13 +690,8 @@ int xmpp_connect_client(xmpp_conn_t *conn,
     if (!domain)
         return XMPP_EMEM;
 
-    if (!conn->sm_state) {
-        conn->sm_state = strophe_alloc(conn->ctx, sizeof(*conn->sm_state));
-        if (!conn->sm_state)
-            goto err_mem;
-        memset(conn->sm_state, 0, sizeof(*conn->sm_state));
-        conn->sm_state->ctx = conn->ctx;
-    }
+    if (_conn_sm_state_init(conn))
+        goto err_mem;
 
     if (altdomain != NULL)
         strophe_debug(conn->ctx, "conn", "Connecting via altdomain.");
@@ -766,6 +762,9 @@ int xmpp_connect_component(xmpp_conn_t *conn,
         return XMPP_EINT;
     }
 
+    if (_conn_sm_state_init(conn))
+        return XMPP_EMEM;
+
     port = port ? port : _conn_default_port(conn, XMPP_COMPONENT);
     if (conn->xsock)
         sock_free(conn->xsock);
@@ -1483,8 +1482,8 @@ static int sm_store_u32(unsigned char **next_,
 
 static size_t sm_state_serialize(xmpp_conn_t *conn, unsigned char **buf)
 {
-    if (!conn->sm_state->sm_support || !conn->sm_state->sm_enabled ||
-        !conn->sm_state->can_resume) {
+    if (!conn->sm_state || !conn->sm_state->sm_support ||
+        !conn->sm_state->sm_enabled || !conn->sm_state->can_resume) {
         *buf = NULL;
         return 0;
     }
@@ -1819,7 +1818,8 @@ char *xmpp_conn_send_queue_drop_element(xmpp_conn_t *conn,
     if (t->next && t->next->userdata == t) {
         strophe_free(conn->ctx, _drop_send_queue_element(conn, t->next));
         /* reset the flag, so we restart to send `<r>` stanzas */
-        conn->sm_state->r_sent = 0;
+        if (conn->sm_state)
+            conn->sm_state->r_sent = 0;
     }
     /* Finally drop the element */
     char *r = _drop_send_queue_element(conn, t);
@@ -2170,6 +2170,19 @@ static void _conn_reset(xmpp_conn_t *conn)
     handler_system_delete_all(conn);
 }
 
+/* every kind of connection needs the state, even if it can't use XEP-0198 */
+static int _conn_sm_state_init(xmpp_conn_t *conn)
+{
+    if (!conn->sm_state) {
+        conn->sm_state = strophe_alloc(conn->ctx, sizeof(*conn->sm_state));
+        if (!conn->sm_state)
+            return XMPP_EMEM;
+        memset(conn->sm_state, 0, sizeof(*conn->sm_state));
+        conn->sm_state->ctx = conn->ctx;
+    }
+    return XMPP_EOK;
+}
+
 static int _conn_connect(xmpp_conn_t *conn,
                          const char *domain,
                          xmpp_conn_type_t type,
-- 
2.43.0


From 385ec765eb133945e313d62773b0a41fdf702592 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:31:10 +0000
Subject: [PATCH 12/59] fix: keep the back links of the send queue valid

The new head still pointed to the element that was just sent and freed, and
elements of a restored queue had no back link at all. Dropping an element
followed these links.
---
 src/conn.c  | 1 +
 src/event.c | 2 ++
 2 files changed, 3 insertions(+)

diff --git a/src/conn.c b/src/conn.c
index a4d1924..9aa1a82 100644
--- a/src/conn.c
+++ b/src/conn.c
@@ -1423,6 +1423,7 @@ int xmpp_conn_restore_sm_state(xmpp_conn_t *conn,
             conn->send_queue_head = item;
             conn->send_queue_tail = item;
         } else {
+            item->prev = conn->send_queue_tail;
             conn->send_queue_tail->next = item;
             conn->send_queue_tail = item;
         }
diff --git a/src/event.c b/src/event.c
index 56d0a24..0c2d97b 100644
--- a/src/event.c
+++ b/src/event.c
@@ -174,6 +174,8 @@ void xmpp_run_once(xmpp_ctx_t *ctx, unsigned long timeout)
             /* if we've sent everything update the tail */
             if (!sq)
                 conn->send_queue_tail = NULL;
+            else
+                sq->prev = NULL;
             trigger_sm_callback(conn);
         }
         intf->flush(intf);
-- 
2.43.0


From 0f146f1537ae306d309b96908a4eed770b2fba1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:32:05 +0000
Subject: [PATCH 13/59] fix: deliver one disconnect notification per connection

conn_disconnect() was executed again, and handlers kept running, when more
elements followed in the same chunk of data, or when the cleanup timer was
still armed.
---
 src/conn.c | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/src/conn.c b/src/conn.c
index 9aa1a82..d33f84d 100644
--- a/src/conn.c
+++ b/src/conn.c
@@ -916,6 +916,10 @@ void conn_disconnect_clean(xmpp_conn_t *conn)
  */
 void conn_disconnect(xmpp_conn_t *conn)
 {
+    /* there is one notification per connection */
+    if (conn->state == XMPP_STATE_DISCONNECTED)
+        return;
+
     strophe_debug(conn->ctx, "xmpp", "Closing socket.");
     conn->state = XMPP_STATE_DISCONNECTED;
     conn->stream_negotiation_completed = 0;
@@ -1979,6 +1983,10 @@ static void _handle_stream_start(char *name, char **attrs, void *userdata)
     char *id;
     int failed = 0;
 
+    /* the rest of the data that was read before disconnect */
+    if (conn->state != XMPP_STATE_CONNECTED)
+        return;
+
     if (conn->stream_id)
         strophe_free(conn->ctx, conn->stream_id);
     conn->stream_id = NULL;
@@ -2015,6 +2023,10 @@ static void _handle_stream_end(char *name, void *userdata)
 
     UNUSED(name);
 
+    /* the rest of the data that was read before disconnect */
+    if (conn->state != XMPP_STATE_CONNECTED)
+        return;
+
     /* stream is over */
     strophe_debug(conn->ctx, "xmpp", "RECV: </stream:stream>");
     /* the session has been terminated properly, i.e. it can't be resumed */
@@ -2029,6 +2041,10 @@ static void _handle_stream_stanza(xmpp_stanza_t *stanza, void *userdata)
     char *buf;
     size_t len;
 
+    /* the rest of the data that was read before disconnect */
+    if (conn->state != XMPP_STATE_CONNECTED)
+        return;
+
     if (xmpp_stanza_to_text(stanza, &buf, &len) == 0) {
         strophe_debug(conn->ctx, "xmpp", "RECV: %s", buf);
         strophe_free(conn->ctx, buf);
-- 
2.43.0


From 1c4638bedf9d73a16b1531697b41dda8e506cbae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:32:06 +0000
Subject: [PATCH 14/59] fix: bound the time xmpp_disconnect() takes

While the TCP connection is being established there is no stream to close
and timed handlers don't run, so disconnect at once. Don't restart the
cleanup timer when the server opens its stream, and close the stream once.
---
 src/auth.c   | 10 +++++-----
 src/common.h |  1 +
 src/conn.c   | 13 ++++++++++---
 3 files changed, 16 insertions(+), 8 deletions(-)

diff --git a/src/auth.c b/src/auth.c
index 07650a6..781d528 100644
--- a/src/auth.c
+++ b/src/auth.c
@@ -935,8 +935,8 @@ static void _stream_negotiation_success(xmpp_conn_t *conn)
  */
 void auth_handle_open(xmpp_conn_t *conn)
 {
-    /* reset all timed handlers */
-    handler_reset_timed(conn, 0);
+    /* reset timed handlers of the user, but not a pending disconnect */
+    handler_reset_timed(conn, 1);
 
     /* setup handler for stream:error, we will keep this handler
      * for reopened streams until connection is disconnected */
@@ -1644,8 +1644,8 @@ void auth_handle_component_open(xmpp_conn_t *conn)
 {
     int rc;
 
-    /* reset all timed handlers */
-    handler_reset_timed(conn, 0);
+    /* reset timed handlers of the user, but not a pending disconnect */
+    handler_reset_timed(conn, 1);
 
     handler_add(conn, _handle_error, XMPP_NS_STREAMS, "error", NULL, NULL);
     handler_add(conn, _handle_component_hs_response, NULL, "handshake", NULL,
@@ -1754,7 +1754,7 @@ int _handle_missing_handshake(xmpp_conn_t *conn, void *userdata)
 
 void auth_handle_open_raw(xmpp_conn_t *conn)
 {
-    handler_reset_timed(conn, 0);
+    handler_reset_timed(conn, 1);
     /* user handlers are not called before stream negotiation has completed. */
     _stream_negotiation_success(conn);
 }
diff --git a/src/common.h b/src/common.h
index a367367..b4a6141 100644
--- a/src/common.h
+++ b/src/common.h
@@ -242,6 +242,7 @@ struct _xmpp_conn_t {
     int is_raw;
 
     xmpp_conn_state_t state;
+    int closing; /* set once we closed our stream */
     uint64_t timeout_stamp;
     int error;
     xmpp_stream_error_t *stream_error;
diff --git a/src/conn.c b/src/conn.c
index d33f84d..3e8cf3d 100644
--- a/src/conn.c
+++ b/src/conn.c
@@ -820,7 +820,7 @@ void conn_established(xmpp_conn_t *conn)
     }
 
     if (conn->is_raw) {
-        handler_reset_timed(conn, 0);
+        handler_reset_timed(conn, 1);
         /* we skip all the mandatory steps of the stream negotiation for a "raw"
            connection, but the event loop ignores user's handlers when
            conn->stream_negotiation_completed is not set. */
@@ -963,10 +963,16 @@ void conn_parser_reset(xmpp_conn_t *conn)
  */
 void xmpp_disconnect(xmpp_conn_t *conn)
 {
-    if (conn->state != XMPP_STATE_CONNECTING &&
-        conn->state != XMPP_STATE_CONNECTED)
+    if (conn->state == XMPP_STATE_CONNECTING) {
+        /* there is no stream to close yet */
+        conn_disconnect(conn);
+        return;
+    }
+    if (conn->state != XMPP_STATE_CONNECTED || conn->closing)
         return;
 
+    conn->closing = 1;
+
     /* close the stream */
     send_raw_string(conn, "</stream:stream>");
 
@@ -2175,6 +2181,7 @@ static void _conn_reset(xmpp_conn_t *conn)
     strophe_free_and_null(ctx, conn->bound_jid);
     strophe_free_and_null(ctx, conn->stream_id);
     conn->stream_negotiation_completed = 0;
+    conn->closing = 0;
     conn->secured = 0;
     conn->tls_failed = 0;
     conn->error = 0;
-- 
2.43.0


From 2017f049d08895c86aa6fe75cbee2eb2f8dd3ef2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:32:06 +0000
Subject: [PATCH 15/59] fix: close the stream after an XML parse error

The parser doesn't accept any data after an error, so the connection was
neither usable nor closed. Also don't print the buffer past its end.
---
 src/event.c | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/src/event.c b/src/event.c
index 0c2d97b..52a2311 100644
--- a/src/event.c
+++ b/src/event.c
@@ -314,11 +314,18 @@ next_item:
                 ret = intf->read(intf, buf, STROPHE_MESSAGE_BUFFER_SIZE);
 
                 if (ret > 0) {
-                    ret = parser_feed(conn->parser, buf, ret);
-                    if (!ret) {
-                        strophe_debug(ctx, "xmpp", "parse error [%s]", buf);
+                    int len = ret;
+                    ret = parser_feed(conn->parser, buf, len);
+                    /* the connection may be closed, or even reconnected by the
+                       user, while the data was processed */
+                    if (!ret && conn->state == XMPP_STATE_CONNECTED &&
+                        !conn->closing) {
+                        strophe_debug(ctx, "xmpp", "parse error [%.*s]", len,
+                                      buf);
                         xmpp_send_error(conn, XMPP_SE_INVALID_XML,
                                         "parse error");
+                        /* the parser can't recover */
+                        xmpp_disconnect(conn);
                     }
                 } else {
                     int err = intf->get_error(intf);
-- 
2.43.0


From 61b976483fc93b96d08248c5c6a72cbb285d1b16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:34:49 +0000
Subject: [PATCH 16/59] fix: let handlers delete any handler while they run

A handler that deleted itself, or a handler that follows in the list (also
indirectly, when reconnecting deletes system handlers), left the dispatchers
with a pointer to freed memory. Besides, a stanza handler that was added by
an id handler saw the stanza being dispatched.
---
 src/common.h  |   4 ++
 src/handler.c | 191 ++++++++++++++++++++++++++++----------------------
 2 files changed, 111 insertions(+), 84 deletions(-)

diff --git a/src/common.h b/src/common.h
index b4a6141..5e0ac7c 100644
--- a/src/common.h
+++ b/src/common.h
@@ -45,7 +45,9 @@ struct _xmpp_handlist_t {
     int enabled; /* handlers are added disabled and enabled after the
                   * handler chain is processed to prevent stanzas from
                   * getting processed by newly added handlers */
+    int deleted; /* deleted while handlers are running */
     xmpp_handlist_t *next;
+    xmpp_handlist_t *gc_next;
 
     union {
         /* timed handlers */
@@ -88,6 +90,8 @@ struct _xmpp_ctx_t {
     xmpp_loop_status_t loop_status;
     xmpp_connlist_t *connlist;
     xmpp_handlist_t *timed_handlers;
+    unsigned int handlers_busy;   /* number of running dispatchers */
+    xmpp_handlist_t *handlers_gc; /* items to free when they are done */
 
     unsigned long timeout;
 };
diff --git a/src/handler.c b/src/handler.c
index 0577252..9ae7724 100644
--- a/src/handler.c
+++ b/src/handler.c
@@ -45,6 +45,38 @@ static void _handler_item_remove(xmpp_handlist_t **head, xmpp_handlist_t *item)
     }
 }
 
+/* Free an item that is removed from its list. Handlers may delete any handler,
+ * including themselves, while dispatchers below hold a pointer to it. In this
+ * case memory is kept, with its "next" pointer, until dispatchers are done. */
+static void _handler_item_free(xmpp_ctx_t *ctx, xmpp_handlist_t *item)
+{
+    if (ctx->handlers_busy == 0) {
+        strophe_free(ctx, item);
+        return;
+    }
+    item->deleted = 1;
+    item->gc_next = ctx->handlers_gc;
+    ctx->handlers_gc = item;
+}
+
+static void _dispatch_begin(xmpp_ctx_t *ctx)
+{
+    ++ctx->handlers_busy;
+}
+
+static void _dispatch_end(xmpp_ctx_t *ctx)
+{
+    xmpp_handlist_t *item;
+
+    if (--ctx->handlers_busy > 0)
+        return;
+
+    while ((item = ctx->handlers_gc) != NULL) {
+        ctx->handlers_gc = item->gc_next;
+        strophe_free(ctx, item);
+    }
+}
+
 static void _free_handlist_item(xmpp_ctx_t *ctx, xmpp_handlist_t *item)
 {
     if (item->u.ns)
@@ -53,7 +85,18 @@ static void _free_handlist_item(xmpp_ctx_t *ctx, xmpp_handlist_t *item)
         strophe_free(ctx, item->u.name);
     if (item->u.type)
         strophe_free(ctx, item->u.type);
-    strophe_free(ctx, item);
+    _handler_item_free(ctx, item);
+}
+
+/* replace list of handlers for the id */
+static void
+_id_handlers_set(xmpp_conn_t *conn, const char *id, xmpp_handlist_t *head)
+{
+    /* hash_add() replaces value if the key exists */
+    if (head != NULL)
+        hash_add(conn->id_handlers, id, head);
+    else
+        hash_drop(conn->id_handlers, id);
 }
 
 /** Fire off all stanza handlers that match.
@@ -65,42 +108,39 @@ static void _free_handlist_item(xmpp_ctx_t *ctx, xmpp_handlist_t *item)
  */
 void handler_fire_stanza(xmpp_conn_t *conn, xmpp_stanza_t *stanza)
 {
-    xmpp_handlist_t *item, *next, *head, *head_old;
+    xmpp_handlist_t *item, *head, *head_old;
     const char *id, *ns, *name, *type;
     int ret;
 
-    /* call id handlers */
     id = xmpp_stanza_get_id(stanza);
-    if (id) {
-        head = (xmpp_handlist_t *)hash_get(conn->id_handlers, id);
-        /* enable all added handlers */
-        for (item = head; item; item = item->next)
-            item->enabled = 1;
+    head = id ? (xmpp_handlist_t *)hash_get(conn->id_handlers, id) : NULL;
 
-        item = head;
-        while (item) {
-            /* don't fire user handlers until stream negotiation has completed
-               and skip newly added handlers */
-            if ((item->user_handler && !conn->stream_negotiation_completed) ||
-                !item->enabled) {
-                item = item->next;
-                continue;
-            }
+    /* enable all added handlers */
+    for (item = head; item; item = item->next)
+        item->enabled = 1;
+    for (item = conn->handlers; item; item = item->next)
+        item->enabled = 1;
 
-            ret = ((xmpp_handler)(item->handler))(conn, stanza, item->userdata);
-            next = item->next;
-            if (!ret) {
-                /* handler is one-shot, so delete it */
-                head_old = head;
-                _handler_item_remove(&head, item);
-                if (head != head_old) {
-                    /* replace old value */
-                    hash_add(conn->id_handlers, id, head);
-                }
-                strophe_free(conn->ctx, item->u.id);
-                strophe_free(conn->ctx, item);
-            }
-            item = next;
+    _dispatch_begin(conn->ctx);
+
+    /* call id handlers */
+    for (item = head; item; item = item->next) {
+        /* don't fire user handlers until stream negotiation has completed
+           and skip newly added and deleted handlers */
+        if ((item->user_handler && !conn->stream_negotiation_completed) ||
+            !item->enabled || item->deleted)
+            continue;
+
+        ret = ((xmpp_handler)(item->handler))(conn, stanza, item->userdata);
+        if (!ret && !item->deleted) {
+            /* handler is one-shot, so delete it */
+            head = head_old =
+                (xmpp_handlist_t *)hash_get(conn->id_handlers, id);
+            _handler_item_remove(&head, item);
+            if (head != head_old)
+                _id_handlers_set(conn, id, head);
+            strophe_free(conn->ctx, item->u.id);
+            _handler_item_free(conn->ctx, item);
         }
     }
 
@@ -109,37 +149,28 @@ void handler_fire_stanza(xmpp_conn_t *conn, xmpp_stanza_t *stanza)
     name = xmpp_stanza_get_name(stanza);
     type = xmpp_stanza_get_type(stanza);
 
-    /* enable all added handlers */
-    for (item = conn->handlers; item; item = item->next)
-        item->enabled = 1;
-
-    item = conn->handlers;
-    while (item) {
+    for (item = conn->handlers; item; item = item->next) {
         /* don't fire user handlers until stream negotiation has completed and
-           skip newly added handlers */
+           skip newly added and deleted handlers */
         if ((item->user_handler && !conn->stream_negotiation_completed) ||
-            !item->enabled) {
-            item = item->next;
+            !item->enabled || item->deleted)
             continue;
-        }
 
-        next = item->next;
         if ((!item->u.ns || (ns && strcmp(ns, item->u.ns) == 0) ||
              xmpp_stanza_get_child_by_ns(stanza, item->u.ns)) &&
             (!item->u.name || (name && strcmp(name, item->u.name) == 0)) &&
             (!item->u.type || (type && strcmp(type, item->u.type) == 0))) {
 
             ret = ((xmpp_handler)(item->handler))(conn, stanza, item->userdata);
-            /* list may be changed during execution of a handler */
-            next = item->next;
-            if (!ret) {
+            if (!ret && !item->deleted) {
                 /* handler is one-shot, so delete it */
                 _handler_item_remove(&conn->handlers, item);
                 _free_handlist_item(conn->ctx, item);
             }
         }
-        item = next;
     }
+
+    _dispatch_end(conn->ctx);
 }
 
 /** Fire off all timed handlers that are ready.
@@ -152,7 +183,7 @@ void handler_fire_stanza(xmpp_conn_t *conn, xmpp_stanza_t *stanza)
 uint64_t handler_fire_timed(xmpp_ctx_t *ctx)
 {
     xmpp_connlist_t *connitem;
-    xmpp_handlist_t *item, *next;
+    xmpp_handlist_t *item;
     xmpp_conn_t *conn;
     uint64_t elapsed, min;
     uint64_t timestamp;
@@ -160,6 +191,8 @@ uint64_t handler_fire_timed(xmpp_ctx_t *ctx)
 
     min = (uint64_t)(-1);
 
+    _dispatch_begin(ctx);
+
     connitem = ctx->connlist;
     while (connitem) {
         conn = connitem->conn;
@@ -172,34 +205,30 @@ uint64_t handler_fire_timed(xmpp_ctx_t *ctx)
         for (item = conn->timed_handlers; item; item = item->next)
             item->enabled = 1;
 
-        item = conn->timed_handlers;
-        while (item) {
+        for (item = conn->timed_handlers; item; item = item->next) {
+            /* a handler may disconnect */
+            if (conn->state != XMPP_STATE_CONNECTED)
+                break;
+
             /* don't fire user handlers until stream negotiation has completed
-               and skip newly added handlers */
+               and skip newly added and deleted handlers */
             if ((item->user_handler && !conn->stream_negotiation_completed) ||
-                !item->enabled) {
-                item = item->next;
+                !item->enabled || item->deleted)
                 continue;
-            }
 
-            next = item->next;
             timestamp = time_stamp();
             elapsed = time_elapsed(item->u.last_stamp, timestamp);
             if (elapsed >= item->u.period) {
                 /* fire! */
                 item->u.last_stamp = timestamp;
                 ret = ((xmpp_timed_handler)item->handler)(conn, item->userdata);
-                /* list may be changed during execution of a handler */
-                next = item->next;
-                if (!ret) {
+                if (!ret && !item->deleted) {
                     /* delete handler if it returned false */
                     _handler_item_remove(&conn->timed_handlers, item);
-                    strophe_free(ctx, item);
+                    _handler_item_free(ctx, item);
                 }
             } else if (min > (item->u.period - elapsed))
                 min = item->u.period - elapsed;
-
-            item = next;
         }
 
         connitem = connitem->next;
@@ -210,9 +239,10 @@ uint64_t handler_fire_timed(xmpp_ctx_t *ctx)
      * regardless of connections state.
      * TODO Reduce copy-paste.
      */
-    item = ctx->timed_handlers;
-    while (item) {
-        next = item->next;
+    for (item = ctx->timed_handlers; item; item = item->next) {
+        if (item->deleted)
+            continue;
+
         timestamp = time_stamp();
         elapsed = time_elapsed(item->u.last_stamp, timestamp);
         if (elapsed >= item->u.period) {
@@ -220,19 +250,17 @@ uint64_t handler_fire_timed(xmpp_ctx_t *ctx)
             item->u.last_stamp = timestamp;
             ret =
                 ((xmpp_global_timed_handler)item->handler)(ctx, item->userdata);
-            /* list may be changed during execution of a handler */
-            next = item->next;
-            if (!ret) {
+            if (!ret && !item->deleted) {
                 /* delete handler if it returned false */
                 _handler_item_remove(&ctx->timed_handlers, item);
-                strophe_free(ctx, item);
+                _handler_item_free(ctx, item);
             }
         } else if (min > (item->u.period - elapsed))
             min = item->u.period - elapsed;
-
-        item = next;
     }
 
+    _dispatch_end(ctx);
+
     return min;
 }
 
@@ -283,6 +311,7 @@ static void _timed_handler_add(xmpp_ctx_t *ctx,
     item->handler = handler;
     item->userdata = userdata;
     item->enabled = 0;
+    item->deleted = 0;
 
     item->u.period = period;
     item->u.last_stamp = time_stamp();
@@ -302,7 +331,7 @@ static void _timed_handler_delete(xmpp_ctx_t *ctx,
         item = *handlers_list;
         if (item->handler == handler) {
             *handlers_list = item->next;
-            strophe_free(ctx, item);
+            _handler_item_free(ctx, item);
         } else {
             handlers_list = &item->next;
         }
@@ -350,6 +379,7 @@ static void _id_handler_add(xmpp_conn_t *conn,
     item->handler = handler;
     item->userdata = userdata;
     item->enabled = 0;
+    item->deleted = 0;
     item->next = NULL;
 
     item->u.id = strophe_strdup(conn->ctx, id);
@@ -394,13 +424,11 @@ void xmpp_id_handler_delete(xmpp_conn_t *conn,
         if (item->handler == handler) {
             if (prev)
                 prev->next = next;
-            else {
-                hash_drop(conn->id_handlers, id);
-                hash_add(conn->id_handlers, id, next);
-            }
+            else
+                _id_handlers_set(conn, id, next);
 
             strophe_free(conn->ctx, item->u.id);
-            strophe_free(conn->ctx, item);
+            _handler_item_free(conn->ctx, item);
             item = next;
         } else {
             prev = item;
@@ -673,7 +701,7 @@ void handler_system_delete_all(xmpp_conn_t *conn)
         if (!item->user_handler) {
             next = item->next;
             _handler_item_remove(&conn->timed_handlers, item);
-            strophe_free(conn->ctx, item);
+            _handler_item_free(conn->ctx, item);
             item = next;
         } else
             item = item->next;
@@ -689,7 +717,7 @@ void handler_system_delete_all(xmpp_conn_t *conn)
                 next = item->next;
                 _handler_item_remove(&head, item);
                 strophe_free(conn->ctx, item->u.id);
-                strophe_free(conn->ctx, item);
+                _handler_item_free(conn->ctx, item);
                 item = next;
             } else
                 item = item->next;
@@ -698,13 +726,8 @@ void handler_system_delete_all(xmpp_conn_t *conn)
            key before dropping current one. Otherwise, we will get access to
            freed memory. */
         key2 = hash_iter_next(iter);
-        if (head != head_old) {
-            /* hash_add() replaces value if the key exists */
-            if (head != NULL)
-                hash_add(conn->id_handlers, key, head);
-            else
-                hash_drop(conn->id_handlers, key);
-        }
+        if (head != head_old)
+            _id_handlers_set(conn, key, head);
         key = key2;
     }
     if (iter)
-- 
2.43.0


From 8af3940c73fd806bba9d16a8c2bbeb4f36b7060d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:34:49 +0000
Subject: [PATCH 17/59] fix: forget the features of the previous connection on
 reconnect

SASL mechanisms and compression methods offered by the server of the
previous connection were used even if they weren't offered again.
---
 src/conn.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/conn.c b/src/conn.c
index 3e8cf3d..a659f0e 100644
--- a/src/conn.c
+++ b/src/conn.c
@@ -2187,6 +2187,8 @@ static void _conn_reset(xmpp_conn_t *conn)
     conn->error = 0;
 
     conn->tls_support = 0;
+    conn->sasl_support = 0;
+    conn->compression.supported = 0;
 
     conn->bind_required = 0;
     conn->session_required = 0;
-- 
2.43.0


From 4147a4bf2299ecacd724d8615d8d553d4f3c02fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:34:49 +0000
Subject: [PATCH 18/59] fix: refuse to connect a connected object without
 changing it

The candidates of the running attempt were replaced, and a refused or
finished raw connection turned the next client connection into a raw one.
---
 src/conn.c | 27 +++++++++++++++++++++++++--
 1 file changed, 25 insertions(+), 2 deletions(-)

diff --git a/src/conn.c b/src/conn.c
index a659f0e..711724e 100644
--- a/src/conn.c
+++ b/src/conn.c
@@ -104,6 +104,12 @@ static unsigned short _conn_default_port(xmpp_conn_t *conn,
                                          xmpp_conn_type_t type);
 static void _conn_reset(xmpp_conn_t *conn);
 static int _conn_sm_state_init(xmpp_conn_t *conn);
+static int _connect_client(xmpp_conn_t *conn,
+                           const char *altdomain,
+                           unsigned short altport,
+                           xmpp_conn_handler callback,
+                           void *userdata,
+                           int is_raw);
 static int _conn_connect(xmpp_conn_t *conn,
                          const char *domain,
                          xmpp_conn_type_t type,
@@ -663,10 +669,23 @@ int xmpp_connect_client(xmpp_conn_t *conn,
                         unsigned short altport,
                         xmpp_conn_handler callback,
                         void *userdata)
+{
+    return _connect_client(conn, altdomain, altport, callback, userdata, 0);
+}
+
+static int _connect_client(xmpp_conn_t *conn,
+                           const char *altdomain,
+                           unsigned short altport,
+                           xmpp_conn_handler callback,
+                           void *userdata,
+                           int is_raw)
 {
     char *domain;
     int rc;
 
+    if (conn->state != XMPP_STATE_DISCONNECTED)
+        return XMPP_EINVOP;
+
     if (!conn->jid && (conn->tls_client_cert || conn->tls_client_key)) {
         if (tls_id_on_xmppaddr_num(conn) != 1) {
             strophe_debug(conn->ctx, "xmpp",
@@ -709,6 +728,7 @@ int xmpp_connect_client(xmpp_conn_t *conn,
     if (!conn->xsock)
         goto err_mem;
 
+    conn->is_raw = is_raw;
     rc = _conn_connect(conn, domain, XMPP_CLIENT, callback, userdata);
     strophe_free(conn->ctx, domain);
 
@@ -752,6 +772,9 @@ int xmpp_connect_component(xmpp_conn_t *conn,
     if (!(server && conn->jid && conn->pass))
         return XMPP_EINVOP;
 
+    if (conn->state != XMPP_STATE_DISCONNECTED)
+        return XMPP_EINVOP;
+
     /* XEP-0114 does not support TLS */
     (void)xmpp_conn_set_flags(conn, xmpp_conn_get_flags(conn) |
                                         XMPP_CONN_FLAG_DISABLE_TLS);
@@ -772,6 +795,7 @@ int xmpp_connect_component(xmpp_conn_t *conn,
     if (!conn->xsock)
         return XMPP_EMEM;
 
+    conn->is_raw = 0;
     /* JID serves as an identifier here and will be used as "to" attribute
        of the stream */
     return _conn_connect(conn, conn->jid, XMPP_COMPONENT, callback, userdata);
@@ -804,8 +828,7 @@ int xmpp_connect_raw(xmpp_conn_t *conn,
                      xmpp_conn_handler callback,
                      void *userdata)
 {
-    conn->is_raw = 1;
-    return xmpp_connect_client(conn, altdomain, altport, callback, userdata);
+    return _connect_client(conn, altdomain, altport, callback, userdata, 1);
 }
 
 /* Called when tcp connection is established. */
-- 
2.43.0


From ba06c9ab6c7d4f245ee86da4f93654a1ab2e519c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:34:49 +0000
Subject: [PATCH 19/59] fix: don't send user data with xmpp_send_raw() during
 negotiation

The other functions of this kind already wait until the stream is
negotiated.
---
 src/conn.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/conn.c b/src/conn.c
index 711724e..74266bb 100644
--- a/src/conn.c
+++ b/src/conn.c
@@ -1042,6 +1042,9 @@ void xmpp_send_raw_string(xmpp_conn_t *conn, const char *fmt, ...)
  */
 void xmpp_send_raw(xmpp_conn_t *conn, const char *data, size_t len)
 {
+    if (!_is_connected(conn, XMPP_QUEUE_USER))
+        return;
+
     send_raw(conn, data, len, XMPP_QUEUE_USER, NULL);
 }
 
-- 
2.43.0


From cf3b7ce4ae997994f4e416f533244529847f2ad9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:35:13 +0000
Subject: [PATCH 20/59] fix: don't crash on a stream error without children

---
 src/auth.c | 10 +++-------
 1 file changed, 3 insertions(+), 7 deletions(-)

diff --git a/src/auth.c b/src/auth.c
index 781d528..f06508c 100644
--- a/src/auth.c
+++ b/src/auth.c
@@ -128,12 +128,8 @@ _handle_error(xmpp_conn_t *conn, xmpp_stanza_t *stanza, void *userdata)
 
     if (conn->stream_error) {
         child = xmpp_stanza_get_children(stanza);
-        do {
-            const char *ns = NULL;
-
-            if (child) {
-                ns = xmpp_stanza_get_ns(child);
-            }
+        for (; child; child = xmpp_stanza_get_next(child)) {
+            const char *ns = xmpp_stanza_get_ns(child);
 
             if (ns && strcmp(ns, XMPP_NS_STREAMS_IETF) == 0) {
                 name = xmpp_stanza_get_name(child);
@@ -191,7 +187,7 @@ _handle_error(xmpp_conn_t *conn, xmpp_stanza_t *stanza, void *userdata)
                          strcmp(name, "xml-not-well-formed") == 0)
                     conn->stream_error->type = XMPP_SE_XML_NOT_WELL_FORMED;
             }
-        } while ((child = xmpp_stanza_get_next(child)));
+        }
 
         conn->stream_error->stanza = xmpp_stanza_clone(stanza);
     }
-- 
2.43.0


From fc1db0b51c0895b360260fbb1ea5486751464b2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:35:13 +0000
Subject: [PATCH 21/59] fix: don't authenticate again if features are missing
 after SASL

With compression allowed the timeout handler of the unauthenticated stream
was used, which starts (legacy) authentication instead of disconnecting.
---
 src/auth.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/auth.c b/src/auth.c
index f06508c..1d2b9a8 100644
--- a/src/auth.c
+++ b/src/auth.c
@@ -941,7 +941,8 @@ void auth_handle_open(xmpp_conn_t *conn)
     /* setup handlers for incoming <stream:features> */
     handler_add(conn, _handle_features, XMPP_NS_STREAMS, "features", NULL,
                 NULL);
-    handler_add_timed(conn, _handle_missing_features, FEATURES_TIMEOUT, NULL);
+    handler_add_timed(conn, _handle_missing_features_sasl, FEATURES_TIMEOUT,
+                      NULL);
 }
 
 /* called when stream:stream tag received after TLS establishment */
@@ -1068,7 +1069,7 @@ static int _handle_features_compress(xmpp_conn_t *conn,
     xmpp_stanza_t *child;
 
     /* remove missing features handler */
-    xmpp_timed_handler_delete(conn, _handle_missing_features);
+    xmpp_timed_handler_delete(conn, _handle_missing_features_sasl);
 
     /* check for compression */
     child = xmpp_stanza_get_child_by_name_and_ns(stanza, "compression",
-- 
2.43.0


From dee24bc1b8830dfbf79b63f108f734ff612c595e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:35:13 +0000
Subject: [PATCH 22/59] fix: expect a handshake reply only after the handshake
 was sent

Without a stream id there is no handshake, but <handshake/> from the server
still made the connection look established.
---
 src/auth.c | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/auth.c b/src/auth.c
index 1d2b9a8..92b9bd6 100644
--- a/src/auth.c
+++ b/src/auth.c
@@ -1645,15 +1645,17 @@ void auth_handle_component_open(xmpp_conn_t *conn)
     handler_reset_timed(conn, 1);
 
     handler_add(conn, _handle_error, XMPP_NS_STREAMS, "error", NULL, NULL);
-    handler_add(conn, _handle_component_hs_response, NULL, "handshake", NULL,
-                NULL);
-    handler_add_timed(conn, _handle_missing_handshake, HANDSHAKE_TIMEOUT, NULL);
 
     rc = _handle_component_auth(conn);
     if (rc != 0) {
         strophe_error(conn->ctx, "auth", "Component authentication failed.");
         xmpp_disconnect(conn);
+        return;
     }
+
+    handler_add(conn, _handle_component_hs_response, NULL, "handshake", NULL,
+                NULL);
+    handler_add_timed(conn, _handle_missing_handshake, HANDSHAKE_TIMEOUT, NULL);
 }
 
 /* Will compute SHA1 and authenticate the component to the server */
-- 
2.43.0


From b4c3ef0f090bb9c05af5a89799d3eb3f342b7ee3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:38:57 +0000
Subject: [PATCH 23/59] fix: let xmpp_send_raw() queue when no negotiation was
 started

This keeps test_send_queue and test_serialize_sm working, they use
connections which never went through a negotiation.
---
 src/conn.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/conn.c b/src/conn.c
index 74266bb..d797318 100644
--- a/src/conn.c
+++ b/src/conn.c
@@ -1042,7 +1042,8 @@ void xmpp_send_raw_string(xmpp_conn_t *conn, const char *fmt, ...)
  */
 void xmpp_send_raw(xmpp_conn_t *conn, const char *data, size_t len)
 {
-    if (!_is_connected(conn, XMPP_QUEUE_USER))
+    /* the open handler is set when the stream negotiation starts */
+    if (conn->open_handler && !_is_connected(conn, XMPP_QUEUE_USER))
         return;
 
     send_raw(conn, data, len, XMPP_QUEUE_USER, NULL);
-- 
2.43.0


From c17ad1d54eb61e77c41ebc9f0033e5a20a460ce2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:40:10 +0000
Subject: [PATCH 24/59] fix: ignore stream features that come after the timeout

---
 src/auth.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/auth.c b/src/auth.c
index 92b9bd6..31e7510 100644
--- a/src/auth.c
+++ b/src/auth.c
@@ -90,6 +90,8 @@ static int _handle_scram_challenge(xmpp_conn_t *conn,
 struct scram_user_data;
 static int _make_scram_init_msg(struct scram_user_data *scram);
 
+static int
+_handle_features(xmpp_conn_t *conn, xmpp_stanza_t *stanza, void *userdata);
 static int _handle_missing_features_sasl(xmpp_conn_t *conn, void *userdata);
 static int _handle_missing_bind(xmpp_conn_t *conn, void *userdata);
 static int
@@ -202,6 +204,9 @@ static int _handle_missing_features(xmpp_conn_t *conn, void *userdata)
 
     strophe_debug(conn->ctx, "xmpp", "didn't get stream features");
 
+    /* it's too late for them, the negotiation goes on without features */
+    xmpp_handler_delete(conn, _handle_features);
+
     /* legacy auth will be attempted */
     _auth(conn);
 
-- 
2.43.0


From 54f3d02f92d6a1ac1c8a2298e420f4fb46afcfd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:40:10 +0000
Subject: [PATCH 25/59] fix: handle the replies to <enable/> and <resume/>
 according to XEP-0198

The value of the resume attribute was compared the wrong way around, the
retransmission after <resumed/> was counted from the wrong stanza, a
<failed/> reply or unexpected elements left the negotiation in limbo, and
<failed/> without 'h' dropped the stanzas which weren't acknowledged.
---
 src/auth.c | 81 +++++++++++++++++++++++++++++++++---------------------
 1 file changed, 49 insertions(+), 32 deletions(-)

diff --git a/src/auth.c b/src/auth.c
index 31e7510..456dd05 100644
--- a/src/auth.c
+++ b/src/auth.c
@@ -1145,8 +1145,9 @@ _handle_features_sasl(xmpp_conn_t *conn, xmpp_stanza_t *stanza, void *userdata)
        XMPP style connection or we <resume/> the previous session */
 
     /* Check whether we can <resume/> the previous session */
-    if (!conn->sm_disable && conn->sm_state->can_resume &&
-        conn->sm_state->previd && conn->sm_state->bound_jid) {
+    if (!conn->sm_disable && conn->sm_state->sm_support &&
+        conn->sm_state->can_resume && conn->sm_state->previd &&
+        conn->sm_state->bound_jid) {
         resume = xmpp_stanza_new(conn->ctx);
         if (!resume) {
             disconnect_mem_error(conn);
@@ -1391,7 +1392,7 @@ static int _handle_sm(xmpp_conn_t *const conn,
                       xmpp_stanza_t *const stanza,
                       void *const userdata)
 {
-    xmpp_stanza_t *failed_cause, *bind = NULL;
+    xmpp_stanza_t *failed_cause, *bind;
     const char *name, *id, *previd, *resume, *cause;
     unsigned long ul_h = 0;
 
@@ -1401,10 +1402,11 @@ static int _handle_sm(xmpp_conn_t *const conn,
     if (!name)
         goto err_sm;
 
-    if (strcmp(name, "enabled") == 0) {
+    if (strcmp(name, "enabled") == 0 && !conn->sm_state->resume) {
         conn->sm_state->sm_handled_nr = 0;
         resume = xmpp_stanza_get_attribute(stanza, "resume");
-        if (resume && (strcasecmp(resume, "true") || strcmp(resume, "1"))) {
+        if (resume &&
+            (strcasecmp(resume, "true") == 0 || strcmp(resume, "1") == 0)) {
             id = xmpp_stanza_get_attribute(stanza, "id");
             if (!id) {
                 strophe_error(conn->ctx, "xmpp",
@@ -1413,8 +1415,9 @@ static int _handle_sm(xmpp_conn_t *const conn,
                 name = NULL;
                 goto err_sm;
             }
-            conn->sm_state->can_resume = 1;
+            strophe_free_and_null(conn->ctx, conn->sm_state->id);
             conn->sm_state->id = strophe_strdup(conn->ctx, id);
+            conn->sm_state->can_resume = conn->sm_state->id != NULL;
         }
         /* We maybe have stuff in the SM queue if we tried to resume, but the
          * server doesn't remember all details of our session, but the `h` was
@@ -1422,7 +1425,7 @@ static int _handle_sm(xmpp_conn_t *const conn,
          */
         _sm_queue_resend(conn);
         _stream_negotiation_success(conn);
-    } else if (strcmp(name, "resumed") == 0) {
+    } else if (strcmp(name, "resumed") == 0 && conn->sm_state->resume) {
         previd = xmpp_stanza_get_attribute(stanza, "previd");
         if (!previd || strcmp(previd, conn->sm_state->previd)) {
             strophe_error(conn->ctx, "xmpp",
@@ -1436,46 +1439,49 @@ static int _handle_sm(xmpp_conn_t *const conn,
             goto err_sm;
         }
         conn->sm_state->sm_enabled = 1;
+        conn->sm_state->resume = 0;
+        if (conn->sm_state->bind)
+            xmpp_stanza_release(conn->sm_state->bind);
+        conn->sm_state->bind = NULL;
         conn->sm_state->id = conn->sm_state->previd;
         conn->sm_state->previd = NULL;
         conn->bound_jid = conn->sm_state->bound_jid;
         conn->sm_state->bound_jid = NULL;
+        /* retransmitted stanzas are counted from what the server has */
+        _sm_queue_cleanup(conn, ul_h);
         if (conn->sm_state->sm_queue.head)
             conn->sm_state->sm_sent_nr = conn->sm_state->sm_queue.head->sm_h;
         else
             conn->sm_state->sm_sent_nr = ul_h;
-        _sm_queue_cleanup(conn, ul_h);
         _sm_queue_resend(conn);
         strophe_debug(conn->ctx, "xmpp", "Session resumed successfully.");
         _stream_negotiation_success(conn);
     } else if (strcmp(name, "failed") == 0) {
-        name = NULL;
         conn->sm_state->sm_enabled = 0;
+        conn->sm_state->can_resume = 0;
 
         failed_cause =
             xmpp_stanza_get_child_by_ns(stanza, XMPP_NS_STANZAS_IETF);
-        if (!failed_cause)
-            goto err_sm;
+        cause = failed_cause ? xmpp_stanza_get_name(failed_cause) : NULL;
 
-        cause = xmpp_stanza_get_name(failed_cause);
-        if (!cause)
-            goto err_sm;
+        if (!conn->sm_state->resume) {
+            /* <enable/> was refused, go on without stream management */
+            _sm_queue_resend(conn);
+            _stream_negotiation_success(conn);
+            trigger_sm_callback(conn);
+            return 0;
+        }
+        conn->sm_state->resume = 0;
 
-        if (!strcmp(cause, "item-not-found")) {
-            if (conn->sm_state->resume) {
-                /* It's no error if there's no `h` attribute included
-                 * but if there is, it gives a hint at what the server
-                 * already received.
-                 */
-                if (!_get_h_attribute(stanza, &ul_h)) {
-                    /* In cases there's no `h` included, drop all elements. */
-                    ul_h = (unsigned long)-1;
-                }
-                _sm_queue_cleanup(conn, ul_h);
-            }
-        } else if (!strcmp(cause, "feature-not-implemented")) {
-            conn->sm_state->resume = 0;
-            conn->sm_state->can_resume = 0;
+        /* It's no error if there's no `h` attribute included
+         * but if there is, it gives a hint at what the server
+         * already received.
+         */
+        if (xmpp_stanza_get_attribute(stanza, "h") &&
+            _get_h_attribute(stanza, &ul_h) == 0)
+            _sm_queue_cleanup(conn, ul_h);
+
+        if (cause && !strcmp(cause, "feature-not-implemented")) {
             /* remember that the server reports having support
              * for resumption, but actually it doesn't ...
              */
@@ -1484,7 +1490,17 @@ static int _handle_sm(xmpp_conn_t *const conn,
         bind = conn->sm_state->bind;
         conn->sm_state->bind = NULL;
         reset_sm_state(conn->sm_state);
-        _do_bind(conn, bind);
+        if (bind) {
+            _do_bind(conn, bind);
+        } else {
+            strophe_error(conn->ctx, "xmpp",
+                          "Resumption failed and stream features does not "
+                          "allow resource bind.");
+            xmpp_disconnect(conn);
+        }
+    } else if (strcmp(name, "r") == 0 || strcmp(name, "a") == 0) {
+        /* that's not the answer to our request */
+        return 1;
     } else {
         /* unknown stanza received */
         name = NULL;
@@ -1511,8 +1527,9 @@ err_sm:
                      buf);
         if (buf != err)
             strophe_free(conn->ctx, buf);
-        /* Don't disable for <failure> cases, they're no hard errors */
-        conn->sm_state->sm_enabled = bind != NULL;
+        conn->sm_state->sm_enabled = 0;
+        /* the negotiation can't be completed anymore */
+        xmpp_disconnect(conn);
     }
     return 0;
 }
-- 
2.43.0


From 64a2bc1f7bef2af999d7678f24fbab3eb5ae1211 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:42:28 +0000
Subject: [PATCH 26/59] fix: refuse broken SM states without touching the
 connection

---
 src/conn.c | 53 +++++++++++++++++++++++++++++++++++------------------
 1 file changed, 35 insertions(+), 18 deletions(-)

diff --git a/src/conn.c b/src/conn.c
index d797318..c8d0d03 100644
--- a/src/conn.c
+++ b/src/conn.c
@@ -1323,6 +1323,11 @@ struct sm_restore {
 
 static int sm_load_u32(struct sm_restore *sm, uint8_t type, uint32_t *val)
 {
+    if (sm->state_end - sm->state < 5) {
+        strophe_error(sm->conn->ctx, "conn",
+                      "Provided sm_state data is too short");
+        return XMPP_EINVOP;
+    }
     if (*sm->state != type) {
         strophe_error(
             sm->conn->ctx, "conn",
@@ -1331,11 +1336,6 @@ static int sm_load_u32(struct sm_restore *sm, uint8_t type, uint32_t *val)
         return XMPP_EINVOP;
     }
     sm->state++;
-    if ((sm->state + 4) > sm->state_end) {
-        strophe_error(sm->conn->ctx, "conn",
-                      "Provided sm_state data is too short");
-        return XMPP_EINVOP;
-    }
     uint32_t v;
     memcpy(&v, sm->state, 4);
     sm->state += 4;
@@ -1349,12 +1349,12 @@ static int sm_load_string(struct sm_restore *sm, char **val, size_t *len)
     int ret = sm_load_u32(sm, 0x7a, &l);
     if (ret)
         return ret;
-    if ((sm->state + l) > sm->state_end) {
+    if (l > (size_t)(sm->state_end - sm->state)) {
         strophe_error(sm->conn->ctx, "conn",
                       "Provided sm_state data is too short");
         return XMPP_EINVOP;
     }
-    *val = strophe_alloc(sm->conn->ctx, l + 1);
+    *val = strophe_alloc(sm->conn->ctx, (size_t)l + 1);
     if (!*val)
         return XMPP_EMEM;
     memcpy(*val, sm->state, l);
@@ -1429,6 +1429,10 @@ int xmpp_conn_restore_sm_state(xmpp_conn_t *conn,
     conn->sm_state->can_resume = 1;
     conn->sm_state->resume = 1;
 
+    /* the send queue is only touched when everything has been restored */
+    xmpp_queue_t queue = {NULL, NULL};
+    uint32_t queue_len = 0;
+    xmpp_send_queue_t *item;
     int ret;
     ret = sm_load_u32(&sm, 0x1a, &conn->sm_state->sm_sent_nr);
     if (ret)
@@ -1447,23 +1451,16 @@ int xmpp_conn_restore_sm_state(xmpp_conn_t *conn,
     ret = sm_load_u32(&sm, 0x9a, &len);
     if (ret)
         goto err_reload;
-    conn->send_queue_user_len = conn->send_queue_len = len;
+    queue_len = len;
     for (i = 0; i < len; i++) {
-        xmpp_send_queue_t *item = strophe_alloc(conn->ctx, sizeof(*item));
+        item = strophe_alloc(conn->ctx, sizeof(*item));
         if (!item) {
             ret = XMPP_EMEM;
             goto err_reload;
         }
         memset(item, 0, sizeof(*item));
 
-        if (!conn->send_queue_tail) {
-            conn->send_queue_head = item;
-            conn->send_queue_tail = item;
-        } else {
-            item->prev = conn->send_queue_tail;
-            conn->send_queue_tail->next = item;
-            conn->send_queue_tail = item;
-        }
+        add_queue_back(&queue, item);
 
         ret = sm_load_string(&sm, &item->data, &item->len);
         if (ret)
@@ -1476,7 +1473,7 @@ int xmpp_conn_restore_sm_state(xmpp_conn_t *conn,
     if (ret)
         goto err_reload;
     for (i = 0; i < len; i++) {
-        xmpp_send_queue_t *item = strophe_alloc(conn->ctx, sizeof(*item));
+        item = strophe_alloc(conn->ctx, sizeof(*item));
         if (!item) {
             ret = XMPP_EMEM;
             goto err_reload;
@@ -1495,10 +1492,30 @@ int xmpp_conn_restore_sm_state(xmpp_conn_t *conn,
         item->owner = XMPP_QUEUE_USER;
     }
 
+    if (sm.state != sm.state_end) {
+        strophe_error(conn->ctx, "conn", "Provided sm_state data is too long");
+        ret = XMPP_EINVOP;
+        goto err_reload;
+    }
+
+    while ((item = pop_queue_front(&queue))) {
+        item->prev = conn->send_queue_tail;
+        if (!conn->send_queue_tail)
+            conn->send_queue_head = item;
+        else
+            conn->send_queue_tail->next = item;
+        conn->send_queue_tail = item;
+    }
+    conn->send_queue_len += queue_len;
+    conn->send_queue_user_len += queue_len;
+
     return XMPP_EOK;
 
 err_reload:
+    while ((item = pop_queue_front(&queue)))
+        strophe_free(conn->ctx, queue_element_free(conn->ctx, item));
     xmpp_free_sm_state(conn->sm_state);
+    conn->sm_state = NULL;
     return ret;
 }
 
-- 
2.43.0


From b1ccee2da39e929c40af1ff20c16d4115ec29387 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:42:28 +0000
Subject: [PATCH 27/59] fix: don't serialize a SM state without id

---
 src/conn.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/conn.c b/src/conn.c
index c8d0d03..9fff551 100644
--- a/src/conn.c
+++ b/src/conn.c
@@ -1538,7 +1538,8 @@ static int sm_store_u32(unsigned char **next_,
 static size_t sm_state_serialize(xmpp_conn_t *conn, unsigned char **buf)
 {
     if (!conn->sm_state || !conn->sm_state->sm_support ||
-        !conn->sm_state->sm_enabled || !conn->sm_state->can_resume) {
+        !conn->sm_state->sm_enabled || !conn->sm_state->can_resume ||
+        !conn->sm_state->id) {
         *buf = NULL;
         return 0;
     }
@@ -1573,6 +1574,7 @@ static size_t sm_state_serialize(xmpp_conn_t *conn, unsigned char **buf)
     if (end < next) {
         strophe_error(conn->ctx, "conn",
                       "Internal error, pointer wrapped around");
+        strophe_free_and_null(conn->ctx, *buf);
         return 0;
     }
 
@@ -1624,7 +1626,7 @@ static size_t sm_state_serialize(xmpp_conn_t *conn, unsigned char **buf)
 
 err_serialize:
     strophe_error(conn->ctx, "conn", "Can't serialize more data, buffer full");
-    strophe_free(conn->ctx, buf);
+    strophe_free_and_null(conn->ctx, *buf);
     return 0;
 }
 
-- 
2.43.0


From 8aee2ef37dc35071004a49a6005cc1f79a7d8a4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:42:45 +0000
Subject: [PATCH 28/59] fix: keep the SM state consistent over interrupted
 reconnects

An id is only replaced by one of a newer session, and a restored state
isn't active before the stream is negotiated.
---
 src/auth.c |  3 ++-
 src/conn.c | 30 +++++++++++++++++-------------
 2 files changed, 19 insertions(+), 14 deletions(-)

diff --git a/src/auth.c b/src/auth.c
index 456dd05..f39f075 100644
--- a/src/auth.c
+++ b/src/auth.c
@@ -1404,6 +1404,8 @@ static int _handle_sm(xmpp_conn_t *const conn,
 
     if (strcmp(name, "enabled") == 0 && !conn->sm_state->resume) {
         conn->sm_state->sm_handled_nr = 0;
+        conn->sm_state->can_resume = 0;
+        strophe_free_and_null(conn->ctx, conn->sm_state->id);
         resume = xmpp_stanza_get_attribute(stanza, "resume");
         if (resume &&
             (strcasecmp(resume, "true") == 0 || strcmp(resume, "1") == 0)) {
@@ -1415,7 +1417,6 @@ static int _handle_sm(xmpp_conn_t *const conn,
                 name = NULL;
                 goto err_sm;
             }
-            strophe_free_and_null(conn->ctx, conn->sm_state->id);
             conn->sm_state->id = strophe_strdup(conn->ctx, id);
             conn->sm_state->can_resume = conn->sm_state->id != NULL;
         }
diff --git a/src/conn.c b/src/conn.c
index 9fff551..70d5c59 100644
--- a/src/conn.c
+++ b/src/conn.c
@@ -1645,20 +1645,21 @@ static void _reset_sm_state_for_reconnect(xmpp_conn_t *conn)
 {
     xmpp_sm_state_t *s = conn->sm_state;
 
-    if (s->previd) {
-        strophe_free(conn->ctx, s->previd);
-        s->previd = NULL;
-    }
-
     if (s->can_resume) {
-        s->previd = s->id;
-        s->id = NULL;
-
-        s->bound_jid = conn->bound_jid;
-        conn->bound_jid = NULL;
-    } else if (s->id) {
-        strophe_free(conn->ctx, s->id);
-        s->id = NULL;
+        /* without an id, the previous session wasn't resumed yet */
+        if (s->id) {
+            strophe_free_and_null(conn->ctx, s->previd);
+            s->previd = s->id;
+            s->id = NULL;
+
+            strophe_free_and_null(conn->ctx, s->bound_jid);
+            s->bound_jid = conn->bound_jid;
+            conn->bound_jid = NULL;
+        }
+    } else {
+        strophe_free_and_null(conn->ctx, s->id);
+        strophe_free_and_null(conn->ctx, s->previd);
+        strophe_free_and_null(conn->ctx, s->bound_jid);
     }
 
     s->r_sent = s->sm_enabled = s->sm_support = s->resume = 0;
@@ -2226,6 +2227,9 @@ static void _conn_reset(xmpp_conn_t *conn)
     strophe_free_and_null(ctx, conn->domain);
     strophe_free_and_null(ctx, conn->bound_jid);
     strophe_free_and_null(ctx, conn->stream_id);
+    /* a state that was restored, was never prepared for a reconnect */
+    if (conn->sm_state)
+        _reset_sm_state_for_reconnect(conn);
     conn->stream_negotiation_completed = 0;
     conn->closing = 0;
     conn->secured = 0;
-- 
2.43.0


From 1f45cc82d6fe77685e34b03feb721b3cd1ea358f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:42:45 +0000
Subject: [PATCH 29/59] fix: don't drop unacknowledged stanzas because of an
 invalid 'h'

Also don't mistake elements without namespace for XEP-0198 elements.
---
 src/conn.c | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/src/conn.c b/src/conn.c
index 70d5c59..b2800c0 100644
--- a/src/conn.c
+++ b/src/conn.c
@@ -2120,7 +2120,7 @@ static void _conn_sm_handle_stanza(xmpp_conn_t *const conn,
     unsigned long ul_h;
 
     ns = xmpp_stanza_get_ns(stanza);
-    if (ns && strcmp(ns, XMPP_NS_SM) != 0)
+    if (!ns || strcmp(ns, XMPP_NS_SM) != 0)
         ++conn->sm_state->sm_handled_nr;
     else {
         name = xmpp_stanza_get_name(stanza);
@@ -2148,10 +2148,9 @@ static void _conn_sm_handle_stanza(xmpp_conn_t *const conn,
                     conn->ctx, "conn",
                     "Error on strtoul() of '%s', returned value is %llu.",
                     attr_h, ul_h);
-                /* We continue here and drop the complete SM queue instead of
-                 * returning and letting the queue fill up.
-                 */
-                ul_h = ULONG_MAX;
+                /* This doesn't acknowledge anything. */
+                conn->sm_state->r_sent = 0;
+                return;
             }
             while (conn->sm_state->sm_queue.head &&
                    conn->sm_state->sm_queue.head->sm_h < ul_h) {
-- 
2.43.0


From a8affba8581b4a66820439e0a8d42455bffc30cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:43:18 +0000
Subject: [PATCH 30/59] fix: the counters of stream management wrap around at
 2^32

---
 src/auth.c   | 2 +-
 src/common.h | 3 +++
 src/conn.c   | 2 +-
 3 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/auth.c b/src/auth.c
index f39f075..d260c19 100644
--- a/src/auth.c
+++ b/src/auth.c
@@ -1367,7 +1367,7 @@ static void _sm_queue_cleanup(xmpp_conn_t *conn, unsigned long ul_h)
 {
     xmpp_send_queue_t *e;
     while ((e = peek_queue_front(&conn->sm_state->sm_queue))) {
-        if (e->sm_h >= ul_h)
+        if (!SM_H_BEFORE(e->sm_h, ul_h))
             break;
         e = pop_queue_front(&conn->sm_state->sm_queue);
         strophe_free(conn->ctx, queue_element_free(conn->ctx, e));
diff --git a/src/common.h b/src/common.h
index 5e0ac7c..9889979 100644
--- a/src/common.h
+++ b/src/common.h
@@ -218,6 +218,9 @@ struct _xmpp_sm_t {
     xmpp_stanza_t *bind;
 };
 
+/* the counters of XEP-0198 wrap around, there's no `a < b` for them */
+#define SM_H_BEFORE(a, b) ((int32_t)((uint32_t)(a) - (uint32_t)(b)) < 0)
+
 struct conn_interface {
     int (*read)(struct conn_interface *intf, void *buff, size_t len);
     int (*write)(struct conn_interface *intf, const void *buff, size_t len);
diff --git a/src/conn.c b/src/conn.c
index b2800c0..97b33cd 100644
--- a/src/conn.c
+++ b/src/conn.c
@@ -2153,7 +2153,7 @@ static void _conn_sm_handle_stanza(xmpp_conn_t *const conn,
                 return;
             }
             while (conn->sm_state->sm_queue.head &&
-                   conn->sm_state->sm_queue.head->sm_h < ul_h) {
+                   SM_H_BEFORE(conn->sm_state->sm_queue.head->sm_h, ul_h)) {
                 e = pop_queue_front(&conn->sm_state->sm_queue);
                 strophe_debug_verbose(2, conn->ctx, "conn",
                                       "SM_Q_DROP: %p, h=%lu", e, e->sm_h);
-- 
2.43.0


From c33d45710fa1fec7b53cdce8d88f0460ef5c1759 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:44:11 +0000
Subject: [PATCH 31/59] fix: don't lose stanzas that wait for their
 retransmission

They are sent in the new session also if that one comes without stream
management, and they survive another disconnect before they are sent.
---
 src/auth.c   | 12 ++++--------
 src/common.h |  3 +++
 src/conn.c   | 47 +++++++++++++++++++++++++++++++++++++++++++++++
 3 files changed, 54 insertions(+), 8 deletions(-)

diff --git a/src/auth.c b/src/auth.c
index d260c19..9f48255 100644
--- a/src/auth.c
+++ b/src/auth.c
@@ -103,6 +103,7 @@ static int _handle_missing_handshake(xmpp_conn_t *conn, void *userdata);
 static int _handle_sm(xmpp_conn_t *const conn,
                       xmpp_stanza_t *const stanza,
                       void *const userdata);
+static void _sm_queue_resend(xmpp_conn_t *conn);
 
 /* stream:error handler */
 static int
@@ -919,6 +920,8 @@ static void _auth(xmpp_conn_t *conn)
 
 static void _stream_negotiation_success(xmpp_conn_t *conn)
 {
+    /* what's left from a session which couldn't be resumed */
+    _sm_queue_resend(conn);
     tls_clear_password_cache(conn);
     conn->stream_negotiation_completed = 1;
     /* call connection handler */
@@ -1383,8 +1386,7 @@ static void _sm_queue_resend(xmpp_conn_t *conn)
          */
         strophe_debug_verbose(2, conn->ctx, "conn", "SM_Q_RESEND: %p, h=%lu", e,
                               e->sm_h);
-        send_raw(conn, e->data, e->len, e->owner, NULL);
-        strophe_free(conn->ctx, queue_element_free(conn->ctx, e));
+        resend_queue_element(conn, e);
     }
 }
 
@@ -1420,11 +1422,6 @@ static int _handle_sm(xmpp_conn_t *const conn,
             conn->sm_state->id = strophe_strdup(conn->ctx, id);
             conn->sm_state->can_resume = conn->sm_state->id != NULL;
         }
-        /* We maybe have stuff in the SM queue if we tried to resume, but the
-         * server doesn't remember all details of our session, but the `h` was
-         * still available.
-         */
-        _sm_queue_resend(conn);
         _stream_negotiation_success(conn);
     } else if (strcmp(name, "resumed") == 0 && conn->sm_state->resume) {
         previd = xmpp_stanza_get_attribute(stanza, "previd");
@@ -1467,7 +1464,6 @@ static int _handle_sm(xmpp_conn_t *const conn,
 
         if (!conn->sm_state->resume) {
             /* <enable/> was refused, go on without stream management */
-            _sm_queue_resend(conn);
             _stream_negotiation_success(conn);
             trigger_sm_callback(conn);
             return 0;
diff --git a/src/common.h b/src/common.h
index 9889979..b181553 100644
--- a/src/common.h
+++ b/src/common.h
@@ -164,6 +164,8 @@ struct _xmpp_send_queue_t {
     size_t len;
     size_t written;
     int wip;
+    /* it was in the SM queue already */
+    int resent;
     xmpp_send_queue_owner_t owner;
     void *userdata;
     uint32_t sm_h;
@@ -408,6 +410,7 @@ xmpp_send_queue_t *pop_queue_front(xmpp_queue_t *queue);
 char *queue_element_free(xmpp_ctx_t *ctx, xmpp_send_queue_t *e);
 
 /* send functions */
+void resend_queue_element(xmpp_conn_t *conn, xmpp_send_queue_t *e);
 void send_raw(xmpp_conn_t *conn,
               const char *data,
               size_t len,
diff --git a/src/conn.c b/src/conn.c
index 97b33cd..2999a05 100644
--- a/src/conn.c
+++ b/src/conn.c
@@ -1641,10 +1641,41 @@ void trigger_sm_callback(xmpp_conn_t *conn)
     strophe_free(conn->ctx, buf);
 }
 
+/* Take back the elements that were to be retransmitted, but weren't. */
+static void _sm_queue_take_back(xmpp_conn_t *conn)
+{
+    xmpp_send_queue_t *e, *next;
+    for (e = conn->send_queue_head; e; e = next) {
+        next = e->next;
+        if (!e->resent)
+            continue;
+        if (next) {
+            /* there may be a `<r>` that is linked to this element */
+            next->userdata = NULL;
+            next->prev = e->prev;
+        } else {
+            conn->send_queue_tail = e->prev;
+        }
+        if (e->prev)
+            e->prev->next = next;
+        else
+            conn->send_queue_head = next;
+        conn->send_queue_len--;
+        if (e->owner == XMPP_QUEUE_USER)
+            conn->send_queue_user_len--;
+        e->resent = e->wip = 0;
+        e->written = 0;
+        e->sm_h = conn->sm_state->sm_sent_nr++;
+        add_queue_back(&conn->sm_state->sm_queue, e);
+    }
+}
+
 static void _reset_sm_state_for_reconnect(xmpp_conn_t *conn)
 {
     xmpp_sm_state_t *s = conn->sm_state;
 
+    _sm_queue_take_back(conn);
+
     if (s->can_resume) {
         /* without an id, the previous session wasn't resumed yet */
         if (s->id) {
@@ -2302,6 +2333,21 @@ static int _conn_connect(xmpp_conn_t *conn,
     return 0;
 }
 
+/* Queue an element of the SM queue again, takes ownership of `e`. */
+void resend_queue_element(xmpp_conn_t *conn, xmpp_send_queue_t *e)
+{
+    xmpp_send_queue_t *tail = conn->send_queue_tail;
+
+    if (_send_raw(conn, e->data, e->len, e->owner, NULL) == XMPP_EOK) {
+        if (tail)
+            tail->next->resent = 1;
+        else
+            conn->send_queue_head->resent = 1;
+    }
+    /* the data is part of the send queue now */
+    strophe_free(conn->ctx, e);
+}
+
 void send_raw(xmpp_conn_t *conn,
               const char *data,
               size_t len,
@@ -2450,6 +2496,7 @@ static int _send_raw(xmpp_conn_t *conn,
     item->prev = conn->send_queue_tail;
     item->written = 0;
     item->wip = 0;
+    item->resent = 0;
     item->userdata = userdata;
     item->owner = owner;
 
-- 
2.43.0


From b1dfb081d60471dc6aaf5e8099ef0726272e65c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:46:40 +0000
Subject: [PATCH 32/59] fix: answer DIGEST-MD5 challenges as RFC 2831 requires

Quote and unquote the values, choose the "auth" quality of protection,
echo the charset only if there is one, and don't crash or leak on
challenges that are empty or incomplete.
---
 src/auth.c |  6 ++++-
 src/sasl.c | 74 ++++++++++++++++++++++++++++++++++++++++++++----------
 2 files changed, 66 insertions(+), 14 deletions(-)

diff --git a/src/auth.c b/src/auth.c
index 9f48255..58f1657 100644
--- a/src/auth.c
+++ b/src/auth.c
@@ -393,12 +393,16 @@ static int _handle_digestmd5_challenge(xmpp_conn_t *conn,
 
     if (strcmp(name, "challenge") == 0) {
         text = xmpp_stanza_get_text(stanza);
+        if (!text) {
+            disconnect_mem_error(conn);
+            return 0;
+        }
         response = sasl_digest_md5(conn->ctx, text, conn->jid, conn->pass);
+        strophe_free(conn->ctx, text);
         if (!response) {
             disconnect_mem_error(conn);
             return 0;
         }
-        strophe_free(conn->ctx, text);
 
         auth = xmpp_stanza_new(conn->ctx);
         if (!auth) {
diff --git a/src/sasl.c b/src/sasl.c
index a280a7f..3e12c2e 100644
--- a/src/sasl.c
+++ b/src/sasl.c
@@ -81,18 +81,55 @@ static char *_make_string(xmpp_ctx_t *ctx, const char *s, unsigned len)
 static char *_make_quoted(xmpp_ctx_t *ctx, const char *s)
 {
     char *result;
-    size_t len = strlen(s);
+    size_t len = 0;
+    const char *c;
+
+    for (c = s; *c; c++)
+        len += (*c == '"' || *c == '\\') ? 2 : 1;
 
     result = strophe_alloc(ctx, len + 3);
     if (result != NULL) {
-        result[0] = '"';
-        memcpy(result + 1, s, len);
-        result[len + 1] = '"';
-        result[len + 2] = '\0';
+        char *r = result;
+        *r++ = '"';
+        for (c = s; *c; c++) {
+            if (*c == '"' || *c == '\\')
+                *r++ = '\\';
+            *r++ = *c;
+        }
+        *r++ = '"';
+        *r = '\0';
     }
     return result;
 }
 
+/* remove the quoting from a string */
+static void _unquote(char *s)
+{
+    char *r = s;
+
+    while (*s) {
+        if (*s == '\\' && s[1] != '\0')
+            s++;
+        *r++ = *s++;
+    }
+    *r = '\0';
+}
+
+/* check whether `item` is part of the comma separated list `list` */
+static int _is_in_list(const char *list, const char *item)
+{
+    size_t len, item_len = strlen(item);
+
+    while (*list) {
+        list += strspn(list, ", \t");
+        len = strcspn(list, ", \t");
+        if (len == item_len && strncmp(list, item, len) == 0)
+            return 1;
+        list += len;
+    }
+    return 0;
+}
+
 /* split key, value pairs into a hash */
 static hash_t *_parse_digest_challenge(xmpp_ctx_t *ctx, const char *msg)
 {
@@ -129,9 +166,14 @@ static hash_t *_parse_digest_challenge(xmpp_ctx_t *ctx, const char *msg)
             /* if we see quotes, grab the string in between */
             if ((*s == '\'') || (*s == '"')) {
                 t++;
-                while ((*t != *s) && (*t != '\0'))
+                while ((*t != *s) && (*t != '\0')) {
+                    if (*s == '"' && *t == '\\' && t[1] != '\0')
+                        t++;
                     t++;
+                }
                 value = _make_string(ctx, (char *)s + 1, (t - s - 1));
+                if (value && *s == '"')
+                    _unquote(value);
                 if (*t == *s) {
                     s = t + 1;
                 } else {
@@ -259,6 +301,16 @@ char *sasl_digest_md5(xmpp_ctx_t *ctx,
         return NULL;
     }
 
+    /* there's no response without a nonce, and "auth" is the only quality of
+       protection we support, it's also the default */
+    value = hash_get(table, "qop");
+    if (hash_get(table, "nonce") == NULL ||
+        (value != NULL && !_is_in_list(value, "auth"))) {
+        strophe_error(ctx, "SASL", "unsupported digest challenge");
+        hash_release(table);
+        return NULL;
+    }
+
     node = xmpp_jid_node(ctx, jid);
     domain = xmpp_jid_domain(ctx, jid);
 
@@ -275,8 +327,7 @@ char *sasl_digest_md5(xmpp_ctx_t *ctx,
     xmpp_rand_nonce(ctx->rand, cnonce, sizeof(cnonce));
     hash_add(table, "cnonce", strophe_strdup(ctx, cnonce));
     hash_add(table, "nc", strophe_strdup(ctx, "00000001"));
-    if (hash_get(table, "qop") == NULL)
-        hash_add(table, "qop", strophe_strdup(ctx, "auth"));
+    hash_add(table, "qop", strophe_strdup(ctx, "auth"));
     value = strophe_alloc(ctx, 5 + strlen(domain) + 1);
     memcpy(value, "xmpp/", 5);
     memcpy(value + 5, domain, strlen(domain));
@@ -314,10 +365,6 @@ char *sasl_digest_md5(xmpp_ctx_t *ctx,
     MD5Update(&MD5, (unsigned char *)"AUTHENTICATE:", 13);
     value = hash_get(table, "digest-uri");
     MD5Update(&MD5, (unsigned char *)value, strlen(value));
-    if (strcmp(hash_get(table, "qop"), "auth") != 0) {
-        MD5Update(&MD5, (unsigned char *)":00000000000000000000000000000000",
-                  33);
-    }
     MD5Final(digest, &MD5);
 
     memcpy(HA2, digest, 16);
@@ -359,7 +406,8 @@ char *sasl_digest_md5(xmpp_ctx_t *ctx,
     result = _add_key(ctx, table, "qop", result, 0);
     result = _add_key(ctx, table, "digest-uri", result, 1);
     result = _add_key(ctx, table, "response", result, 0);
-    result = _add_key(ctx, table, "charset", result, 0);
+    if (hash_get(table, "charset") != NULL)
+        result = _add_key(ctx, table, "charset", result, 0);
 
     strophe_free(ctx, node);
     strophe_free(ctx, domain);
-- 
2.43.0


From 17bf0a62e34365a3fa5504b0605f5a07832072a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:46:40 +0000
Subject: [PATCH 33/59] fix: accept SCRAM salts of any length

---
 src/scram.c | 37 +++++++++++++++++++++++--------------
 1 file changed, 23 insertions(+), 14 deletions(-)

diff --git a/src/scram.c b/src/scram.c
index 35a62db..3d22100 100644
--- a/src/scram.c
+++ b/src/scram.c
@@ -121,12 +121,15 @@ union common_hash_ctx {
     sha512_context sha512;
 };
 
-static void crypto_HMAC(const struct hash_alg *alg,
-                        const uint8_t *key,
-                        size_t key_len,
-                        const uint8_t *text,
-                        size_t len,
-                        uint8_t *digest)
+/* HMAC of the concatenation of `text` and `text2` */
+static void crypto_HMAC_2(const struct hash_alg *alg,
+                          const uint8_t *key,
+                          size_t key_len,
+                          const uint8_t *text,
+                          size_t len,
+                          const uint8_t *text2,
+                          size_t len2,
+                          uint8_t *digest)
 {
     uint8_t key_pad[HMAC_BLOCK_SIZE_MAX];
     uint8_t key_ipad[HMAC_BLOCK_SIZE_MAX];
@@ -155,6 +158,8 @@ static void crypto_HMAC(const struct hash_alg *alg,
     alg->init((void *)&ctx);
     alg->update((void *)&ctx, key_ipad, blocksize);
     alg->update((void *)&ctx, text, len);
+    if (len2 > 0)
+        alg->update((void *)&ctx, text2, len2);
     alg->final((void *)&ctx, sha_digest);
 
     alg->init((void *)&ctx);
@@ -163,6 +168,16 @@ static void crypto_HMAC(const struct hash_alg *alg,
     alg->final((void *)&ctx, digest);
 }
 
+static void crypto_HMAC(const struct hash_alg *alg,
+                        const uint8_t *key,
+                        size_t key_len,
+                        const uint8_t *text,
+                        size_t len,
+                        uint8_t *digest)
+{
+    crypto_HMAC_2(alg, key, key_len, text, len, NULL, 0, digest);
+}
+
 static void SCRAM_Hi(const struct hash_alg *alg,
                      const uint8_t *text,
                      size_t len,
@@ -173,23 +188,17 @@ static void SCRAM_Hi(const struct hash_alg *alg,
 {
     size_t k;
     uint32_t j;
-    uint8_t tmp[128];
+    uint8_t tmp[SCRAM_DIGEST_SIZE];
 
     static uint8_t int1[] = {0x0, 0x0, 0x0, 0x1};
 
-    /* assume salt + INT(1) isn't longer than sizeof(tmp) */
-    assert(salt_len <= sizeof(tmp) - sizeof(int1));
-
     memset(digest, 0, alg->digest_size);
     if (i == 0) {
         return;
     }
 
-    memcpy(tmp, salt, salt_len);
-    memcpy(&tmp[salt_len], int1, sizeof(int1));
-
     /* 'text' for Hi is a 'key' for HMAC */
-    crypto_HMAC(alg, text, len, tmp, salt_len + sizeof(int1), digest);
+    crypto_HMAC_2(alg, text, len, salt, salt_len, int1, sizeof(int1), digest);
     memcpy(tmp, digest, alg->digest_size);
 
     for (j = 1; j < i; j++) {
-- 
2.43.0


From e9076b923b27bba1e80bdb4a75c80fc921a4d22e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:46:40 +0000
Subject: [PATCH 34/59] fix: check the server's first SCRAM message

The nonce has to be an extension of ours, the iteration count has to be
a sensible positive number, and mandatory extensions aren't supported.
---
 src/sasl.c | 26 +++++++++++++++++++++++++-
 1 file changed, 25 insertions(+), 1 deletion(-)

diff --git a/src/sasl.c b/src/sasl.c
index 3e12c2e..343c2ce 100644
--- a/src/sasl.c
+++ b/src/sasl.c
@@ -35,6 +35,11 @@
 #endif
 #endif /* _MSC_VER */
 
+/* The iterations are done at once, the server must not be able to occupy us
+ * forever.
+ */
+#define SCRAM_MAX_ITERATIONS 10000000
+
 /** generate authentication string for the SASL PLAIN mechanism */
 char *sasl_plain(xmpp_ctx_t *ctx, const char *authid, const char *password)
 {
@@ -439,6 +444,7 @@ char *sasl_scram(xmpp_ctx_t *ctx,
     long ival;
     char *tmp;
     char *ptr;
+    const char *nonce;
     char *saveptr = NULL;
     char *response;
     char *auth;
@@ -464,6 +470,9 @@ char *sasl_scram(xmpp_ctx_t *ctx,
             s = ptr + 2;
         } else if (strncmp(ptr, "i=", 2) == 0) {
             i = ptr + 2;
+        } else if (strncmp(ptr, "m=", 2) == 0) {
+            /* reserved for mandatory extensions, we don't know any */
+            goto out;
         }
         ptr = strtok_r(NULL, ",", &saveptr);
     }
@@ -472,11 +481,26 @@ char *sasl_scram(xmpp_ctx_t *ctx,
         goto out;
     }
 
+    /* the server has to extend the nonce of our first message */
+    nonce = strstr(first_bare, ",r=");
+    if (!nonce || strncmp(r, nonce + 1, strlen(nonce + 1)) != 0) {
+        strophe_error(ctx, "SASL", "server doesn't use our nonce");
+        goto out;
+    }
+
+    if (strspn(i, "0123456789") != strlen(i)) {
+        goto out;
+    }
+    ival = strtol(i, NULL, 10);
+    if (ival < 1 || ival > SCRAM_MAX_ITERATIONS) {
+        strophe_error(ctx, "SASL", "invalid iteration count %s", i);
+        goto out;
+    }
+
     xmpp_base64_decode_bin(ctx, s, strlen(s), &sval, &sval_len);
     if (!sval) {
         goto out;
     }
-    ival = strtol(i, &saveptr, 10);
 
     /* "c=<channel_binding>," + r + ",p=" + sign_b64 + '\0' */
     response_len = 3 + strlen(channel_binding) + strlen(r) + 3 +
-- 
2.43.0


From a41c0c7545f05f032f34e13c89f8e16fc34c335f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:46:58 +0000
Subject: [PATCH 35/59] fix: encode ',' and '=' of the user name for SCRAM

---
 src/auth.c | 33 +++++++++++++++++++++++++++++++--
 1 file changed, 31 insertions(+), 2 deletions(-)

diff --git a/src/auth.c b/src/auth.c
index 58f1657..a4dda20 100644
--- a/src/auth.c
+++ b/src/auth.c
@@ -559,13 +559,37 @@ err:
     return 0;
 }
 
+/* ',' and '=' have to be encoded in a `saslname` */
+static char *_make_saslname(xmpp_ctx_t *ctx, const char *name)
+{
+    const char *c;
+    char *ret, *r;
+    size_t len = 0;
+
+    for (c = name; *c; c++)
+        len += (*c == ',' || *c == '=') ? 3 : 1;
+    ret = strophe_alloc(ctx, len + 1);
+    if (!ret)
+        return NULL;
+    for (c = name, r = ret; *c; c++) {
+        if (*c == ',' || *c == '=') {
+            memcpy(r, *c == ',' ? "=2C" : "=3D", 3);
+            r += 3;
+        } else {
+            *r++ = *c;
+        }
+    }
+    *r = '\0';
+    return ret;
+}
+
 static int _make_scram_init_msg(struct scram_user_data *scram)
 {
     xmpp_conn_t *conn = scram->conn;
     xmpp_ctx_t *ctx = conn->ctx;
     const void *binding_data;
     const char *binding_type;
-    char *node, *message;
+    char *jid_node, *node, *message;
     size_t message_len, binding_type_len = 0, binding_data_len;
     int l, is_secured = xmpp_conn_is_secured(conn);
     /* This buffer must be able to hold:
@@ -590,7 +614,12 @@ static int _make_scram_init_msg(struct scram_user_data *scram)
         binding_type_len += 1;
     }
 
-    node = xmpp_jid_node(ctx, conn->jid);
+    jid_node = xmpp_jid_node(ctx, conn->jid);
+    if (!jid_node) {
+        return -1;
+    }
+    node = _make_saslname(ctx, jid_node);
+    strophe_free(ctx, jid_node);
     if (!node) {
         return -1;
     }
-- 
2.43.0


From 534b388d2be71833310a0d8e99405964ed6cb26f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:47:16 +0000
Subject: [PATCH 36/59] fix: don't claim that the server has no SCRAM-PLUS when
 it offered it

---
 src/auth.c   | 5 ++++-
 src/common.h | 1 +
 src/conn.c   | 1 +
 3 files changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/auth.c b/src/auth.c
index a4dda20..ab8c035 100644
--- a/src/auth.c
+++ b/src/auth.c
@@ -252,6 +252,8 @@ static void _handle_sasl_children(xmpp_conn_t *conn, const char *text)
         for (n = 0; n < scram_algs_num; ++n) {
             if (strcasecmp(text, scram_algs[n]->scram_name) == 0) {
                 conn->sasl_support |= scram_algs[n]->mask;
+                if (scram_algs[n]->mask & SASL_MASK_SCRAM_PLUS)
+                    conn->sasl_plus_offered = 1;
                 break;
             }
         }
@@ -639,7 +641,8 @@ static int _make_scram_init_msg(struct scram_user_data *scram)
                              binding_type, node, buf);
     } else {
         l = strophe_snprintf(message, message_len, "%c,,n=%s,r=%s",
-                             is_secured ? 'y' : 'n', node, buf);
+                             is_secured && !conn->sasl_plus_offered ? 'y' : 'n',
+                             node, buf);
     }
     if (l < 0 || (size_t)l >= message_len) {
         goto err_msg;
diff --git a/src/common.h b/src/common.h
index b181553..5e176d6 100644
--- a/src/common.h
+++ b/src/common.h
@@ -273,6 +273,7 @@ struct _xmpp_conn_t {
     char *tls_client_cert;
     char *tls_client_key;
     int tls_failed;   /* set when tls fails, so we don't try again */
+    int sasl_plus_offered;
     int sasl_support; /* if true, field is a bitfield of supported
                          mechanisms */
     int auth_legacy_enabled;
diff --git a/src/conn.c b/src/conn.c
index 2999a05..d14d7ca 100644
--- a/src/conn.c
+++ b/src/conn.c
@@ -2268,6 +2268,7 @@ static void _conn_reset(xmpp_conn_t *conn)
 
     conn->tls_support = 0;
     conn->sasl_support = 0;
+    conn->sasl_plus_offered = 0;
     conn->compression.supported = 0;
 
     conn->bind_required = 0;
-- 
2.43.0


From 4dae9b4d7dcfb0c87d0cfd7979b5900de45a4026 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:47:26 +0000
Subject: [PATCH 37/59] fix: free the SCRAM data when the connection ends
 during authentication

---
 src/auth.c   | 25 +++++++++++++++++++------
 src/common.h |  2 ++
 src/conn.c   |  1 +
 3 files changed, 22 insertions(+), 6 deletions(-)

diff --git a/src/auth.c b/src/auth.c
index ab8c035..de97f19 100644
--- a/src/auth.c
+++ b/src/auth.c
@@ -478,6 +478,21 @@ struct scram_user_data {
     const struct hash_alg *alg;
 };
 
+static void _scram_free(xmpp_ctx_t *ctx, struct scram_user_data *scram)
+{
+    strophe_free_and_null(ctx, scram->channel_binding);
+    strophe_free_and_null(ctx, scram->scram_init);
+    strophe_free(ctx, scram);
+}
+
+/* free what's left from an authentication that didn't come to an end */
+void auth_scram_free(xmpp_conn_t *conn)
+{
+    if (conn->scram)
+        _scram_free(conn->ctx, conn->scram);
+    conn->scram = NULL;
+}
+
 /* handle the challenge phase of SCRAM-SHA-1 auth */
 static int _handle_scram_challenge(xmpp_conn_t *conn,
                                    xmpp_stanza_t *stanza,
@@ -540,11 +555,10 @@ static int _handle_scram_challenge(xmpp_conn_t *conn,
          * current handler is not removed yet. As result, libstrophe wouldn't
          * handle incoming challenge stanza.
          */
+        conn->scram = NULL;
         rc = _handle_sasl_result(conn, stanza,
                                  (void *)scram_ctx->alg->scram_name);
-        strophe_free_and_null(conn->ctx, scram_ctx->channel_binding);
-        strophe_free_and_null(conn->ctx, scram_ctx->scram_init);
-        strophe_free(conn->ctx, scram_ctx);
+        _scram_free(conn->ctx, scram_ctx);
     }
 
     return rc;
@@ -554,9 +568,7 @@ err_release_auth:
 err_free_response:
     strophe_free(conn->ctx, response);
 err:
-    strophe_free_and_null(conn->ctx, scram_ctx->channel_binding);
-    strophe_free_and_null(conn->ctx, scram_ctx->scram_init);
-    strophe_free(conn->ctx, scram_ctx);
+    auth_scram_free(conn);
     disconnect_mem_error(conn);
     return 0;
 }
@@ -891,6 +903,7 @@ static void _auth(xmpp_conn_t *conn)
 
         handler_add(conn, _handle_scram_challenge, XMPP_NS_SASL, NULL, NULL,
                     (void *)scram_ctx);
+        conn->scram = scram_ctx;
 
         send_stanza(conn, auth, XMPP_QUEUE_STROPHE);
 
diff --git a/src/common.h b/src/common.h
index 5e176d6..e7c5170 100644
--- a/src/common.h
+++ b/src/common.h
@@ -274,6 +274,7 @@ struct _xmpp_conn_t {
     char *tls_client_key;
     int tls_failed;   /* set when tls fails, so we don't try again */
     int sasl_plus_offered;
+    struct scram_user_data *scram; /* of the running authentication */
     int sasl_support; /* if true, field is a bitfield of supported
                          mechanisms */
     int auth_legacy_enabled;
@@ -399,6 +400,7 @@ void reset_sm_state(xmpp_sm_state_t *sm_state);
 void disconnect_mem_error(xmpp_conn_t *conn);
 
 /* auth functions */
+void auth_scram_free(xmpp_conn_t *conn);
 void auth_handle_open(xmpp_conn_t *conn);
 void auth_handle_component_open(xmpp_conn_t *conn);
 void auth_handle_open_raw(xmpp_conn_t *conn);
diff --git a/src/conn.c b/src/conn.c
index d14d7ca..5d264bb 100644
--- a/src/conn.c
+++ b/src/conn.c
@@ -2275,6 +2275,7 @@ static void _conn_reset(xmpp_conn_t *conn)
     conn->session_required = 0;
 
     handler_system_delete_all(conn);
+    auth_scram_free(conn);
 }
 
 /* every kind of connection needs the state, even if it can't use XEP-0198 */
-- 
2.43.0


From 42b6a8f544240fd4f6e98ff90e22ad32e604cd96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:47:26 +0000
Subject: [PATCH 38/59] fix: disconnect when the server refuses to start TLS

---
 src/auth.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/auth.c b/src/auth.c
index de97f19..bffe90d 100644
--- a/src/auth.c
+++ b/src/auth.c
@@ -335,6 +335,9 @@ static int _handle_proceedtls_default(xmpp_conn_t *conn,
             /* failed tls spoils the connection, so disconnect */
             xmpp_disconnect(conn);
         }
+    } else {
+        strophe_error(conn->ctx, "xmpp", "The server refused to start TLS.");
+        xmpp_disconnect(conn);
     }
 
     return 0;
-- 
2.43.0


From da6de6ffdb7b2b9d019d554c9219f1599e2506a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:49:58 +0000
Subject: [PATCH 39/59] fix: an interrupted read doesn't close the connection

---
 src/event.c | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/event.c b/src/event.c
index 52a2311..b904080 100644
--- a/src/event.c
+++ b/src/event.c
@@ -329,17 +329,17 @@ next_item:
                     }
                 } else {
                     int err = intf->get_error(intf);
-                    if (!intf->error_is_recoverable(intf, err)) {
-                        strophe_debug(ctx, "xmpp", "Unrecoverable error: %d.",
-                                      err);
-                        conn->error = err;
-                        conn_disconnect(conn);
-                    } else if (!conn->tls) {
+                    if (ret == 0 && !conn->tls) {
                         /* return of 0 means socket closed by server */
                         strophe_debug(ctx, "xmpp",
                                       "Socket closed by remote host.");
                         conn->error = ECONNRESET;
                         conn_disconnect(conn);
+                    } else if (!intf->error_is_recoverable(intf, err)) {
+                        strophe_debug(ctx, "xmpp", "Unrecoverable error: %d.",
+                                      err);
+                        conn->error = err;
+                        conn_disconnect(conn);
                     }
                 }
             }
-- 
2.43.0


From 03a4578e44bd7c87cc0382ab8b12c8ecf401dab8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:50:17 +0000
Subject: [PATCH 40/59] fix: make stream compression work with partial reads
 and writes

Nothing is lost or repeated when the transport accepts only a part of
the compressed data, a flush is completed, compressed data that doesn't
decompress to anything yet doesn't close the connection and data that's
waiting in the decompressor is delivered. The state is freed now.
---
 src/auth.c              |   8 +-
 src/common.h            |   1 +
 src/compression.c       | 193 ++++++++++++++++++++++++++--------------
 src/compression_dummy.c |   6 ++
 src/event.c             |  12 ++-
 5 files changed, 150 insertions(+), 70 deletions(-)

diff --git a/src/auth.c b/src/auth.c
index bffe90d..95305eb 100644
--- a/src/auth.c
+++ b/src/auth.c
@@ -1112,10 +1112,16 @@ static int _handle_compress_result(xmpp_conn_t *const conn,
         conn_prepare_reset(conn, _handle_open_sasl);
 
         /* make compression effective */
-        compression_init(conn);
+        if (compression_init(conn)) {
+            conn_disconnect(conn);
+            return 0;
+        }
 
         /* send stream tag */
         conn_open_stream(conn);
+    } else {
+        strophe_error(conn->ctx, "xmpp", "Stream compression failed.");
+        xmpp_disconnect(conn);
     }
     return 0;
 }
diff --git a/src/common.h b/src/common.h
index e7c5170..6920240 100644
--- a/src/common.h
+++ b/src/common.h
@@ -240,6 +240,7 @@ int conn_int_nop(struct conn_interface *intf);
 
 int compression_init(xmpp_conn_t *conn);
 void compression_free(xmpp_conn_t *conn);
+int compression_has_output(xmpp_conn_t *conn);
 void compression_handle_feature_children(xmpp_conn_t *conn, const char *text);
 
 struct _xmpp_conn_t {
diff --git a/src/compression.c b/src/compression.c
index b1a2c3a..7221645 100644
--- a/src/compression.c
+++ b/src/compression.c
@@ -25,7 +25,7 @@
 #endif
 
 struct zlib_compression {
-    void *buffer, *buffer_end;
+    void *buffer;
     z_stream stream;
 };
 
@@ -33,6 +33,12 @@ struct xmpp_compression {
     xmpp_conn_t *conn;
     struct zlib_compression compression, decompression;
     struct conn_interface next;
+    /* the last call only failed because there's no data or space right now */
+    int would_block;
+    /* the received data can't be decompressed */
+    int read_error;
+    /* the last flush isn't complete yet */
+    int flushing;
 };
 
 static int _conn_decompress(struct xmpp_compression *comp,
@@ -40,34 +46,43 @@ static int _conn_decompress(struct xmpp_compression *comp,
                             void *buff,
                             size_t len)
 {
-    if (comp->decompression.stream.next_in == NULL) {
-        comp->decompression.stream.next_in = comp->decompression.buffer;
-        comp->decompression.buffer_end =
-            comp->decompression.stream.next_in + c_len;
-        comp->decompression.stream.avail_in = c_len;
+    z_stream *stream = &comp->decompression.stream;
+    int out;
+
+    if (stream->next_in == NULL) {
+        stream->next_in = comp->decompression.buffer;
+        stream->avail_in = c_len;
     } else if (c_len) {
         strophe_error(comp->conn->ctx, "zlib",
                       "_conn_decompress() called with c_len=%zu", c_len);
     }
-    comp->decompression.stream.next_out = buff;
-    comp->decompression.stream.avail_out = len;
-    int ret = inflate(&comp->decompression.stream, Z_SYNC_FLUSH);
+    stream->next_out = buff;
+    stream->avail_out = len;
+    int ret = inflate(stream, Z_SYNC_FLUSH);
+    out = stream->next_out - (Bytef *)buff;
     switch (ret) {
     case Z_STREAM_END:
+        stream->next_in = NULL;
+        if (out == 0)
+            comp->read_error = ECONNABORTED;
+        break;
     case Z_OK:
-        if (comp->decompression.buffer_end ==
-            comp->decompression.stream.next_in)
-            comp->decompression.stream.next_in = NULL;
-        return comp->decompression.stream.next_out - (Bytef *)buff;
     case Z_BUF_ERROR:
+        /* there may be more when the whole output buffer is in use */
+        if (stream->avail_in == 0 && stream->avail_out > 0)
+            stream->next_in = NULL;
         break;
     default:
         strophe_error(comp->conn->ctx, "zlib", "inflate error %d", ret);
-        comp->conn->error = ret;
-        conn_disconnect(comp->conn);
+        stream->next_in = NULL;
+        comp->read_error = ECONNABORTED;
         break;
     }
-    return 0;
+    if (out == 0) {
+        comp->would_block = comp->read_error == 0;
+        return -1;
+    }
+    return out;
 }
 
 static int compression_read(struct conn_interface *intf, void *buff, size_t len)
@@ -76,6 +91,10 @@ static int compression_read(struct conn_interface *intf, void *buff, size_t len)
     struct xmpp_compression *comp = conn->compression.state;
     void *dbuff = buff;
     size_t dlen = len;
+
+    comp->would_block = 0;
+    if (comp->read_error)
+        return -1;
     if (comp->decompression.stream.next_in != NULL) {
         return _conn_decompress(comp, 0, buff, len);
     }
@@ -88,75 +107,106 @@ static int compression_read(struct conn_interface *intf, void *buff, size_t len)
     return ret;
 }
 
-static int _try_compressed_write_to_network(xmpp_conn_t *conn, int force)
+/* Write as much as the transport accepts, what's left remains at the beginning
+ * of the buffer.
+ */
+static int _try_compressed_write_to_network(xmpp_conn_t *conn)
 {
     struct xmpp_compression *comp = conn->compression.state;
+    Bytef *buffer = comp->compression.buffer;
+    size_t len = comp->compression.stream.next_out - buffer;
+    size_t written = 0;
     int ret = 0;
-    ptrdiff_t len =
-        comp->compression.stream.next_out - (Bytef *)comp->compression.buffer;
-    int buffer_full =
-        comp->compression.stream.next_out == comp->compression.buffer_end;
-    if ((buffer_full || force) && len > 0) {
-        ret = conn_interface_write(&comp->next, comp->compression.buffer, len);
-        if (ret < 0)
-            return ret;
-        comp->compression.stream.next_out = comp->compression.buffer;
-        comp->compression.stream.avail_out = STROPHE_COMPRESSION_BUFFER_SIZE;
+
+    while (written < len) {
+        ret = conn_interface_write(&comp->next, buffer + written,
+                                   len - written);
+        if (ret <= 0)
+            break;
+        written += ret;
     }
-    return ret;
+    if (written > 0) {
+        memmove(buffer, buffer + written, len - written);
+        comp->compression.stream.next_out -= written;
+        comp->compression.stream.avail_out += written;
+    }
+    return ret < 0 ? ret : 0;
 }
 
-static int
-_compression_write(xmpp_conn_t *conn, const void *buff, size_t len, int flush)
+/* returns 0 if everything was processed and -1 if not, because of an error or
+ * because the transport doesn't accept more data at the moment.
+ */
+static int _compression_deflate(xmpp_conn_t *conn, int flush)
 {
-    int ret;
-    const void *buff_end = buff + len;
     struct xmpp_compression *comp = conn->compression.state;
-    comp->compression.stream.next_in = (Bytef *)buff;
-    comp->compression.stream.avail_in = len;
-    do {
-        ret = _try_compressed_write_to_network(conn, 0);
-        if (ret < 0) {
-            return ret;
-        }
+    z_stream *stream = &comp->compression.stream;
 
-        ret = deflate(&comp->compression.stream, flush);
-        if (ret == Z_STREAM_END) {
-            break;
+    do {
+        if (stream->avail_out == 0) {
+            if (_try_compressed_write_to_network(conn) < 0 &&
+                stream->avail_out == 0)
+                return -1;
+            if (stream->avail_out == 0) {
+                comp->would_block = 1;
+                return -1;
+            }
         }
-        if (flush && ret == Z_BUF_ERROR) {
+        int ret = deflate(stream, flush);
+        if (ret == Z_BUF_ERROR) {
+            /* nothing to do */
             break;
         }
         if (ret != Z_OK) {
             strophe_error(conn->ctx, "zlib", "deflate error %d", ret);
-            conn->error = ret;
-            conn_disconnect(conn);
-            return ret;
+            conn->error = ECONNABORTED;
+            return -1;
         }
-        ret = comp->compression.stream.next_in - (Bytef *)buff;
-    } while (comp->compression.stream.next_in < (Bytef *)buff_end);
-    if (flush) {
-        ret = _try_compressed_write_to_network(conn, 1);
-        if (ret < 0) {
-            return ret;
-        }
-    }
-    return ret;
+    } while (stream->avail_in > 0 || stream->avail_out == 0);
+    return 0;
+}
+
+static int _compression_complete_flush(xmpp_conn_t *conn)
+{
+    struct xmpp_compression *comp = conn->compression.state;
+    int flush = conn->compression.dont_reset ? Z_SYNC_FLUSH : Z_FULL_FLUSH;
+
+    comp->compression.stream.next_in = comp->compression.buffer;
+    comp->compression.stream.avail_in = 0;
+    comp->flushing = 1;
+    if (_compression_deflate(conn, flush) < 0)
+        return -1;
+    comp->flushing = 0;
+    return 0;
 }
 
 static int
 compression_write(struct conn_interface *intf, const void *buff, size_t len)
 {
-    return _compression_write(intf->conn, buff, len, Z_NO_FLUSH);
+    xmpp_conn_t *conn = intf->conn;
+    struct xmpp_compression *comp = conn->compression.state;
+    int ret;
+
+    comp->would_block = 0;
+    /* a flush that didn't fit into the buffer must not be mixed with data */
+    if (comp->flushing && _compression_complete_flush(conn) < 0)
+        return -1;
+
+    comp->compression.stream.next_in = (Bytef *)buff;
+    comp->compression.stream.avail_in = len;
+    ret = _compression_deflate(conn, Z_NO_FLUSH);
+    len -= comp->compression.stream.avail_in;
+    return len > 0 ? (int)len : ret;
 }
 
 static int compression_flush(struct conn_interface *intf)
 {
     xmpp_conn_t *conn = intf->conn;
     struct xmpp_compression *comp = conn->compression.state;
-    return _compression_write(conn, comp->compression.buffer, 0,
-                              conn->compression.dont_reset ? Z_SYNC_FLUSH
-                                                           : Z_FULL_FLUSH);
+
+    comp->would_block = 0;
+    if (_compression_complete_flush(conn) < 0)
+        return -1;
+    return _try_compressed_write_to_network(conn);
 }
 
 static int compression_pending(struct conn_interface *intf)
@@ -169,13 +219,19 @@ static int compression_pending(struct conn_interface *intf)
 
 static int compression_get_error(struct conn_interface *intf)
 {
-    struct conn_interface *next = &intf->conn->compression.state->next;
-    return next->get_error(next);
+    struct xmpp_compression *comp = intf->conn->compression.state;
+    struct conn_interface *next = &comp->next;
+    return comp->read_error ? comp->read_error : next->get_error(next);
 }
 
 static int compression_is_recoverable(struct conn_interface *intf, int err)
 {
-    struct conn_interface *next = &intf->conn->compression.state->next;
+    struct xmpp_compression *comp = intf->conn->compression.state;
+    struct conn_interface *next = &comp->next;
+    if (comp->would_block)
+        return 1;
+    if (comp->read_error)
+        return 0;
     return next->error_is_recoverable(next, err);
 }
 
@@ -201,7 +257,6 @@ static void *_zlib_alloc(void *opaque, unsigned int items, unsigned int size)
 static void _init_zlib_compression(xmpp_ctx_t *ctx, struct zlib_compression *s)
 {
     s->buffer = strophe_alloc(ctx, STROPHE_COMPRESSION_BUFFER_SIZE);
-    s->buffer_end = s->buffer + STROPHE_COMPRESSION_BUFFER_SIZE;
 
     s->stream.opaque = ctx;
     s->stream.zalloc = _zlib_alloc;
@@ -230,7 +285,7 @@ int compression_init(xmpp_conn_t *conn)
     int ret = deflateInit(&comp->compression.stream, Z_DEFAULT_COMPRESSION);
     if (ret != Z_OK) {
         strophe_free_and_null(conn->ctx, comp->compression.buffer);
-        conn->error = ret;
+        conn->error = ECONNABORTED;
         conn_disconnect(conn);
         return ret;
     }
@@ -240,7 +295,7 @@ int compression_init(xmpp_conn_t *conn)
     ret = inflateInit(&comp->decompression.stream);
     if (ret != Z_OK) {
         strophe_free_and_null(conn->ctx, comp->decompression.buffer);
-        conn->error = ret;
+        conn->error = ECONNABORTED;
         conn_disconnect(conn);
         return ret;
     }
@@ -260,6 +315,14 @@ void compression_free(xmpp_conn_t *conn)
         inflateEnd(&comp->decompression.stream);
         strophe_free_and_null(conn->ctx, comp->decompression.buffer);
     }
+    strophe_free_and_null(conn->ctx, conn->compression.state);
+}
+
+int compression_has_output(xmpp_conn_t *conn)
+{
+    struct xmpp_compression *comp = conn->compression.state;
+    return comp && (comp->flushing || comp->compression.stream.next_out !=
+                                          comp->compression.buffer);
 }
 
 void compression_handle_feature_children(xmpp_conn_t *conn, const char *text)
diff --git a/src/compression_dummy.c b/src/compression_dummy.c
index 994ef6b..54cf3da 100644
--- a/src/compression_dummy.c
+++ b/src/compression_dummy.c
@@ -29,6 +29,12 @@ void compression_free(xmpp_conn_t *conn)
     UNUSED(conn);
 }
 
+int compression_has_output(xmpp_conn_t *conn)
+{
+    UNUSED(conn);
+    return 0;
+}
+
 void compression_handle_feature_children(xmpp_conn_t *conn, const char *text)
 {
     UNUSED(text);
diff --git a/src/event.c b/src/event.c
index b904080..a19fe3d 100644
--- a/src/event.c
+++ b/src/event.c
@@ -237,7 +237,7 @@ next_item:
             break;
         case XMPP_STATE_CONNECTED:
             FD_SET(conn->sock, &rfds);
-            if (conn->send_queue_len > 0)
+            if (conn->send_queue_len > 0 || compression_has_output(conn))
                 FD_SET(conn->sock, &wfds);
             break;
         case XMPP_STATE_DISCONNECTED:
@@ -246,9 +246,9 @@ next_item:
             break;
         }
 
-        /* Check if there is something in the SSL buffer. */
-        if (conn->tls)
-            tls_read_bytes += tls_pending(intf);
+        /* Check if there is something in the SSL or compression buffer. */
+        if (conn->state == XMPP_STATE_CONNECTED)
+            tls_read_bytes += intf->pending(intf);
 
         if (conn->state != XMPP_STATE_DISCONNECTED && conn->sock > max)
             max = conn->sock;
@@ -256,6 +256,10 @@ next_item:
         connitem = connitem->next;
     }
 
+    /* there's something to process already */
+    if (tls_read_bytes > 0)
+        tv.tv_sec = tv.tv_usec = 0;
+
     /* check for events */
     if (max > 0)
         ret = select(max + 1, &rfds, &wfds, NULL, &tv);
-- 
2.43.0


From 0a195083960da2a4f1e53b18ea8a47692172a307 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:51:40 +0000
Subject: [PATCH 41/59] fix: try the next SRV target when one can't be resolved

---
 src/sock.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/sock.c b/src/sock.c
index 90b0431..d13c0a4 100644
--- a/src/sock.c
+++ b/src/sock.c
@@ -212,10 +212,10 @@ sock_t sock_connect(xmpp_sock_t *xsock)
     char buf[64];
 
     do {
-        if (!xsock->ainfo_cur) {
+        /* some of the targets may have no address */
+        while (!xsock->ainfo_cur && xsock->srv_rr_cur) {
             sock_getaddrinfo(xsock);
-            if (xsock->srv_rr_cur)
-                xsock->srv_rr_cur = xsock->srv_rr_cur->next;
+            xsock->srv_rr_cur = xsock->srv_rr_cur->next;
         }
         if (!xsock->ainfo_cur) {
             /* We tried all available addresses. */
-- 
2.43.0


From 171c92164dc3df7bb0e40ffc9d9437fa4acb6d23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:51:40 +0000
Subject: [PATCH 42/59] fix: don't use a socket which the sockopt callback
 refused

---
 src/sock.c | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/sock.c b/src/sock.c
index d13c0a4..af3074e 100644
--- a/src/sock.c
+++ b/src/sock.c
@@ -243,10 +243,13 @@ sock_t sock_connect(xmpp_sock_t *xsock)
             }
             if (rc == 0)
                 rc = sock_set_nonblocking(sock);
-            if (rc == 0)
+            if (rc == 0) {
                 rc = connect(sock, ainfo->ai_addr, ainfo->ai_addrlen);
-            /* Assume only connect() can cause "in progress" error. */
-            if (rc != 0 && !_in_progress(sock_error(NULL))) {
+                /* Only connect() can cause "in progress" error. */
+                if (rc != 0 && _in_progress(sock_error(NULL)))
+                    rc = 0;
+            }
+            if (rc != 0) {
                 sock_close(sock);
                 sock = INVALID_SOCKET;
             }
-- 
2.43.0


From cad217a38765e7647e2f88804e67618cb53c6555 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:51:40 +0000
Subject: [PATCH 43/59] fix: don't raise SIGPIPE when the server is gone

---
 src/sock.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/sock.c b/src/sock.c
index af3074e..8fe3aa3 100644
--- a/src/sock.c
+++ b/src/sock.c
@@ -401,7 +401,12 @@ int sock_read(struct conn_interface *intf, void *buff, size_t len)
 
 int sock_write(struct conn_interface *intf, const void *buff, size_t len)
 {
-    return send(intf->conn->sock, buff, len, 0);
+    int flags = 0;
+#ifdef MSG_NOSIGNAL
+    /* we want an error and no SIGPIPE */
+    flags = MSG_NOSIGNAL;
+#endif
+    return send(intf->conn->sock, buff, len, flags);
 }
 
 int sock_is_recoverable(struct conn_interface *intf, int error)
-- 
2.43.0


From 981581d460b2a37585f1986fbb17a54d1f1a8823 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:52:03 +0000
Subject: [PATCH 44/59] fix: don't wait forever for the TLS handshake

---
 src/tls_openssl.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/tls_openssl.c b/src/tls_openssl.c
index 641ca6c..e5d4082 100644
--- a/src/tls_openssl.c
+++ b/src/tls_openssl.c
@@ -119,6 +119,8 @@ enum {
     TLS_SHUTDOWN_MAX_RETRIES = 10,
     TLS_TIMEOUT_SEC = 0,
     TLS_TIMEOUT_USEC = 100000,
+    /* milliseconds the server has to complete the handshake */
+    TLS_HANDSHAKE_TIMEOUT = 15000,
 };
 
 static void _tls_sock_wait(tls_t *tls, int error);
@@ -863,6 +865,7 @@ int tls_start(tls_t *tls)
     int error;
     int ret;
     long x509_res;
+    uint64_t start = time_stamp();
 
     /* Since we're non-blocking, loop the connect call until it
        succeeds or fails */
@@ -871,6 +874,10 @@ int tls_start(tls_t *tls)
         error = ret <= 0 ? SSL_get_error(tls->ssl, ret) : 0;
 
         if (ret == -1 && tls_is_recoverable(NULL, error)) {
+            if (time_elapsed(start, time_stamp()) > TLS_HANDSHAKE_TIMEOUT) {
+                strophe_error(tls->ctx, "tls", "TLS handshake timed out");
+                break;
+            }
             /* wait for something to happen on the sock before looping back */
             _tls_sock_wait(tls, error);
             continue;
-- 
2.43.0


From b837a79deb5335726ada838613822e2600b91af3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:52:03 +0000
Subject: [PATCH 45/59] fix: don't start TLS twice on the same connection

---
 src/conn.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/conn.c b/src/conn.c
index 5d264bb..908d43f 100644
--- a/src/conn.c
+++ b/src/conn.c
@@ -1120,8 +1120,12 @@ int conn_tls_start(xmpp_conn_t *conn)
 {
     int rc;
 
+    if (conn->tls) {
+        /* there's no TLS inside of TLS */
+        return XMPP_EINVOP;
+    }
+
     if (conn->tls_disabled) {
-        conn->tls = NULL;
         rc = XMPP_EINVOP;
     } else {
         conn->tls = tls_new(conn);
-- 
2.43.0


From 1b5467a671d65e41734c73e2505d36bf81f87862 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:52:23 +0000
Subject: [PATCH 46/59] fix: refuse to connect if the JID has no domain

---
 src/conn.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/conn.c b/src/conn.c
index 908d43f..5c68423 100644
--- a/src/conn.c
+++ b/src/conn.c
@@ -709,6 +709,13 @@ static int _connect_client(xmpp_conn_t *conn,
     if (!domain)
         return XMPP_EMEM;
 
+    if (*domain == '\0') {
+        /* there's nothing a certificate could be checked against */
+        strophe_error(conn->ctx, "xmpp", "JID has no domain.");
+        strophe_free(conn->ctx, domain);
+        return XMPP_EINVOP;
+    }
+
     if (_conn_sm_state_init(conn))
         goto err_mem;
 
-- 
2.43.0


From 1c962b74ffc7c07dc2f47c23fdebd8964152a7a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:32 +0000
Subject: [PATCH 47/59] fix: send exactly the buffer given to xmpp_send_raw()

---
 src/conn.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/conn.c b/src/conn.c
index 5c68423..e052dea 100644
--- a/src/conn.c
+++ b/src/conn.c
@@ -2372,11 +2372,14 @@ void send_raw(xmpp_conn_t *conn,
     if (conn->state != XMPP_STATE_CONNECTED)
         return;
 
-    d = strophe_strndup(conn->ctx, data, len);
+    /* `data` is a buffer, it doesn't have to be a C string */
+    d = strophe_alloc(conn->ctx, len + 1);
     if (!d) {
-        strophe_error(conn->ctx, "conn", "Failed to strndup");
+        strophe_error(conn->ctx, "conn", "Failed to allocate memory");
         return;
     }
+    memcpy(d, data, len);
+    d[len] = '\0';
 
     _send_raw(conn, d, len, owner, userdata);
 }
-- 
2.43.0


From bb03efc026be9ab8f756b4917996862cd7e816ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:21 +0000
Subject: [PATCH 48/59] fix: wait for the features of each stream with its own
 handler

The previous change of these handlers was applied to the first stream instead
of the one that is opened before compression.
---
 src/auth.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/auth.c b/src/auth.c
index 95305eb..f4d89cc 100644
--- a/src/auth.c
+++ b/src/auth.c
@@ -1001,8 +1001,7 @@ void auth_handle_open(xmpp_conn_t *conn)
     /* setup handlers for incoming <stream:features> */
     handler_add(conn, _handle_features, XMPP_NS_STREAMS, "features", NULL,
                 NULL);
-    handler_add_timed(conn, _handle_missing_features_sasl, FEATURES_TIMEOUT,
-                      NULL);
+    handler_add_timed(conn, _handle_missing_features, FEATURES_TIMEOUT, NULL);
 }
 
 /* called when stream:stream tag received after TLS establishment */
@@ -1034,7 +1033,8 @@ static void _handle_open_compress(xmpp_conn_t *conn)
     /* setup stream:features handlers */
     handler_add(conn, _handle_features_compress, XMPP_NS_STREAMS, "features",
                 NULL, NULL);
-    handler_add_timed(conn, _handle_missing_features, FEATURES_TIMEOUT, NULL);
+    handler_add_timed(conn, _handle_missing_features_sasl, FEATURES_TIMEOUT,
+                      NULL);
 }
 
 static int _do_bind(xmpp_conn_t *conn, xmpp_stanza_t *bind)
-- 
2.43.0


From 07c1d05f57b184af2d874c82337cc1d46700b6e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:09 +0000
Subject: [PATCH 49/59] fix: report stream errors on raw connections too

---
 src/auth.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/auth.c b/src/auth.c
index f4d89cc..8b6a24c 100644
--- a/src/auth.c
+++ b/src/auth.c
@@ -1831,6 +1831,8 @@ int _handle_missing_handshake(xmpp_conn_t *conn, void *userdata)
 void auth_handle_open_raw(xmpp_conn_t *conn)
 {
     handler_reset_timed(conn, 1);
+    /* setup handler for stream:error, the user gets it on disconnect */
+    handler_add(conn, _handle_error, XMPP_NS_STREAMS, "error", NULL, NULL);
     /* user handlers are not called before stream negotiation has completed. */
     _stream_negotiation_success(conn);
 }
-- 
2.43.0


From 2a6db92f98ce1b521a76231d0004410069f10ef3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:13 +0000
Subject: [PATCH 50/59] fix: don't use a SM state which the user has taken

---
 src/conn.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/conn.c b/src/conn.c
index e052dea..16d99c4 100644
--- a/src/conn.c
+++ b/src/conn.c
@@ -2146,7 +2146,8 @@ static void _handle_stream_stanza(xmpp_stanza_t *stanza, void *userdata)
     }
 
     handler_fire_stanza(conn, stanza);
-    if (conn->sm_state->sm_enabled)
+    /* the user may have taken the state when this stanza ended the connection */
+    if (conn->sm_state && conn->sm_state->sm_enabled)
         _conn_sm_handle_stanza(conn, stanza);
 }
 
-- 
2.43.0


From e704fad6f562e0bbbfc6aa430e6fda73242e10a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:45 +0000
Subject: [PATCH 51/59] fix: don't resume a session after its stanzas were sent
 in another one

When the server doesn't offer stream management on reconnect, the
stanzas which weren't acknowledged are sent again. If the previous
session was resumed later on, their numbers didn't match what the server
counts, and it would get them once more.
---
 src/auth.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/auth.c b/src/auth.c
index 8b6a24c..4420bb4 100644
--- a/src/auth.c
+++ b/src/auth.c
@@ -972,6 +972,10 @@ static void _auth(xmpp_conn_t *conn)
 
 static void _stream_negotiation_success(xmpp_conn_t *conn)
 {
+    /* a session whose stanzas are sent again in another one, which has no
+     * stream management, can't be resumed later on */
+    if (!conn->sm_state->sm_enabled)
+        conn->sm_state->can_resume = 0;
     /* what's left from a session which couldn't be resumed */
     _sm_queue_resend(conn);
     tls_clear_password_cache(conn);
-- 
2.43.0


From ca24c108076fdfe02f204bc721e19aece72b54a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:29 +0000
Subject: [PATCH 52/59] fix: don't count stream errors as stanzas

XEP-0198 counts stanzas only, a session can be resumed after a stream
error.
---
 src/conn.c | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/conn.c b/src/conn.c
index 16d99c4..7043bf4 100644
--- a/src/conn.c
+++ b/src/conn.c
@@ -2163,10 +2163,12 @@ static void _conn_sm_handle_stanza(xmpp_conn_t *const conn,
     unsigned long ul_h;
 
     ns = xmpp_stanza_get_ns(stanza);
-    if (!ns || strcmp(ns, XMPP_NS_SM) != 0)
-        ++conn->sm_state->sm_handled_nr;
-    else {
-        name = xmpp_stanza_get_name(stanza);
+    name = xmpp_stanza_get_name(stanza);
+    if (!ns || strcmp(ns, XMPP_NS_SM) != 0) {
+        /* a stream error isn't a stanza */
+        if (!ns || strcmp(ns, XMPP_NS_STREAMS) != 0)
+            ++conn->sm_state->sm_handled_nr;
+    } else {
         if (!name)
             return;
         if (strcmp(name, "r") == 0) {
-- 
2.43.0


From 5800808b7ed2b2861da1fd39e197c30de31e31d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:44 +0000
Subject: [PATCH 53/59] fix: don't wait for more data after the compressed
 stream broke

---
 src/compression.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/compression.c b/src/compression.c
index 7221645..64f9899 100644
--- a/src/compression.c
+++ b/src/compression.c
@@ -213,7 +213,8 @@ static int compression_pending(struct conn_interface *intf)
 {
     xmpp_conn_t *conn = intf->conn;
     struct xmpp_compression *comp = conn->compression.state;
-    return comp->decompression.stream.next_in != NULL ||
+    /* an error is found by the next read, don't wait for more data */
+    return comp->decompression.stream.next_in != NULL || comp->read_error ||
            comp->next.pending(intf);
 }
 
-- 
2.43.0


From d2c36fc4b1b4802413c371daa4ed60a25efddf00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:42 +0000
Subject: [PATCH 54/59] fix: don't take a certificate of any subdomain for a
 domain with a leading dot

---
 src/tls_openssl.c | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/tls_openssl.c b/src/tls_openssl.c
index e5d4082..98d7d75 100644
--- a/src/tls_openssl.c
+++ b/src/tls_openssl.c
@@ -719,6 +719,17 @@ tls_t *tls_new(xmpp_conn_t *conn)
         /* Hostname verification is supported in OpenSSL 1.0.2 and newer. */
         param = SSL_get0_param(tls->ssl);
 
+        /*
+         * OpenSSL takes a name with a leading dot as "any subdomain", but a
+         * certificate has to name exactly the domain we're connecting to.
+         */
+        if (conn->domain[0] == '.' && !conn->tls_trust) {
+            strophe_error(tls->ctx, "tls",
+                          "can't verify a certificate for domain '%s'",
+                          conn->domain);
+            goto err_free_ssl;
+        }
+
         /*
          * Allow only complete wildcards.  RFC 6125 discourages wildcard usage
          * completely, and lists internationalized domain names as a reason
-- 
2.43.0


From 832e779655af43ddea406a639aa07afa4a7b2549 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:21 +0000
Subject: [PATCH 55/59] fix: hash user name and password of DIGEST-MD5 in ISO
 8859-1 when possible

RFC 2831 demands this, even if the server supports UTF-8. Without a charset
directive the user name is transmitted in that charset as well.
---
 src/sasl.c | 40 +++++++++++++++++++++++++++++++++++++---
 1 file changed, 37 insertions(+), 3 deletions(-)

diff --git a/src/sasl.c b/src/sasl.c
index 343c2ce..f6bbef5 100644
--- a/src/sasl.c
+++ b/src/sasl.c
@@ -120,6 +120,33 @@ static void _unquote(char *s)
     *r = '\0';
 }
 
+/* RFC 2831: user name and password which have only characters of ISO 8859-1
+ * are hashed in that charset, `s` is what we have in UTF-8 */
+static char *_to_latin1(xmpp_ctx_t *ctx, const char *s)
+{
+    char *result = strophe_strdup(ctx, s);
+    char *r = result;
+    const char *c;
+
+    if (!result)
+        return NULL;
+    for (c = s; *c; c++) {
+        unsigned char ch = (unsigned char)*c;
+
+        if (ch >= 0x80) {
+            if ((ch != 0xc2 && ch != 0xc3) || (c[1] & 0xc0) != 0x80) {
+                /* not possible, keep it as it is */
+                strcpy(result, s);
+                return result;
+            }
+            ch = (unsigned char)((ch << 6) | (*++c & 0x3f));
+        }
+        *r++ = (char)ch;
+    }
+    *r = '\0';
+    return result;
+}
+
 /* check whether `item` is part of the comma separated list `list` */
 static int _is_in_list(const char *list, const char *item)
 {
@@ -281,6 +308,7 @@ char *sasl_digest_md5(xmpp_ctx_t *ctx,
     hash_t *table;
     char *result = NULL;
     char *node, *domain, *realm;
+    char *node_l1, *pass_l1;
     char *value;
     char *response;
     struct MD5Context MD5;
@@ -327,8 +355,12 @@ char *sasl_digest_md5(xmpp_ctx_t *ctx,
         realm = hash_get(table, "realm");
     }
 
+    node_l1 = _to_latin1(ctx, node);
+    pass_l1 = _to_latin1(ctx, password);
+
     /* add our response fields */
-    hash_add(table, "username", strophe_strdup(ctx, node));
+    hash_add(table, "username",
+             strophe_strdup(ctx, hash_get(table, "charset") ? node : node_l1));
     xmpp_rand_nonce(ctx->rand, cnonce, sizeof(cnonce));
     hash_add(table, "cnonce", strophe_strdup(ctx, cnonce));
     hash_add(table, "nc", strophe_strdup(ctx, "00000001"));
@@ -343,11 +375,11 @@ char *sasl_digest_md5(xmpp_ctx_t *ctx,
 
     /* construct MD5(node : realm : password) */
     MD5Init(&MD5);
-    MD5Update(&MD5, (unsigned char *)node, strlen(node));
+    MD5Update(&MD5, (unsigned char *)node_l1, strlen(node_l1));
     MD5Update(&MD5, (unsigned char *)":", 1);
     MD5Update(&MD5, (unsigned char *)realm, strlen(realm));
     MD5Update(&MD5, (unsigned char *)":", 1);
-    MD5Update(&MD5, (unsigned char *)password, strlen(password));
+    MD5Update(&MD5, (unsigned char *)pass_l1, strlen(pass_l1));
     MD5Final(digest, &MD5);
 
     /* digest now contains the first field of A1 */
@@ -415,6 +447,8 @@ char *sasl_digest_md5(xmpp_ctx_t *ctx,
         result = _add_key(ctx, table, "charset", result, 0);
 
     strophe_free(ctx, node);
+    strophe_free(ctx, node_l1);
+    strophe_free(ctx, pass_l1);
     strophe_free(ctx, domain);
     hash_release(table); /* also frees value strings */
 
-- 
2.43.0


From 2a846e60d8604695671796e98a41a7ba751d09c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:11 +0000
Subject: [PATCH 56/59] fix: authenticate with the bare JID in SASL EXTERNAL

A JID with a resource was never equal to the address in the certificate and
was sent as a full JID, which isn't a valid authorization identity.
---
 src/auth.c | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/src/auth.c b/src/auth.c
index 4420bb4..7a67210 100644
--- a/src/auth.c
+++ b/src/auth.c
@@ -817,15 +817,23 @@ static void _auth(xmpp_conn_t *conn)
             disconnect_mem_error(conn);
             return;
         }
+        /* the identity is the bare JID */
+        authid = xmpp_jid_bare(conn->ctx, conn->jid);
+        if (!authid) {
+            xmpp_stanza_release(authdata);
+            xmpp_stanza_release(auth);
+            disconnect_mem_error(conn);
+            return;
+        }
         str = tls_id_on_xmppaddr(conn, 0);
         if (!str || (tls_id_on_xmppaddr_num(conn) == 1 &&
-                     strcmp(str, conn->jid) == 0)) {
+                     strcmp(str, authid) == 0)) {
             xmpp_stanza_set_text(authdata, "=");
         } else {
             strophe_free(conn->ctx, str);
-            str = xmpp_base64_encode(conn->ctx, (void *)conn->jid,
-                                     strlen(conn->jid));
+            str = xmpp_base64_encode(conn->ctx, (void *)authid, strlen(authid));
             if (!str) {
+                strophe_free(conn->ctx, authid);
                 xmpp_stanza_release(authdata);
                 xmpp_stanza_release(auth);
                 disconnect_mem_error(conn);
@@ -834,6 +842,7 @@ static void _auth(xmpp_conn_t *conn)
             xmpp_stanza_set_text(authdata, str);
         }
         strophe_free(conn->ctx, str);
+        strophe_free(conn->ctx, authid);
 
         xmpp_stanza_add_child_ex(auth, authdata, 0);
 
-- 
2.43.0


From 14af68ef44108e068dae572b9a476fdffc508b7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:36 +0000
Subject: [PATCH 57/59] fix: find the subjectAltName if it's the first
 extension of a certificate

The search begins after the given position, so the first one was skipped and
SASL EXTERNAL didn't know the addresses in such a client certificate.
---
 src/tls_openssl.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tls_openssl.c b/src/tls_openssl.c
index 98d7d75..32a85d5 100644
--- a/src/tls_openssl.c
+++ b/src/tls_openssl.c
@@ -1209,7 +1209,7 @@ static GENERAL_NAMES *_tls_conn_get_names(xmpp_conn_t *conn)
 
 static GENERAL_NAMES *_tls_cert_get_names(X509 *client_cert)
 {
-    int san = X509_get_ext_by_NID(client_cert, NID_subject_alt_name, 0);
+    int san = X509_get_ext_by_NID(client_cert, NID_subject_alt_name, -1);
     X509_EXTENSION *san_ext = X509_get_ext(client_cert, san);
     if (!san_ext)
         return NULL;
-- 
2.43.0


From 4903ad21d673d278376c364e13a8c1839702ca84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:34 +0000
Subject: [PATCH 58/59] fix: accept any whitespace between the directives of a
 DIGEST-MD5 challenge

Tabs and line breaks became part of the next directive's name.
---
 src/sasl.c | 15 +++++++--------
 1 file changed, 7 insertions(+), 8 deletions(-)

diff --git a/src/sasl.c b/src/sasl.c
index f6bbef5..6bb3933 100644
--- a/src/sasl.c
+++ b/src/sasl.c
@@ -153,8 +153,8 @@ static int _is_in_list(const char *list, const char *item)
     size_t len, item_len = strlen(item);
 
     while (*list) {
-        list += strspn(list, ", \t");
-        len = strcspn(list, ", \t");
+        list += strspn(list, ", \t\r\n");
+        len = strcspn(list, ", \t\r\n");
         if (len == item_len && strncmp(list, item, len) == 0)
             return 1;
         list += len;
@@ -180,9 +180,8 @@ static hash_t *_parse_digest_challenge(xmpp_ctx_t *ctx, const char *msg)
     if (result != NULL) {
         s = text;
         while (*s != '\0') {
-            /* skip any leading commas and spaces */
-            while ((*s == ',') || (*s == ' '))
-                s++;
+            /* skip any leading commas and whitespace */
+            s += strspn((char *)s, ", \t\r\n");
             /* accumulate a key ending at '=' */
             t = s;
             while ((*t != '=') && (*t != '\0'))
@@ -211,10 +210,10 @@ static hash_t *_parse_digest_challenge(xmpp_ctx_t *ctx, const char *msg)
                 } else {
                     s = t;
                 }
-                /* otherwise, accumulate a value ending in ',' or '\0' */
+                /* otherwise, accumulate a value ending in ',', whitespace
+                   or '\0' */
             } else {
-                while ((*t != ',') && (*t != '\0'))
-                    t++;
+                t += strcspn((char *)t, ", \t\r\n");
                 value = _make_string(ctx, (char *)s, (t - s));
                 s = t;
             }
-- 
2.43.0


From ee1075e9c279f8922185441b705cbf39c7ec0418 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:49 +0000
Subject: [PATCH 59/59] fix: free the global timed handlers with the context

---
 src/ctx.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/ctx.c b/src/ctx.c
index ef4dff1..88e52f1 100644
--- a/src/ctx.c
+++ b/src/ctx.c
@@ -497,6 +497,11 @@ xmpp_ctx_t *xmpp_ctx_new(const xmpp_mem_t *mem, const xmpp_log_t *log)
  */
 void xmpp_ctx_free(xmpp_ctx_t *ctx)
 {
+    /* handlers which the user didn't delete */
+    while (ctx->timed_handlers)
+        xmpp_global_timed_handler_delete(
+            ctx, (xmpp_global_timed_handler)ctx->timed_handlers->handler);
+
     /* mem and log are owned by their suppliers */
     xmpp_rand_free(ctx, ctx->rand);
     strophe_free(ctx, ctx); /* pull the hole in after us */
-- 
2.43.0

