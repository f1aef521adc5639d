From 6c18903bbcb00fcdf868ee3d761f8af85323ca9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:04 +0000
Subject: [PATCH 01/46] fix: circ_buf_trim() computed a wrong stop index for
 wrapped data

---
 circular_buffer.c | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/circular_buffer.c b/circular_buffer.c
index ad0585a..49b6697 100644
--- a/circular_buffer.c
+++ b/circular_buffer.c
@@ -119,12 +119,8 @@ void circ_buf_trim(circ_buf_t* circ_buf, uint32_t target_len)
     // Data:       A  B  -  -  -
     // Start/stop  S  s
     //
-    if (circ_buf->stop_ind > target_len) {
-        circ_buf->stop_ind -= in_use - target_len;
-        return;
-    }
-
-    // We need to wrap stop_ind back to the end of the buffer.
+    // The data may also be wrapped, and stop_ind may have to move back
+    // to the end of the buffer.
     //
     // target_len: 1
     // Before
-- 
2.43.0


From 01dc614ffcd9a72d7fbb74f3762c097306f0334c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:06 +0000
Subject: [PATCH 02/46] fix: circ_buf_alloc() left the stop index beyond the
 end of the buffer

---
 circular_buffer.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/circular_buffer.c b/circular_buffer.c
index 49b6697..5c5b36f 100644
--- a/circular_buffer.c
+++ b/circular_buffer.c
@@ -78,6 +78,11 @@ int circ_buf_alloc(circ_buf_t* circ_buf,
         *segment2 = 0;
         *segment2_len = 0;
         circ_buf->stop_ind += len;
+
+        // Wrap, so that the next allocation does not start with an
+        // empty first segment outside the buffer.
+        if (circ_buf->stop_ind == buf_size)
+            circ_buf->stop_ind = 0;
         return 0;
     }
 
-- 
2.43.0


From c9ac73deb237bc3a55d17e21f13d1ec2b89fbe84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:07 +0000
Subject: [PATCH 03/46] fix: circ_buf_read_offset() skipped bytes at the start
 of the second segment

---
 circular_buffer.c | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/circular_buffer.c b/circular_buffer.c
index 5c5b36f..3723b0d 100644
--- a/circular_buffer.c
+++ b/circular_buffer.c
@@ -237,14 +237,10 @@ int circ_buf_read_offset(circ_buf_t* circ_buf,
     // 0 to either stop_ind (last data byte) or the number of bytes left
     // wanted by the caller, whichever is smaller.
     len -= segment_len;
-    if (offset > segment_len)
-        offset -= segment_len;
-    else
-        offset = 0;
 
     segment_len = RMC_MIN(len, circ_buf->stop_ind);
 
-    memcpy(target + copied_bytes, circ_buf->buffer + offset, segment_len);
+    memcpy(target + copied_bytes, circ_buf->buffer, segment_len);
 
     copied_bytes += segment_len;
 
-- 
2.43.0


From d17974eca9b983e1c8792b2ac015d65018212631 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:09 +0000
Subject: [PATCH 04/46] fix: control messages that wrap in the write buffer
 were sent with stack garbage

---
 rmc_sub_write.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rmc_sub_write.c b/rmc_sub_write.c
index a89713f..dfc1713 100644
--- a/rmc_sub_write.c
+++ b/rmc_sub_write.c
@@ -213,7 +213,7 @@ int rmc_sub_write_control_message(rmc_sub_context_t* ctx,
         memcpy(seg1, (uint8_t*) payload, seg1_len);
 
        if (seg2_len)
-            memcpy(seg2, ((uint8_t*) &payload) + seg1_len, seg2_len);
+            memcpy(seg2, ((uint8_t*) payload) + seg1_len, seg2_len);
 
 
         // We always want to read from the tcp  socket.
-- 
2.43.0


From 7d0b35f2b84bbf4df3166a84c06296de11e0fbd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:11 +0000
Subject: [PATCH 05/46] fix: the publisher's control message callback was never
 initialized

---
 rmc_pub_context.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rmc_pub_context.c b/rmc_pub_context.c
index 4c77812..e29c640 100644
--- a/rmc_pub_context.c
+++ b/rmc_pub_context.c
@@ -128,7 +128,7 @@ int rmc_pub_init_context(rmc_pub_context_t** context_res,
     ctx->subscriber_connect_cb = 0;
     ctx->subscriber_disconnect_cb = 0;
 
-    ctx->subscriber_connect_cb = 0;
+    ctx->subscriber_control_message_cb = 0;
 
     ctx->announce_cb = 0;
     ctx->announce_send_interval = 0;
-- 
2.43.0


From 15bea211bc9afe08c2711c95d9c5b365c80eae20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:13 +0000
Subject: [PATCH 06/46] fix: timed out packets are resent oldest first, and not
 held up by newer ones

---
 pub.c | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/pub.c b/pub.c
index b483f18..0035f1e 100644
--- a/pub.c
+++ b/pub.c
@@ -322,13 +322,14 @@ void pub_get_timed_out_packets(pub_subscriber_t* sub,
                                usec_timestamp_t timeout_period, // Number of usecs until timeout
                                pub_packet_list_t* result)
 {
-    pub_packet_node_t* pack_node = pub_packet_list_head(&sub->inflight);
+    pub_packet_node_t* pack_node = pub_packet_list_tail(&sub->inflight);
 
-    // Traverse all inflight packets for subscriber until we find one that is not timed out.x
+    // The list is sorted on descending pid. Traverse the inflight packets for
+    // subscriber, oldest first, until we find one that is not timed out.
     while(pack_node &&
           pack_node->data->send_ts + timeout_period <= current_ts) {
         pub_packet_list_push_tail(result, pack_node->data);
-        pack_node = pub_packet_list_next(pack_node);
+        pack_node = pub_packet_list_prev(pack_node);
     }
 
     return;
-- 
2.43.0


From 529ff5ff9276e9148064938b42e3cc43d39341c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:15 +0000
Subject: [PATCH 07/46] fix: a subscriber with a full write buffer no longer
 blocks resends to others

---
 rmc_pub_timeout.c | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/rmc_pub_timeout.c b/rmc_pub_timeout.c
index da3fd1e..fc622db 100644
--- a/rmc_pub_timeout.c
+++ b/rmc_pub_timeout.c
@@ -165,17 +165,16 @@ int rmc_pub_timeout_process(rmc_pub_context_t* ctx)
     // Traverse the list of subscribers and process their timed out packets
     // by sending them via the TCP control channel.
     while(pub_sub_list_pop_head(&subs, &sub)) {
-        res = process_subscriber_timeout(ctx, sub, current_ts);
+        int sub_res = process_subscriber_timeout(ctx, sub, current_ts);
 
-        if (res) {
-            // Clean up the list.
-            RMC_LOG_COMMENT("subscriber timeout failed: %s", strerror(res));
-            pub_sub_list_empty(&subs);
-            return res;
+        // Report the error, but carry on with the other subscribers.
+        if (sub_res) {
+            RMC_LOG_COMMENT("subscriber timeout failed: %s", strerror(sub_res));
+            res = sub_res;
         }
     }
 
-    return 0;
+    return res;
 }
 
 
-- 
2.43.0


From 53553d7680b98d49ecb7c48b79b7a316560183d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:17 +0000
Subject: [PATCH 08/46] fix: suspended traffic is resumed when a disconnect
 drains the inflight packets

---
 rmc_pub_read.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/rmc_pub_read.c b/rmc_pub_read.c
index 68c22b9..8704398 100644
--- a/rmc_pub_read.c
+++ b/rmc_pub_read.c
@@ -113,6 +113,13 @@ int rmc_pub_close_connection(rmc_pub_context_t* ctx, rmc_index_t s_ind)
     RMC_LOG_INDEX_INFO(s_ind, "rmc_pub_close_connection() - ok");
     pub_reset_subscriber(&ctx->subscribers[s_ind],
                          ctx->payload_free?ctx->payload_free:_generic_payload_free);
+
+    // The packets that the subscriber still owed us an ack for are gone.
+    // Check if we are to resume suspended traffic.
+    if (ctx->traffic_suspended &&
+        pub_get_unacknowledged_packet_count(&ctx->pub_ctx) <= ctx->traffic_resume_threshold)
+        ctx->traffic_suspended = 0;
+
     return 0;
 }
 
-- 
2.43.0


From fb795c328665a71eec79dce80d4a32c18d1493bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:54 +0000
Subject: [PATCH 09/46] fix: announcements kept a pointer to a dead stack
 buffer and were never freed

---
 pub.c             | 58 ++++++++++++++++++++++++++++++++++++++++-------
 rmc_internal.h    |  3 +++
 rmc_pub.h         | 17 ++++++++++++++
 rmc_pub_packet.c  | 28 +++++++++++++++++++----
 rmc_pub_timeout.c |  2 +-
 rmc_pub_write.c   | 10 ++++++++
 6 files changed, 104 insertions(+), 14 deletions(-)

diff --git a/pub.c b/pub.c
index 0035f1e..f58299c 100644
--- a/pub.c
+++ b/pub.c
@@ -9,6 +9,7 @@
 #include <assert.h>
 #include <stdlib.h>
 #include <stdio.h>
+#include <string.h>
 
 #include "rmc_list_template.h"
 
@@ -107,11 +108,11 @@ static int _compare_pid(pub_packet_t* new_pack, pub_packet_t* existing_pack, voi
 
 
 
-static packet_id_t pub_queue_packet_with_pid(pub_context_t* ctx,
-                                             packet_id_t pid,
-                                             void* payload,
-                                             payload_len_t payload_len,
-                                             user_data_t pkg_user_data)
+static pub_packet_t* pub_queue_packet_with_pid(pub_context_t* ctx,
+                                               packet_id_t pid,
+                                               void* payload,
+                                               payload_len_t payload_len,
+                                               user_data_t pkg_user_data)
 {
     pub_packet_t* ppack = 0;
     assert(ctx);
@@ -125,6 +126,7 @@ static packet_id_t pub_queue_packet_with_pid(pub_context_t* ctx,
     ppack->send_ts = 0; // Will be set by pub_packet_sent()
     ppack->pkg_user_data = pkg_user_data; // Handed to (*payload_free)()
     ppack->parent_node = 0;
+    ppack->payload_is_copy = 0;
 
     // Insert into ctx->queued, sorted in descending order.
     // We will pop off this list at the tail to get the next
@@ -136,7 +138,7 @@ static packet_id_t pub_queue_packet_with_pid(pub_context_t* ctx,
                                       _compare_pid,
                                       0);
 
-    return ppack->pid;
+    return ppack;
 }
 
 packet_id_t pub_queue_packet(pub_context_t* ctx,
@@ -148,7 +150,7 @@ packet_id_t pub_queue_packet(pub_context_t* ctx,
                                      _next_pid(ctx),
                                      payload,
                                      payload_len,
-                                     pkg_user_data);
+                                     pkg_user_data)->pid;
 
 }
 
@@ -161,10 +163,22 @@ packet_id_t pub_queue_no_acknowledge_packet(pub_context_t* ctx,
                                      0,
                                      payload,
                                      payload_len,
-                                     pkg_user_data);
+                                     pkg_user_data)->pid;
 
 }
 
+packet_id_t pub_queue_announce_copy(pub_context_t* ctx,
+                                    void* payload,
+                                    payload_len_t payload_len)
+{
+    void* copy = malloc(payload_len?payload_len:1);
+
+    assert(copy);
+    memcpy(copy, payload, payload_len);
+    pub_queue_packet_with_pid(ctx, 0, copy, payload_len, user_data_nil())->payload_is_copy = 1;
+    return 0;
+}
+
 extern uint32_t pub_queue_size(pub_context_t* ctx)
 {
     assert(ctx);
@@ -233,6 +247,34 @@ void pub_packet_sent(pub_context_t* ctx,
 }
 
 
+void pub_packet_release_unreferenced(pub_context_t* ctx,
+                                     pub_packet_t* pack,
+                                     void (*pub_payload_free)(void* payload,
+                                                              payload_len_t payload_len,
+                                                              user_data_t user_data))
+{
+    assert(ctx);
+    assert(pack);
+
+    if (pack->ref_count)
+        return;
+
+    // pub_packet_sent() leaves the node of an announcement in no list at all.
+    if (!pack->parent_node->owner)
+        pub_packet_list_push_head_node(&ctx->inflight, pack->parent_node);
+
+    pub_packet_list_delete(pack->parent_node);
+
+    if (pack->payload_is_copy)
+        free(pack->payload);
+    else if (pub_payload_free)
+        (*pub_payload_free)(pack->payload,
+                            pack->payload_len,
+                            pack->pkg_user_data);
+
+    _free_pending_packet(pack);
+}
+
 void pub_packet_ack(pub_subscriber_t* sub,
                     packet_id_t pid,
                     void (*pub_payload_free)(void* payload,
diff --git a/rmc_internal.h b/rmc_internal.h
index 8068eaa..ee4bf67 100644
--- a/rmc_internal.h
+++ b/rmc_internal.h
@@ -380,6 +380,9 @@ typedef struct rmc_conn_command_dispatch {
 
 
 
+// Queue an announcement with a copy of payload.
+extern int rmc_pub_queue_announce(struct rmc_pub_context* ctx, void* payload, payload_len_t payload_len);
+
 extern int rmc_pub_packet_ack(struct rmc_pub_context* ctx, struct rmc_connection* conn, packet_id_t pid);
 
 
diff --git a/rmc_pub.h b/rmc_pub.h
index 4fbc496..7d8765e 100644
--- a/rmc_pub.h
+++ b/rmc_pub.h
@@ -31,6 +31,9 @@ typedef struct pub_packet {
     // Allows for quick movement of packet as it changes status.
     struct _pub_packet_node* parent_node;
 
+    // Set if payload is a copy made by pub_queue_announce_copy()
+    uint8_t payload_is_copy;
+
     usec_timestamp_t send_ts;   // When was the packet sent
     void *payload;              // Payload provided by pub_queue_packet()
     payload_len_t payload_len;  // Payload length provided by pub_queue_packet()
@@ -122,6 +125,20 @@ extern packet_id_t pub_queue_packet(pub_context_t* ctx,
                                     payload_len_t payload_len,
                                     user_data_t pkg_user_data);
 
+// Used to send out pid=0 announcement packets with a private copy of payload,
+// which is freed by pub_packet_release_unreferenced().
+extern packet_id_t pub_queue_announce_copy(pub_context_t* ctx,
+                                           void* payload,
+                                           payload_len_t payload_len);
+
+// Free a sent packet, and its payload, if there is no subscriber that is to
+// acknowledge it.
+extern void pub_packet_release_unreferenced(pub_context_t* ctx,
+                                            pub_packet_t* ppack,
+                                            void (*pub_payload_free)(void* payload,
+                                                                     payload_len_t payload_len,
+                                                                     user_data_t user_data));
+
 // Used to send out pid=0 announcement packets
 extern packet_id_t pub_queue_no_acknowledge_packet(pub_context_t* ctx,
                                                    void* payload,
diff --git a/rmc_pub_packet.c b/rmc_pub_packet.c
index 98ae2a1..d5b1cbb 100644
--- a/rmc_pub_packet.c
+++ b/rmc_pub_packet.c
@@ -14,10 +14,11 @@
 #include <stdio.h>
 #include <stdlib.h>
 
-int rmc_pub_queue_packet(rmc_pub_context_t* ctx,
-                         void* payload,
-                         payload_len_t payload_len,
-                         uint8_t announce_flag)
+static int queue_packet(rmc_pub_context_t* ctx,
+                        void* payload,
+                        payload_len_t payload_len,
+                        uint8_t announce_flag,
+                        uint8_t copy_flag)
 {
     pub_packet_t *pack;
 
@@ -41,7 +42,9 @@ int rmc_pub_queue_packet(rmc_pub_context_t* ctx,
 
     // If this is an announcement, force PID to 0.
     // If this is a regular packet, let pub.c figure out the next PID to use.
-    if (announce_flag)
+    if (announce_flag && copy_flag)
+        pub_queue_announce_copy(&ctx->pub_ctx, payload, payload_len);
+    else if (announce_flag)
         pub_queue_no_acknowledge_packet(&ctx->pub_ctx, payload, payload_len, user_data_nil());
     else
         pub_queue_packet(&ctx->pub_ctx, payload, payload_len, user_data_nil());
@@ -69,6 +72,21 @@ int rmc_pub_queue_packet(rmc_pub_context_t* ctx,
 }
 
 
+int rmc_pub_queue_packet(rmc_pub_context_t* ctx,
+                         void* payload,
+                         payload_len_t payload_len,
+                         uint8_t announce_flag)
+{
+    return queue_packet(ctx, payload, payload_len, announce_flag, 0);
+}
+
+
+int rmc_pub_queue_announce(rmc_pub_context_t* ctx, void* payload, payload_len_t payload_len)
+{
+    return queue_packet(ctx, payload, payload_len, 1, 1);
+}
+
+
 uint32_t rmc_pub_queue_length(rmc_pub_context_t* ctx)
 {
     if (!ctx)
diff --git a/rmc_pub_timeout.c b/rmc_pub_timeout.c
index fc622db..2fd2479 100644
--- a/rmc_pub_timeout.c
+++ b/rmc_pub_timeout.c
@@ -146,7 +146,7 @@ int rmc_pub_timeout_process(rmc_pub_context_t* ctx)
 
         if (send_announce) {
             RMC_LOG_DEBUG("Sending announce");
-            rmc_pub_queue_packet(ctx, buffer, len, 1);
+            rmc_pub_queue_announce(ctx, buffer, len);
         }
 
         // Setup next announce.
diff --git a/rmc_pub_write.c b/rmc_pub_write.c
index c16e524..778307a 100644
--- a/rmc_pub_write.c
+++ b/rmc_pub_write.c
@@ -34,6 +34,11 @@ static void setup_packet_header(rmc_pub_context_t* ctx,
 // FIXME: If we see timed out (== lost) packets from subscribers, we should
 //        switch them to TCP for a period of time in order
 //        to use TCP's flow control until congestion has eased.
+static void _payload_free_generic(void* payload, payload_len_t payload_len, user_data_t user_data)
+{
+    free(payload);
+}
+
 static int send_single_multicast_packet(rmc_pub_context_t* ctx, pub_packet_t* pack)
 {
     pub_context_t* pctx = &ctx->pub_ctx;
@@ -106,6 +111,11 @@ static int send_single_multicast_packet(rmc_pub_context_t* ctx, pub_packet_t* pa
 
     pub_packet_sent(pctx, pack, rmc_usec_monotonic_timestamp());
 
+    // Nobody is going to acknowledge an announcement.
+    if (!pack->pid)
+        pub_packet_release_unreferenced(pctx, pack,
+                                        ctx->payload_free?ctx->payload_free:_payload_free_generic);
+
     res = 0;
 rearm:
     if (ctx->conn_vec.poll_modify) {
-- 
2.43.0


From 16d7bf348b5cbd79b047ab7f659c47df9384cc53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:55 +0000
Subject: [PATCH 10/46] fix: a packet that is sent when there are no
 subscribers is released at once

---
 rmc_pub_write.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/rmc_pub_write.c b/rmc_pub_write.c
index 778307a..e83bfb1 100644
--- a/rmc_pub_write.c
+++ b/rmc_pub_write.c
@@ -111,10 +111,10 @@ static int send_single_multicast_packet(rmc_pub_context_t* ctx, pub_packet_t* pa
 
     pub_packet_sent(pctx, pack, rmc_usec_monotonic_timestamp());
 
-    // Nobody is going to acknowledge an announcement.
-    if (!pack->pid)
-        pub_packet_release_unreferenced(pctx, pack,
-                                        ctx->payload_free?ctx->payload_free:_payload_free_generic);
+    // Nobody is going to acknowledge an announcement, or a packet sent without
+    // any subscribers.
+    pub_packet_release_unreferenced(pctx, pack,
+                                    ctx->payload_free?ctx->payload_free:_payload_free_generic);
 
     res = 0;
 rearm:
-- 
2.43.0


From 8b9cd0f89fb2c1a6be06d727d3c934be7544011d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:55 +0000
Subject: [PATCH 11/46] fix: queued packets were lost to their owner when a
 publisher context is deleted

---
 rmc_pub_context.c | 13 +++++++++++++
 rmc_sub_context.c |  1 +
 2 files changed, 14 insertions(+)

diff --git a/rmc_pub_context.c b/rmc_pub_context.c
index e29c640..1ca804f 100644
--- a/rmc_pub_context.c
+++ b/rmc_pub_context.c
@@ -305,13 +305,26 @@ int rmc_pub_deactivate_context(rmc_pub_context_t* ctx)
     return 0;
 }
 
+static void _payload_free_generic(void* payload, payload_len_t payload_len, user_data_t user_data)
+{
+    free(payload);
+}
+
 int rmc_pub_delete_context(rmc_pub_context_t* ctx)
 {
 
+    pub_packet_t* pack = 0;
+
     if (!ctx)
         return EINVAL;
     rmc_pub_deactivate_context(ctx);
 
+    // Release the packets that were never sent.
+    while((pack = pub_next_queued_packet(&ctx->pub_ctx)))
+        pub_packet_release_unreferenced(&ctx->pub_ctx, pack,
+                                        ctx->payload_free?ctx->payload_free:_payload_free_generic);
+
+    free(ctx->subscribers);
     free(ctx->conn_vec.connections);
     free(ctx);
     return 0;
diff --git a/rmc_sub_context.c b/rmc_sub_context.c
index d18a6f8..5bec9b7 100644
--- a/rmc_sub_context.c
+++ b/rmc_sub_context.c
@@ -266,6 +266,7 @@ int rmc_sub_delete_context(rmc_sub_context_t* ctx)
         return EINVAL;
     rmc_sub_deactivate_context(ctx);
 
+    free(ctx->publishers);
     free(ctx->conn_vec.connections);
     free(ctx);
     return 0;
-- 
2.43.0


From b86c90c28ffeb025f7b758dc6bf145599d93d8fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:57 +0000
Subject: [PATCH 12/46] fix: deactivating a subscriber leaked the payloads of
 undispatched packets

---
 rmc_sub_context.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rmc_sub_context.c b/rmc_sub_context.c
index 5bec9b7..149825f 100644
--- a/rmc_sub_context.c
+++ b/rmc_sub_context.c
@@ -231,7 +231,7 @@ int rmc_sub_deactivate_context(rmc_sub_context_t* ctx)
         return EINVAL;
 
     // Empty all packets that are dispatch ready.
-    while(sub_packet_list_pop_head(&ctx->dispatch_ready, &pack))
+    while((pack = rmc_sub_get_next_dispatch_ready(ctx)))
         rmc_sub_packet_dispatched(ctx, pack);
 
     // Empty ack list
-- 
2.43.0


From 129a0c2143476c327c657b472b6de8f5cc3d464c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:59 +0000
Subject: [PATCH 13/46] fix: descriptors are removed from polling once, and
 before they are closed, on deactivation

---
 rmc_pub_context.c |  9 ++++++---
 rmc_sub_context.c | 14 ++++++++------
 2 files changed, 14 insertions(+), 9 deletions(-)

diff --git a/rmc_pub_context.c b/rmc_pub_context.c
index 1ca804f..72f4e44 100644
--- a/rmc_pub_context.c
+++ b/rmc_pub_context.c
@@ -272,7 +272,7 @@ int rmc_pub_deactivate_context(rmc_pub_context_t* ctx)
 
     // Callback to remnove listen and multicast descriptor
     // from caller's poll vector.
-    if (ctx->conn_vec.poll_remove) {
+    if (ctx->conn_vec.poll_remove && ctx->listen_descriptor != -1) {
         (*ctx->conn_vec.poll_remove)(ctx->user_data,
                                      ctx->mcast_send_descriptor,
                                      RMC_MULTICAST_INDEX);
@@ -296,8 +296,11 @@ int rmc_pub_deactivate_context(rmc_pub_context_t* ctx)
         }
     }
 
-    close(ctx->mcast_send_descriptor);
-    close(ctx->listen_descriptor);
+    if (ctx->mcast_send_descriptor != -1)
+        close(ctx->mcast_send_descriptor);
+
+    if (ctx->listen_descriptor != -1)
+        close(ctx->listen_descriptor);
 
     ctx->mcast_send_descriptor = -1;
     ctx->listen_descriptor = -1;
diff --git a/rmc_sub_context.c b/rmc_sub_context.c
index 149825f..e378ec9 100644
--- a/rmc_sub_context.c
+++ b/rmc_sub_context.c
@@ -237,13 +237,15 @@ int rmc_sub_deactivate_context(rmc_sub_context_t* ctx)
     // Empty ack list
     rmc_index_list_empty(&ctx->pub_ack_list);
 
-    close(ctx->mcast_recv_descriptor);
-    if (ctx->conn_vec.poll_remove)
-        (*ctx->conn_vec.poll_remove)(ctx->user_data,
-                                     ctx->mcast_recv_descriptor,
-                                     RMC_MULTICAST_INDEX);
+    if (ctx->mcast_recv_descriptor != -1) {
+        if (ctx->conn_vec.poll_remove)
+            (*ctx->conn_vec.poll_remove)(ctx->user_data,
+                                         ctx->mcast_recv_descriptor,
+                                         RMC_MULTICAST_INDEX);
 
-    ctx->mcast_recv_descriptor = -1;
+        close(ctx->mcast_recv_descriptor);
+        ctx->mcast_recv_descriptor = -1;
+    }
 
     rmc_conn_get_max_index_in_use(&ctx->conn_vec, &max);
     for(ind = 0; ind <= max; ++ind) {
-- 
2.43.0


From 81d0de77ac76ab973ab8167dd76275d71114d7c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:01 +0000
Subject: [PATCH 14/46] fix: an announcement while a connection is being set up
 opened a second connection

---
 rmc_sub_read.c | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/rmc_sub_read.c b/rmc_sub_read.c
index a77ee4c..619c561 100644
--- a/rmc_sub_read.c
+++ b/rmc_sub_read.c
@@ -166,11 +166,18 @@ static int process_multicast_read(rmc_sub_context_t* ctx, uint8_t* read_res, uin
     // Find the socket we use to ack received packets back to the publisher.
     conn = rmc_conn_find_by_address(&ctx->conn_vec, pack_hdr->listen_ip, pack_hdr->listen_port);
 
+    // Nothing to do until the connection under way has been completed.
+    if (conn && conn->mode == RMC_CONNECTION_MODE_CONNECTING) {
+        if (read_res)
+            *read_res = RMC_READ_MULTICAST_NOT_READY;
+
+        return 0;
+    }
+
     // If no socket is setup, initiate the connection to the publisher.
     // Drop the recived packet
 
-    if (!conn || conn->mode == RMC_CONNECTION_MODE_CONNECTING) {
-        RMC_LOG_INDEX_DEBUG(conn?conn->connection_index:RMC_NIL_INDEX, "mode[%d]", conn?conn->mode:-1);
+    if (!conn) {
         res = decode_unsubscribed_multicast(ctx,
                                             pack_hdr,
                                             data);
-- 
2.43.0


From cca2822ff45f4622cc47f1dc0a6db7be4f395f51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:03 +0000
Subject: [PATCH 15/46] fix: accepted connections lacked the remote port, and
 had the address in network order

---
 rmc_connection.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/rmc_connection.c b/rmc_connection.c
index 73730e2..9a2d4ac 100644
--- a/rmc_connection.c
+++ b/rmc_connection.c
@@ -373,7 +373,8 @@ int rmc_conn_process_accept(int listen_descriptor,
     }
 
     conn_vec->connections[c_ind].mode = RMC_CONNECTION_MODE_CONNECTED;
-    conn_vec->connections[c_ind].remote_address = src_addr.sin_addr.s_addr;
+    conn_vec->connections[c_ind].remote_address = ntohl(src_addr.sin_addr.s_addr);
+    conn_vec->connections[c_ind].remote_port = ntohs(src_addr.sin_port);
 
     conn_vec->connections[c_ind].action = RMC_POLLREAD;
     if (conn_vec->poll_add)
-- 
2.43.0


From f2227356b1a24ad3870dc1124f555ecec306c1ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:05 +0000
Subject: [PATCH 16/46] fix: a failed accept or socket setup leaked its
 descriptor and slot

---
 rmc_connection.c | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/rmc_connection.c b/rmc_connection.c
index 9a2d4ac..01eb5ae 100644
--- a/rmc_connection.c
+++ b/rmc_connection.c
@@ -279,8 +279,11 @@ int rmc_conn_connect_tcp_by_address(rmc_connection_vector_t* conn_vec,
 
 
     conn_vec->connections[c_ind].descriptor = socket(AF_INET, SOCK_STREAM, 0);
-    if (conn_vec->connections[c_ind].descriptor == -1)
-        return errno;
+    if (conn_vec->connections[c_ind].descriptor == -1) {
+        res = errno;
+        _reset_max_connection_ind(conn_vec);
+        return res;
+    }
 
     // Set nonblocking mode on the socket.
     desc_flags = fcntl(conn_vec->connections[c_ind].descriptor, F_GETFL, 0);
@@ -354,8 +357,11 @@ int rmc_conn_process_accept(int listen_descriptor,
                                                       (struct sockaddr*) &src_addr,
                                                       &addr_len);
 
-    if (conn_vec->connections[c_ind].descriptor == -1)
-        return errno;
+    if (conn_vec->connections[c_ind].descriptor == -1) {
+        sock_err = errno;
+        _reset_max_connection_ind(conn_vec);
+        return sock_err;
+    }
 
     // Set nonblocking mode on the socket.
     desc_flags = fcntl(conn_vec->connections[c_ind].descriptor, F_GETFL, 0);
@@ -368,7 +374,9 @@ int rmc_conn_process_accept(int listen_descriptor,
     // out acks.
     if (setsockopt(conn_vec->connections[c_ind].descriptor, IPPROTO_TCP, TCP_NODELAY, (void *)&tr, sizeof(tr))) {
         sock_err = errno;
-        rmc_conn_close_connection(conn_vec, conn_vec->connections[c_ind].descriptor);
+        close(conn_vec->connections[c_ind].descriptor);
+        conn_vec->connections[c_ind].descriptor = -1;
+        _reset_max_connection_ind(conn_vec);
         return sock_err;
     }
 
-- 
2.43.0


From e6fce572cef0d108f770f3db1fd76a9d2d7dd830 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:06 +0000
Subject: [PATCH 17/46] fix: a failed connection attempt was removed from
 polling twice

---
 rmc_connection.c | 6 ------
 1 file changed, 6 deletions(-)

diff --git a/rmc_connection.c b/rmc_connection.c
index 01eb5ae..fea5877 100644
--- a/rmc_connection.c
+++ b/rmc_connection.c
@@ -211,9 +211,6 @@ int rmc_conn_complete_connection(rmc_connection_vector_t* conn_vec,
                               conn->remote_port,
                               strerror(sock_err));
 
-        if (conn_vec->poll_remove)
-            (*conn_vec->poll_remove)(conn_vec->user_data, conn->descriptor, conn->connection_index);
-
         rmc_conn_close_connection(conn_vec, conn->connection_index);
 
         return sock_err;
@@ -230,9 +227,6 @@ int rmc_conn_complete_connection(rmc_connection_vector_t* conn_vec,
                               conn->remote_port,
                               strerror(sock_err));
 
-        if (conn_vec->poll_remove)
-            (*conn_vec->poll_remove)(conn_vec->user_data, conn->descriptor, conn->connection_index);
-
         rmc_conn_close_connection(conn_vec, conn->connection_index);
         return sock_err;
     }
-- 
2.43.0


From 057fef44ef494c3b309fda497e1099aef537054e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:08 +0000
Subject: [PATCH 18/46] fix: acknowledgements that did not fit in the write
 buffer were lost, and held up others

---
 rmc_sub_timeout.c | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/rmc_sub_timeout.c b/rmc_sub_timeout.c
index d7a4a13..654fc9f 100644
--- a/rmc_sub_timeout.c
+++ b/rmc_sub_timeout.c
@@ -22,6 +22,7 @@ int rmc_sub_timeout_process(rmc_sub_context_t* ctx)
 {
     usec_timestamp_t current_ts = rmc_usec_monotonic_timestamp();
     rmc_index_node_t *inode = 0;
+    int ret = 0;
 
     if (!ctx)
         return EINVAL;
@@ -49,7 +50,8 @@ int rmc_sub_timeout_process(rmc_sub_context_t* ctx)
     while(inode) {
         sub_publisher_t* pub = &ctx->publishers[inode->data];
         sub_pid_interval_t pid_intv;
-
+        rmc_index_node_t *next = rmc_index_list_next(inode);
+        int res = 0;
 
         // If it is not yet time to send acks for this publisher, then
         // break out of loop and return.
@@ -67,19 +69,25 @@ int rmc_sub_timeout_process(rmc_sub_context_t* ctx)
         // For each publisher that we have a timed out ack  for, we will ack
         // all pending packets in one go.
         while(sub_pid_interval_list_pop_head(&pub->received_interval, &pid_intv)) {
-            int res = 0;
             res = rmc_sub_packet_interval_acknowledged(ctx, inode->data, &pid_intv);
             if (res) {
                 RMC_LOG_INDEX_INFO(inode->data,"Failed to send packet ack: %s", strerror(res));
-                return res;
+
+                // Keep the interval for a later attempt, and carry on
+                // with the other publishers.
+                sub_pid_interval_list_push_head(&pub->received_interval, pid_intv);
+                ret = res;
+                break;
             }
         }
 
-        rmc_index_list_delete(inode);
-        inode = rmc_index_list_head(&ctx->pub_ack_list);
+        if (!res)
+            rmc_index_list_delete(inode);
+
+        inode = next;
     }
 
-    return 0;
+    return ret;
 }
 
 
-- 
2.43.0


From 21b7cf133169007d169529834048bcf4ae13ff22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:10 +0000
Subject: [PATCH 19/46] fix: acknowledgements of a publisher were delayed by
 others, and by later receipts

---
 rmc_sub_packet.c  | 23 ++---------------------
 rmc_sub_timeout.c | 29 ++++++++++++++---------------
 sub.c             | 12 +++++++++++-
 3 files changed, 27 insertions(+), 37 deletions(-)

diff --git a/rmc_sub_packet.c b/rmc_sub_packet.c
index 6329934..b6eca3a 100644
--- a/rmc_sub_packet.c
+++ b/rmc_sub_packet.c
@@ -13,21 +13,6 @@
 #include <stdlib.h>
 #include <stdio.h>
 
-static int _compare_oldest_unackowledged_packet(rmc_index_t n_ind, rmc_index_t o_ind, void* user_data)
-{
-    rmc_sub_context_t* ctx = (rmc_sub_context_t*) user_data;
-    usec_timestamp_t n_oldest;
-    usec_timestamp_t o_oldest;
-
-    n_oldest = sub_oldest_unacknowledged_packet(&ctx->publishers[n_ind]);
-    o_oldest = sub_oldest_unacknowledged_packet(&ctx->publishers[o_ind]);
-
-    return (n_oldest < o_oldest)?-1:
-        ((n_oldest > o_oldest)?1:0);
-
-}
-
-
 int rmc_sub_packet_received(rmc_sub_context_t* ctx,
                             rmc_index_t index, // Into ctx->connections and ctx->publishers
                             packet_id_t pid,
@@ -42,13 +27,9 @@ int rmc_sub_packet_received(rmc_sub_context_t* ctx,
     // If this packet is the first one that needs to be acked for the
     // given publisher, then add the index of the publisher (and
     // connection) into the ctx->pub_ack_list.
-    // The list is sorted on oldest unacknowledged packet.
     //
-    if (!sub_oldest_unacknowledged_packet(pub))
-        rmc_index_list_insert_sorted_rev(&ctx->pub_ack_list,
-                                         index,
-                                         _compare_oldest_unackowledged_packet,
-                                         ctx);
+    if (!sub_pid_interval_list_size(&pub->received_interval))
+        rmc_index_list_push_tail(&ctx->pub_ack_list, index);
 
     sub_packet_received(&ctx->publishers[index],
                         pid,
diff --git a/rmc_sub_timeout.c b/rmc_sub_timeout.c
index 654fc9f..bb698f4 100644
--- a/rmc_sub_timeout.c
+++ b/rmc_sub_timeout.c
@@ -35,18 +35,10 @@ int rmc_sub_timeout_process(rmc_sub_context_t* ctx)
     // and identifies those publishers that need to have their
     // packets acknowledged next.
     //
-    // The list is populated by rmc_sub_packet_received() and is sorted
-    // on the ascending chronological order in which publishers need to have their
-    // packets acknowledged. This means that the head element
-    // points out the next publisher that needs at least one of
-    // its packets acked once more than ctx->ack_timeout usecs have
-    // elapsed since we received it.
+    // The list is populated by rmc_sub_packet_received().
     //
     inode = rmc_index_list_head(&ctx->pub_ack_list);
 
-    //
-    // Retreive the publisher with the oldest unacked packet.
-    //
     while(inode) {
         sub_publisher_t* pub = &ctx->publishers[inode->data];
         sub_pid_interval_t pid_intv;
@@ -54,12 +46,13 @@ int rmc_sub_timeout_process(rmc_sub_context_t* ctx)
         int res = 0;
 
         // If it is not yet time to send acks for this publisher, then
-        // break out of loop and return.
+        // carry on with the next one.
         if (sub_oldest_unacknowledged_packet(pub) + ctx->ack_timeout > current_ts) {
             RMC_LOG_INDEX_COMMENT(inode->data,
-                                  "%ld usec until timeout - returning",
+                                  "%ld usec until timeout - skipping",
                                   sub_oldest_unacknowledged_packet(pub) + ctx->ack_timeout - current_ts);
-            break;
+            inode = next;
+            continue;
         }
 
         RMC_LOG_INDEX_COMMENT(inode->data,
@@ -93,7 +86,7 @@ int rmc_sub_timeout_process(rmc_sub_context_t* ctx)
 
 int rmc_sub_timeout_get_next(rmc_sub_context_t* ctx, usec_timestamp_t* result)
 {
-    sub_publisher_t* pub = 0;
+    rmc_index_node_t *inode = 0;
 
     if (!ctx || !result)
         return EINVAL;
@@ -105,8 +98,14 @@ int rmc_sub_timeout_get_next(rmc_sub_context_t* ctx, usec_timestamp_t* result)
         return 0;
     }
 
-    pub = &ctx->publishers[rmc_index_list_head(&ctx->pub_ack_list)->data];
+    // Find the publisher with the oldest unacked packet.
+    *result = -1;
+    for (inode = rmc_index_list_head(&ctx->pub_ack_list); inode; inode = rmc_index_list_next(inode)) {
+        usec_timestamp_t due = sub_oldest_unacknowledged_packet(&ctx->publishers[inode->data]) + ctx->ack_timeout;
+
+        if (*result == -1 || due < *result)
+            *result = due;
+    }
 
-    *result = sub_oldest_unacknowledged_packet(pub) + ctx->ack_timeout;
     return 0;
 }
diff --git a/sub.c b/sub.c
index 34d0e95..71ebc5a 100644
--- a/sub.c
+++ b/sub.c
@@ -194,10 +194,20 @@ inline user_data_t sub_packet_user_data(sub_packet_t* pack)
 
 usec_timestamp_t sub_oldest_unacknowledged_packet(sub_publisher_t* pub)
 {
+    sub_pid_interval_node_t* inode = 0;
+    usec_timestamp_t oldest = 0;
+
     if (!pub || !sub_pid_interval_list_size(&pub->received_interval))
         return 0;
 
-    return sub_pid_interval_list_head(&pub->received_interval)->data.receive_ts;
+    // Intervals are sorted on pid, not on when they were received.
+    inode = sub_pid_interval_list_head(&pub->received_interval);
+    oldest = inode->data.receive_ts;
+    while((inode = sub_pid_interval_list_next(inode)))
+        if (inode->data.receive_ts < oldest)
+            oldest = inode->data.receive_ts;
+
+    return oldest;
 }
 
 // Add the pid of a received packet to the number of
-- 
2.43.0


From 34b77f44db05ba89a3e15ca45da6dee1937ad8ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:51 +0000
Subject: [PATCH 20/46] fix: closing a subscriber connection left its pending
 acknowledgements behind

---
 rmc_sub_read.c | 19 ++++++++++++++++++-
 1 file changed, 18 insertions(+), 1 deletion(-)

diff --git a/rmc_sub_read.c b/rmc_sub_read.c
index 619c561..b1e998b 100644
--- a/rmc_sub_read.c
+++ b/rmc_sub_read.c
@@ -359,11 +359,28 @@ static void _payload_free_generic(void* payload, payload_len_t payload_len, user
     free(payload);
 }
 
+static int _compare_index(rmc_index_t needle, rmc_index_t haystack, void* user_data)
+{
+    return needle == haystack;
+}
+
 int rmc_sub_close_connection(rmc_sub_context_t* ctx, rmc_index_t s_ind)
 {
+    rmc_index_node_t* inode = 0;
+    int res = 0;
+
     RMC_LOG_INDEX_COMMENT(s_ind, "rmc_sub_close_connection(): called");
 
-    rmc_conn_close_connection(&ctx->conn_vec, s_ind);
+    if (!ctx)
+        return EINVAL;
+
+    if ((res = rmc_conn_close_connection(&ctx->conn_vec, s_ind)))
+        return res;
+
+    // There is nobody left to acknowledge packets to.
+    inode = rmc_index_list_find_node(&ctx->pub_ack_list, s_ind, _compare_index, 0);
+    if (inode)
+        rmc_index_list_delete(inode);
 
     sub_reset_publisher(&ctx->publishers[s_ind],
                         ctx->payload_free?ctx->payload_free:_payload_free_generic);
-- 
2.43.0


From a6c9b54d9daa11cbea74dd64e0940184ec769451 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:53 +0000
Subject: [PATCH 21/46] fix: closing a connection that was never completed used
 uninitialized memory

---
 rmc_sub_context.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/rmc_sub_context.c b/rmc_sub_context.c
index e378ec9..9f4bf09 100644
--- a/rmc_sub_context.c
+++ b/rmc_sub_context.c
@@ -49,6 +49,7 @@ int rmc_sub_init_context(rmc_sub_context_t** context_res,
     unsigned int seed = rmc_usec_monotonic_timestamp() & 0xFFFFFFFF;
     rmc_sub_context_t* ctx;
     uint8_t* conn_vec = 0;
+    uint32_t ind = 0;
 
     if (!context_res || !mcast_group_addr)
         return EINVAL;
@@ -122,6 +123,8 @@ int rmc_sub_init_context(rmc_sub_context_t** context_res,
 
     // FIXME: Better memory management
     ctx->publishers = malloc(sizeof(sub_publisher_t) * max_publishers);
+    for (ind = 0; ind < max_publishers; ++ind)
+        sub_init_publisher(&ctx->publishers[ind]);
 
     RMC_LOG_DEBUG("Subscriber Context init. node_id[%u] mcast_group[%s:%d] mcast_if[%s] user_data[%u]",
                   ctx->node_id, mcast_group_addr, multicast_port, mcast_if_addr, user_data.u32);
-- 
2.43.0


From 13d55e9474e0b4e03e4e5aee07aa5449f0ede1f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:55 +0000
Subject: [PATCH 22/46] fix: payloads dropped on disconnect were freed with the
 wrong user data

---
 rmc_sub_read.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/rmc_sub_read.c b/rmc_sub_read.c
index b1e998b..22e7b4b 100644
--- a/rmc_sub_read.c
+++ b/rmc_sub_read.c
@@ -367,6 +367,7 @@ static int _compare_index(rmc_index_t needle, rmc_index_t haystack, void* user_d
 int rmc_sub_close_connection(rmc_sub_context_t* ctx, rmc_index_t s_ind)
 {
     rmc_index_node_t* inode = 0;
+    sub_packet_node_t* pnode = 0;
     int res = 0;
 
     RMC_LOG_INDEX_COMMENT(s_ind, "rmc_sub_close_connection(): called");
@@ -382,6 +383,12 @@ int rmc_sub_close_connection(rmc_sub_context_t* ctx, rmc_index_t s_ind)
     if (inode)
         rmc_index_list_delete(inode);
 
+    // Memory callbacks are to see the user data of the context.
+    for (pnode = sub_packet_list_head(&ctx->publishers[s_ind].received_pid);
+         pnode;
+         pnode = sub_packet_list_next(pnode))
+        pnode->data->pkg_user_data = ctx->user_data;
+
     sub_reset_publisher(&ctx->publishers[s_ind],
                         ctx->payload_free?ctx->payload_free:_payload_free_generic);
     return 0;
-- 
2.43.0


From abd7cbbffb775ab64c09ffc4a5f383ca1740ed9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:57 +0000
Subject: [PATCH 23/46] fix: the publisher's payload_free callback never
 received the context's user data

---
 rmc_pub_packet.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/rmc_pub_packet.c b/rmc_pub_packet.c
index d5b1cbb..925a71b 100644
--- a/rmc_pub_packet.c
+++ b/rmc_pub_packet.c
@@ -45,9 +45,9 @@ static int queue_packet(rmc_pub_context_t* ctx,
     if (announce_flag && copy_flag)
         pub_queue_announce_copy(&ctx->pub_ctx, payload, payload_len);
     else if (announce_flag)
-        pub_queue_no_acknowledge_packet(&ctx->pub_ctx, payload, payload_len, user_data_nil());
+        pub_queue_no_acknowledge_packet(&ctx->pub_ctx, payload, payload_len, ctx->user_data);
     else
-        pub_queue_packet(&ctx->pub_ctx, payload, payload_len, user_data_nil());
+        pub_queue_packet(&ctx->pub_ctx, payload, payload_len, ctx->user_data);
 
     if (ctx->conn_vec.poll_modify)  {
         // Did we already have a packet pending for send prior
-- 
2.43.0


From f67f236a6e03675af2a0dcd69dd8d13fa4be05c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:59 +0000
Subject: [PATCH 24/46] fix: new user data was not handed to the poll callbacks
 of connections

---
 rmc_pub_context.c | 1 +
 rmc_sub_context.c | 1 +
 2 files changed, 2 insertions(+)

diff --git a/rmc_pub_context.c b/rmc_pub_context.c
index 72f4e44..0478beb 100644
--- a/rmc_pub_context.c
+++ b/rmc_pub_context.c
@@ -452,6 +452,7 @@ int rmc_pub_set_user_data(rmc_pub_context_t* ctx, user_data_t user_data)
         return EINVAL;
 
     ctx->user_data = user_data;
+    ctx->conn_vec.user_data = user_data;
     return 0;
 }
 
diff --git a/rmc_sub_context.c b/rmc_sub_context.c
index 9f4bf09..ba9473d 100644
--- a/rmc_sub_context.c
+++ b/rmc_sub_context.c
@@ -320,6 +320,7 @@ int rmc_sub_set_user_data(rmc_sub_context_t* ctx, user_data_t user_data)
         return EINVAL;
 
     ctx->user_data = user_data;
+    ctx->conn_vec.user_data = user_data;
     return 0;
 }
 
-- 
2.43.0


From df493aed651e632ab2f689e4c1f69687e900d537 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:01 +0000
Subject: [PATCH 25/46] fix: missing returns when the pending queries are
 called without a context

---
 rmc_pub_read.c  | 2 +-
 rmc_pub_write.c | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/rmc_pub_read.c b/rmc_pub_read.c
index 8704398..9e37335 100644
--- a/rmc_pub_read.c
+++ b/rmc_pub_read.c
@@ -242,7 +242,7 @@ int rmc_pub_context_has_pending_send(rmc_pub_context_t* ctx, rmc_index_t s_ind)
     payload_len_t len = 0;
 
     if (!ctx)
-        EINVAL;
+        return EINVAL;
 
     conn = rmc_conn_find_by_index(&ctx->conn_vec, s_ind);
     if (!conn)
diff --git a/rmc_pub_write.c b/rmc_pub_write.c
index e83bfb1..a379e10 100644
--- a/rmc_pub_write.c
+++ b/rmc_pub_write.c
@@ -325,7 +325,7 @@ int rmc_pub_context_get_pending(rmc_pub_context_t* ctx,
     uint32_t queue_size = 0;
 
     if (!ctx)
-        EINVAL;
+        return EINVAL;
 
     if (ack_count)
         *ack_count = 0;
-- 
2.43.0


From 1754e8411c071797124ccafe620d2bd3a422d782 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:03 +0000
Subject: [PATCH 26/46] fix: reading from a publisher cleared the write
 interest of unsent acknowledgements

---
 rmc_sub_read.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/rmc_sub_read.c b/rmc_sub_read.c
index 22e7b4b..4004b76 100644
--- a/rmc_sub_read.c
+++ b/rmc_sub_read.c
@@ -472,8 +472,8 @@ rearm:
         (*ctx->conn_vec.poll_modify)(ctx->user_data,
                                      conn->descriptor,
                                      s_ind,
-                                     RMC_POLLREAD,
-                                     RMC_POLLREAD);
+                                     conn->action,
+                                     conn->action);
     }
     return res;
 }
-- 
2.43.0


From b5897c3b5e231a78a92db49d3bdf313229b2658f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:05 +0000
Subject: [PATCH 27/46] fix: a failed bind left the subscriber's descriptor
 open

---
 rmc_sub_context.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rmc_sub_context.c b/rmc_sub_context.c
index ba9473d..5c8e188 100644
--- a/rmc_sub_context.c
+++ b/rmc_sub_context.c
@@ -177,7 +177,7 @@ int rmc_sub_activate_context(rmc_sub_context_t* ctx)
              (struct sockaddr *) &sock_addr,
              sizeof(sock_addr)) < 0) {
         perror("rmc_listen(multicast_recv): bind()");
-        return errno;
+        goto error;
     }
 
     // Setup multicast group membership
-- 
2.43.0


From 96b7797dd56f0c47197074c9082ca7fdb078d133 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:07 +0000
Subject: [PATCH 28/46] fix: activating an active publisher context leaked its
 descriptors

---
 rmc_pub_context.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/rmc_pub_context.c b/rmc_pub_context.c
index 0478beb..95f0112 100644
--- a/rmc_pub_context.c
+++ b/rmc_pub_context.c
@@ -162,6 +162,9 @@ int rmc_pub_activate_context(rmc_pub_context_t* ctx)
     if (!ctx)
         return EINVAL;
 
+    if (ctx->mcast_send_descriptor != -1)
+        return EEXIST;
+
     //
     // Setup udp send descriptor to be received by multicast members.
     //
-- 
2.43.0


From 1bb4071c4a8eca82751a1f3b56a9262b79919321 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:09 +0000
Subject: [PATCH 29/46] fix: packets queued while the publisher was inactive
 had no effect on polling

---
 rmc_pub_context.c | 4 +++-
 rmc_pub_packet.c  | 4 +++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/rmc_pub_context.c b/rmc_pub_context.c
index 95f0112..96f464c 100644
--- a/rmc_pub_context.c
+++ b/rmc_pub_context.c
@@ -240,7 +240,9 @@ int rmc_pub_activate_context(rmc_pub_context_t* ctx)
         (*ctx->conn_vec.poll_add)(ctx->user_data,
                                   ctx->mcast_send_descriptor,
                                   RMC_MULTICAST_INDEX,
-                                  RMC_POLLREAD);
+                                  // Do we have packets that were queued before activation?
+                                  RMC_POLLREAD |
+                                  (pub_queue_size(&ctx->pub_ctx)?RMC_POLLWRITE:0));
 
         (*ctx->conn_vec.poll_add)(ctx->user_data,
                                   ctx->listen_descriptor,
diff --git a/rmc_pub_packet.c b/rmc_pub_packet.c
index 925a71b..0c7b3bb 100644
--- a/rmc_pub_packet.c
+++ b/rmc_pub_packet.c
@@ -49,7 +49,9 @@ static int queue_packet(rmc_pub_context_t* ctx,
     else
         pub_queue_packet(&ctx->pub_ctx, payload, payload_len, ctx->user_data);
 
-    if (ctx->conn_vec.poll_modify)  {
+    // If the context is not active yet, rmc_pub_activate_context() will
+    // ask for POLLWRITE.
+    if (ctx->conn_vec.poll_modify && ctx->mcast_send_descriptor != -1)  {
         // Did we already have a packet pending for send prior
         // to queueing the lastest packet? If so, old action
         // was POLLWRITE, if not, it was 0.
-- 
2.43.0


From e24de35b655cd41dcd45693549d8e1cce77d98a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:11 +0000
Subject: [PATCH 30/46] fix: traffic stayed suspended when the thresholds were
 lifted

---
 rmc_pub_context.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/rmc_pub_context.c b/rmc_pub_context.c
index 96f464c..ad6a572 100644
--- a/rmc_pub_context.c
+++ b/rmc_pub_context.c
@@ -509,5 +509,11 @@ int rmc_pub_throttling(rmc_pub_context_t* ctx,
     }
     ctx->traffic_suspend_threshold = suspend_threshold;
     ctx->traffic_resume_threshold = resume_threshold;
+
+    // Resume traffic if it is no longer held back by the new thresholds.
+    if (!suspend_threshold ||
+        pub_get_unacknowledged_packet_count(&ctx->pub_ctx) <= resume_threshold)
+        ctx->traffic_suspended = 0;
+
     return 0;
 }
-- 
2.43.0


From 8b956fde12e057d8ee1131ce1a16636388cc300e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:13 +0000
Subject: [PATCH 31/46] fix: control messages by node id were refused if
 another connection with that id was being set up

---
 rmc_connection.c | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/rmc_connection.c b/rmc_connection.c
index fea5877..b4c1a0e 100644
--- a/rmc_connection.c
+++ b/rmc_connection.c
@@ -78,21 +78,28 @@ rmc_connection_t* rmc_conn_find_by_node_id(rmc_connection_vector_t* conn_vec,
                                            rmc_node_id_t node_id)
 {
     rmc_index_t ind = 0;
+    rmc_connection_t* res = 0;
 
     // Do we have any connections in use at all?
     if (!conn_vec || conn_vec->max_connection_ind == RMC_NIL_INDEX)
         return 0;
 
 
+    // Prefer an established connection.
     // FIXME: Replace with hash table search to speed up.
     while(ind <= conn_vec->max_connection_ind) {
         if (conn_vec->connections[ind].descriptor != -1 &&
-            conn_vec->connections[ind].node_id == node_id)
-            return &conn_vec->connections[ind];
+            conn_vec->connections[ind].node_id == node_id) {
+            if (conn_vec->connections[ind].mode == RMC_CONNECTION_MODE_CONNECTED)
+                return &conn_vec->connections[ind];
+
+            if (!res)
+                res = &conn_vec->connections[ind];
+        }
 
         ++ind;
     }
-    return 0;
+    return res;
 }
 
 
-- 
2.43.0


From c745a6929cbb6ec9c9c1f435d843f971af556dd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:10 +0000
Subject: [PATCH 32/46] fix: failed activation could return another error than
 the failing step's

---
 rmc_log.c         |  3 +++
 rmc_pub_context.c |  6 ++++--
 rmc_sub_context.c | 12 +++++++-----
 3 files changed, 14 insertions(+), 7 deletions(-)

diff --git a/rmc_log.c b/rmc_log.c
index 2db7c70..3be6751 100644
--- a/rmc_log.c
+++ b/rmc_log.c
@@ -12,6 +12,7 @@
 #include "rmc_log.h"
 #include "string.h"
 #include <unistd.h>
+#include <errno.h>
 #include <stdlib.h>
 
 static usec_timestamp_t start_time = 0;
@@ -193,6 +194,7 @@ void rmc_log(int log_level, const char* func, const char* file, int line, uint16
     const char* tag = 0;
     char index_str[32];
     va_list ap;
+    int saved_errno = errno; // Callers log before they return errno.
 
     // Default rmc_log_file, if not set.
     if (!_rmc_log_file)
@@ -278,5 +280,6 @@ void rmc_log(int log_level, const char* func, const char* file, int line, uint16
     vfprintf(_rmc_log_file, fmt, ap);
     va_end(ap);
     fputc('\n', _rmc_log_file);
+    errno = saved_errno;
 }
 // 8592
diff --git a/rmc_pub_context.c b/rmc_pub_context.c
index ad6a572..317447d 100644
--- a/rmc_pub_context.c
+++ b/rmc_pub_context.c
@@ -158,6 +158,7 @@ int rmc_pub_activate_context(rmc_pub_context_t* ctx)
     struct in_addr in_addr;
     socklen_t sock_len = sizeof(struct sockaddr_in);
     int on_flag = 1;
+    int res = 0;
 
     if (!ctx)
         return EINVAL;
@@ -181,7 +182,7 @@ int rmc_pub_activate_context(rmc_pub_context_t* ctx)
     in_addr.s_addr = htonl(ctx->mcast_if_addr);
     if (setsockopt(ctx->mcast_send_descriptor,
                    IPPROTO_IP, IP_MULTICAST_IF, &in_addr, sizeof(in_addr)) < 0) {
-        perror("rmc_activate_context(multicast_recv): setsockopt(IP_MULTICAST_IF)");
+        RMC_LOG_WARNING("rmc_activate_context(multicast_recv): setsockopt(IP_MULTICAST_IF): %s", strerror(errno));
         goto error;
     }
 
@@ -253,6 +254,7 @@ int rmc_pub_activate_context(rmc_pub_context_t* ctx)
     return 0;
 
 error:
+    res = errno; // Save it.
 
     if (ctx->mcast_send_descriptor != -1) {
         close(ctx->mcast_send_descriptor);
@@ -264,7 +266,7 @@ error:
         ctx->listen_descriptor = -1;
     }
 
-    return errno;
+    return res;
 }
 
 int rmc_pub_deactivate_context(rmc_pub_context_t* ctx)
diff --git a/rmc_sub_context.c b/rmc_sub_context.c
index 5c8e188..54b930e 100644
--- a/rmc_sub_context.c
+++ b/rmc_sub_context.c
@@ -138,6 +138,7 @@ int rmc_sub_activate_context(rmc_sub_context_t* ctx)
     struct ip_mreq mreq;
     int on_flag = 1;
     int sz = 1024*1024;
+    int res = 0;
 
     if (!ctx)
         return EINVAL;
@@ -151,7 +152,7 @@ int rmc_sub_activate_context(rmc_sub_context_t* ctx)
     ctx->mcast_recv_descriptor = socket (AF_INET, SOCK_DGRAM, 0);
 
     if (ctx->mcast_recv_descriptor == -1) {
-        perror("rmc_activate_context(multicast_recv): socket()");
+        RMC_LOG_ERROR("rmc_activate_context(multicast_recv): socket(): %s", strerror(errno));
         goto error;
     }
 
@@ -176,7 +177,7 @@ int rmc_sub_activate_context(rmc_sub_context_t* ctx)
     if (bind(ctx->mcast_recv_descriptor,
              (struct sockaddr *) &sock_addr,
              sizeof(sock_addr)) < 0) {
-        perror("rmc_listen(multicast_recv): bind()");
+        RMC_LOG_ERROR("rmc_listen(multicast_recv): bind(): %s", strerror(errno));
         goto error;
     }
 
@@ -185,7 +186,7 @@ int rmc_sub_activate_context(rmc_sub_context_t* ctx)
     mreq.imr_interface.s_addr = htonl(ctx->mcast_if_addr);
     if (setsockopt(ctx->mcast_recv_descriptor,
                    IPPROTO_IP, IP_ADD_MEMBERSHIP, &mreq, sizeof(mreq)) < 0) {
-        perror("rmc_activate_context(multicast_recv): setsockopt(IP_ADD_MEMBERSHIP)");
+        RMC_LOG_ERROR("rmc_activate_context(multicast_recv): setsockopt(IP_ADD_MEMBERSHIP): %s", strerror(errno));
         goto error;
     }
 
@@ -200,7 +201,7 @@ int rmc_sub_activate_context(rmc_sub_context_t* ctx)
     //
     if (setsockopt(ctx->mcast_recv_descriptor,
                    IPPROTO_IP, IP_MULTICAST_LOOP, &on_flag, sizeof(on_flag)) < 0) {
-        perror("rmc_activate_context(): setsockopt(IP_MULTICAST_LOOP)");
+        RMC_LOG_ERROR("rmc_activate_context(): setsockopt(IP_MULTICAST_LOOP): %s", strerror(errno));
         goto error;
     }
 
@@ -213,13 +214,14 @@ int rmc_sub_activate_context(rmc_sub_context_t* ctx)
     return 0;
 
 error:
+    res = errno; // Save it.
     if (ctx->mcast_recv_descriptor != -1) {
         close(ctx->mcast_recv_descriptor);
         ctx->mcast_recv_descriptor = -1;
     }
 
 
-    return errno;
+    return res;
 }
 
 
-- 
2.43.0


From 97bbaca2f598b7a0af3e48d7aadd99c4e64d64df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:08:15 +0000
Subject: [PATCH 33/46] fix: a connection that could not be completed was
 reported as completed through op_res

---
 rmc_sub_write.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/rmc_sub_write.c b/rmc_sub_write.c
index dfc1713..66f4be2 100644
--- a/rmc_sub_write.c
+++ b/rmc_sub_write.c
@@ -300,6 +300,9 @@ int rmc_sub_write(rmc_sub_context_t* ctx, rmc_index_t s_ind, uint8_t* op_res)
         res = rmc_conn_complete_connection(&ctx->conn_vec, conn);
         if (res) {
             RMC_LOG_INDEX_INFO(s_ind, "Failed to complete connection: %s", strerror(errno));
+            if (op_res)
+                *op_res = RMC_ERROR;
+
             rmc_conn_close_connection(&ctx->conn_vec, conn->connection_index);
             return res;
         }
-- 
2.43.0


From ba0304cb68ec2cac15b6297b7d5c9eeaf153248b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:08:15 +0000
Subject: [PATCH 34/46] fix: RMC_READ_MULTICAST_NEW was never reported

---
 rmc_sub_read.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/rmc_sub_read.c b/rmc_sub_read.c
index 4004b76..a2edd1f 100644
--- a/rmc_sub_read.c
+++ b/rmc_sub_read.c
@@ -182,8 +182,10 @@ static int process_multicast_read(rmc_sub_context_t* ctx, uint8_t* read_res, uin
                                             pack_hdr,
                                             data);
 
+        // Did the packet make us connect to a new publisher?
         if (read_res)
-            *read_res = RMC_READ_MULTICAST_NOT_READY;
+            *read_res = rmc_conn_find_by_address(&ctx->conn_vec, pack_hdr->listen_ip, pack_hdr->listen_port)?
+                RMC_READ_MULTICAST_NEW:RMC_READ_MULTICAST_NOT_READY;
 
         return res;
     }
-- 
2.43.0


From cf477ef847e7ce021374bcff1507122a97051803 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:08:15 +0000
Subject: [PATCH 35/46] fix: errors of multicast reads were not reported
 through op_res

---
 rmc_sub_read.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/rmc_sub_read.c b/rmc_sub_read.c
index a2edd1f..25b29a1 100644
--- a/rmc_sub_read.c
+++ b/rmc_sub_read.c
@@ -245,6 +245,10 @@ static int multicast_read(rmc_sub_context_t* ctx, uint8_t* read_res)
     }
 
 rearm:
+    // Do not report an earlier packet's success for a failed read.
+    if (read_res && res != EAGAIN)
+        *read_res = RMC_ERROR;
+
     // Re-arm the poll descriptor and return.
     if (ctx->conn_vec.poll_modify)
         (*ctx->conn_vec.poll_modify)(ctx->user_data,
-- 
2.43.0


From 6acc8b8b794e94cfe7b193f13e8c93a288b4d7e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:08:15 +0000
Subject: [PATCH 36/46] fix: errors of multicast writes were not reported
 through op_res

---
 rmc_pub_write.c | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/rmc_pub_write.c b/rmc_pub_write.c
index a379e10..e864226 100644
--- a/rmc_pub_write.c
+++ b/rmc_pub_write.c
@@ -249,12 +249,15 @@ int rmc_pub_write(rmc_pub_context_t* ctx, rmc_index_t s_ind, uint8_t* op_res)
     assert(ctx);
 
     if (s_ind == RMC_MULTICAST_INDEX) {
-        if (op_res)
-            *op_res = RMC_WRITE_MULTICAST;
         // Write as many multicast packets as we can.
         RMC_LOG_INDEX_DEBUG(RMC_MULTICAST_INDEX,
                             "Processing multicast write");
-        return process_multicast_write(ctx);
+        res = process_multicast_write(ctx);
+
+        if (op_res)
+            *op_res = res?RMC_ERROR:RMC_WRITE_MULTICAST;
+
+        return res;
     }
 
     // Is s_ind within our connection vector?
-- 
2.43.0


From 67ebccc62df0cf05937b4272a9288fbff20efdf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:08:39 +0000
Subject: [PATCH 37/46] fix: creating a context with a bad address leaked its
 memory and left a dangling context

---
 rmc_pub_context.c | 12 +++++++++---
 rmc_sub_context.c | 10 ++++++++--
 2 files changed, 17 insertions(+), 5 deletions(-)

diff --git a/rmc_pub_context.c b/rmc_pub_context.c
index 317447d..8f90572 100644
--- a/rmc_pub_context.c
+++ b/rmc_pub_context.c
@@ -92,21 +92,21 @@ int rmc_pub_init_context(rmc_pub_context_t** context_res,
     if (!inet_aton(mcast_group_addr, &addr)) {
         RMC_LOG_WARNING("Could not resolve multicast address %s to IP address\n",
                 mcast_group_addr);
-        return EINVAL;
+        goto fail;
     }
     ctx->mcast_group_addr = ntohl(addr.s_addr);
 
     if (!inet_aton(control_listen_if_addr, &addr)) {
         RMC_LOG_WARNING("Could not resolve tcp listen address %s to IP address\n",
                 control_listen_if_addr);
-        return EINVAL;
+        goto fail;
     }
     ctx->control_listen_if_addr = ntohl(addr.s_addr);
 
     if (!inet_aton(mcast_if_addr, &addr)) {
         fprintf(stderr, "rmc_activate_context(multicast_interface_addr): Could not resolve %s to IP address\n",
                 mcast_if_addr);
-        return EINVAL;
+        goto fail;
     }
     ctx->mcast_if_addr = ntohl(addr.s_addr);
 
@@ -149,6 +149,12 @@ int rmc_pub_init_context(rmc_pub_context_t** context_res,
     RMC_LOG_DEBUG("Publisher Context init. node_id[0x%X] mcast_group[%s:%d] mcast_if[%s] user_data[0x%X]",
                   ctx->node_id, mcast_group_addr, multicast_port,  mcast_if_addr, user_data.u32);
     return 0;
+
+fail:
+    free(conn_vec);
+    free(ctx);
+    *context_res = 0;
+    return EINVAL;
 }
 
 
diff --git a/rmc_sub_context.c b/rmc_sub_context.c
index 54b930e..b8c2585 100644
--- a/rmc_sub_context.c
+++ b/rmc_sub_context.c
@@ -93,14 +93,14 @@ int rmc_sub_init_context(rmc_sub_context_t** context_res,
     if (!inet_aton(mcast_group_addr, &addr)) {
         fprintf(stderr, "rmc_activate_context(multicast_group_addr): Could not resolve %s to IP address\n",
                 mcast_group_addr);
-        return EINVAL;
+        goto fail;
     }
     ctx->mcast_group_addr = ntohl(addr.s_addr);
 
     if (!inet_aton(mcast_if_addr, &addr)) {
         fprintf(stderr, "rmc_activate_context(multicast_interface_addr): Could not resolve %s to IP address\n",
                 mcast_if_addr);
-        return EINVAL;
+        goto fail;
     }
     ctx->mcast_if_addr = ntohl(addr.s_addr);
 
@@ -129,6 +129,12 @@ int rmc_sub_init_context(rmc_sub_context_t** context_res,
     RMC_LOG_DEBUG("Subscriber Context init. node_id[%u] mcast_group[%s:%d] mcast_if[%s] user_data[%u]",
                   ctx->node_id, mcast_group_addr, multicast_port, mcast_if_addr, user_data.u32);
     return 0;
+
+fail:
+    free(conn_vec);
+    free(ctx);
+    *context_res = 0;
+    return EINVAL;
 }
 
 
-- 
2.43.0


From 0c9623e7e5385837166d30a2ca1c86cf8b99d256 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:14:27 +0000
Subject: [PATCH 38/46] fix: every dispatched packet leaked its packet record

---
 rmc_sub_packet.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/rmc_sub_packet.c b/rmc_sub_packet.c
index b6eca3a..8b0374f 100644
--- a/rmc_sub_packet.c
+++ b/rmc_sub_packet.c
@@ -99,6 +99,7 @@ int rmc_sub_packet_dispatched(rmc_sub_context_t* ctx, sub_packet_t* pack)
     else
         free(pack->payload);
 
+    free(pack);
     return 0;
 }
 
-- 
2.43.0


From 8d19637b094c24addaaa4dd5bd1d411c96d82693 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:50:23 +0000
Subject: [PATCH 39/46] fix: an acknowledgement of a huge range made the
 publisher loop for ages or for ever

---
 rmc_pub_read.c | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/rmc_pub_read.c b/rmc_pub_read.c
index 9e37335..cdf6731 100644
--- a/rmc_pub_read.c
+++ b/rmc_pub_read.c
@@ -22,6 +22,7 @@ static int process_cmd_ack_interval(rmc_connection_t* conn, user_data_t user_dat
 {
     cmd_ack_interval_t ack;
     rmc_pub_context_t* ctx = (rmc_pub_context_t*) user_data.ptr;
+    pub_packet_list_t* inflight = &ctx->subscribers[conn->connection_index].inflight;
     packet_id_t pid = 0;
     // Do we have enough data?
     if (circ_buf_in_use(&conn->read_buf) < sizeof(ack) + 1)
@@ -34,6 +35,17 @@ static int process_cmd_ack_interval(rmc_connection_t* conn, user_data_t user_dat
     RMC_LOG_INDEX_COMMENT(conn->connection_index,
                           "process_cmd_ack_interval(): interval[%lu:%lu]", ack.first_pid, ack.last_pid);
 
+    // The size of the interval is up to the subscriber. Do not look
+    // beyond the packets that it has not acknowledged yet.
+    if (!pub_packet_list_size(inflight))
+        return 0;
+
+    if (ack.first_pid < pub_packet_list_tail(inflight)->data->pid)
+        ack.first_pid = pub_packet_list_tail(inflight)->data->pid;
+
+    if (ack.last_pid > pub_packet_list_head(inflight)->data->pid)
+        ack.last_pid = pub_packet_list_head(inflight)->data->pid;
+
     // Mark all packets in the interval as acknwoledged, and call the
     // payload free function provided to rmc_pub_init_context(). If no
     // function is provided, free() will bre called.
-- 
2.43.0


From 625f64b3c9068716297491903b1e912caaabbf2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:50:23 +0000
Subject: [PATCH 40/46] fix: a publisher kept the connection of a subscriber
 that broke the protocol

---
 rmc_pub_read.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/rmc_pub_read.c b/rmc_pub_read.c
index cdf6731..4c905e7 100644
--- a/rmc_pub_read.c
+++ b/rmc_pub_read.c
@@ -232,6 +232,12 @@ int rmc_pub_read(rmc_pub_context_t* ctx, rmc_index_t s_ind, uint8_t* op_res)
         return 0; // This is not an error, just regular maintenance.
     }
 
+    // There is no way to tell where the next command starts.
+    if (res == EPROTO) {
+        rmc_pub_close_connection(ctx, s_ind);
+        return res;
+    }
+
     // Read poll is always active. Callback to re-arm.
     old_action = conn->action;
     rmc_conn_get_pending_send_length(conn, &write_buf_sz);
-- 
2.43.0


From f5c37899e6381adcd41e011866de6b4bcbef9e72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:50:23 +0000
Subject: [PATCH 41/46] fix: a command too long to ever fit the read buffer
 stalled its connection for ever

---
 rmc_pub_read.c | 5 +++++
 rmc_sub_read.c | 4 ++++
 2 files changed, 9 insertions(+)

diff --git a/rmc_pub_read.c b/rmc_pub_read.c
index 4c905e7..41efe21 100644
--- a/rmc_pub_read.c
+++ b/rmc_pub_read.c
@@ -67,6 +67,11 @@ static int process_control_message(rmc_connection_t* conn, user_data_t user_data
     // Read message header
     circ_buf_read_offset(&conn->read_buf, 1, (uint8_t*) &msg, sizeof(msg), 0);
 
+    // Can we ever have enough data for payload?
+    // (circular buffers keep one byte reserved)
+    if (sizeof(msg) + 1 + msg.payload_len >= sizeof(conn->read_buf_data))
+        return EPROTO;
+
     // Do we have enough data for payload?
     if (circ_buf_in_use(&conn->read_buf) < sizeof(msg) + 1 + msg.payload_len)
         return EAGAIN;
diff --git a/rmc_sub_read.c b/rmc_sub_read.c
index 25b29a1..cb675a7 100644
--- a/rmc_sub_read.c
+++ b/rmc_sub_read.c
@@ -285,6 +285,10 @@ static int process_cmd_packet(rmc_connection_t* conn, user_data_t user_data)
     // Read the command byte and the packet header
     circ_buf_read_offset(&conn->read_buf, 1, (uint8_t*) &pack_hdr, sizeof(pack_hdr), 0);
 
+    // Can the payload ever fit? (circular buffers keep one byte reserved)
+    if (1 + sizeof(packet_header_t) + pack_hdr.payload_len >= sizeof(conn->read_buf_data))
+        return EPROTO;
+
     // Now we know how big the payload is. Check if we have enough memory for an atomic
     // process or reject.
     if (circ_buf_in_use(&conn->read_buf) < 1 + sizeof(packet_header_t) + pack_hdr.payload_len) {
-- 
2.43.0


From 81c578ce6c2397663daae07b8aed730db440143c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:50:23 +0000
Subject: [PATCH 42/46] hook: let the verification harness start a publisher at
 a given packet number (RMC_VERIFICATION)

---
 rmc_pub_context.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/rmc_pub_context.c b/rmc_pub_context.c
index 8f90572..4c7fbbe 100644
--- a/rmc_pub_context.c
+++ b/rmc_pub_context.c
@@ -158,6 +158,14 @@ fail:
 }
 
 
+#ifdef RMC_VERIFICATION
+// Continue as if next_pid - 1 packets had been queued and sent already.
+void rmc_pub_verification_set_next_pid(rmc_pub_context_t* ctx, packet_id_t next_pid)
+{
+    ctx->pub_ctx.next_pid = next_pid;
+}
+#endif
+
 int rmc_pub_activate_context(rmc_pub_context_t* ctx)
 {
     struct sockaddr_in sock_addr;
-- 
2.43.0


From 74ef742d243f7705a62d34ec91ae7c8d098c9a47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:00:43 +0000
Subject: [PATCH 43/46] fix: closing a connection from the control message or
 packet ready callback polled its dead descriptor

---
 rmc_pub_read.c | 4 ++++
 rmc_sub_read.c | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/rmc_pub_read.c b/rmc_pub_read.c
index 41efe21..b107bea 100644
--- a/rmc_pub_read.c
+++ b/rmc_pub_read.c
@@ -243,6 +243,10 @@ int rmc_pub_read(rmc_pub_context_t* ctx, rmc_index_t s_ind, uint8_t* op_res)
         return res;
     }
 
+    // Did the application close the connection from the control message callback?
+    if (conn->mode == RMC_CONNECTION_MODE_CLOSED)
+        return res;
+
     // Read poll is always active. Callback to re-arm.
     old_action = conn->action;
     rmc_conn_get_pending_send_length(conn, &write_buf_sz);
diff --git a/rmc_sub_read.c b/rmc_sub_read.c
index cb675a7..7730f48 100644
--- a/rmc_sub_read.c
+++ b/rmc_sub_read.c
@@ -460,6 +460,10 @@ int rmc_sub_read(rmc_sub_context_t* ctx, rmc_index_t s_ind, uint8_t* op_res)
         return 0; // This is not an error, just regular disconnect.
     }
 
+    // Did the application close the connection from the packet ready callback?
+    if (conn->mode == RMC_CONNECTION_MODE_CLOSED)
+        return res;
+
     // Process packets (which may be none in case of error)
     // All packets that are sequentially redceived, with no missing packets
     // between them, are moved over to the dispatch_ready queue.
-- 
2.43.0


From b51dcc38339452fb80a001fa0e157090b9385130 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:00:43 +0000
Subject: [PATCH 44/46] fix: a packet queued by a disconnect callback polled
 the multicast descriptor removed by deactivation

---
 rmc_pub_context.c | 24 ++++++++++++------------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/rmc_pub_context.c b/rmc_pub_context.c
index 4c7fbbe..7cef47b 100644
--- a/rmc_pub_context.c
+++ b/rmc_pub_context.c
@@ -291,18 +291,6 @@ int rmc_pub_deactivate_context(rmc_pub_context_t* ctx)
     if (!ctx)
         return EINVAL;
 
-    // Callback to remnove listen and multicast descriptor
-    // from caller's poll vector.
-    if (ctx->conn_vec.poll_remove && ctx->listen_descriptor != -1) {
-        (*ctx->conn_vec.poll_remove)(ctx->user_data,
-                                     ctx->mcast_send_descriptor,
-                                     RMC_MULTICAST_INDEX);
-
-        (*ctx->conn_vec.poll_remove)(ctx->user_data,
-                                     ctx->listen_descriptor,
-                                     RMC_LISTEN_INDEX);
-    }
-
     rmc_conn_get_max_index_in_use(&ctx->conn_vec, &max);
 
     if (max != RMC_NIL_INDEX) {
@@ -317,6 +305,18 @@ int rmc_pub_deactivate_context(rmc_pub_context_t* ctx)
         }
     }
 
+    // Callback to remnove listen and multicast descriptor
+    // from caller's poll vector.
+    if (ctx->conn_vec.poll_remove && ctx->listen_descriptor != -1) {
+        (*ctx->conn_vec.poll_remove)(ctx->user_data,
+                                     ctx->mcast_send_descriptor,
+                                     RMC_MULTICAST_INDEX);
+
+        (*ctx->conn_vec.poll_remove)(ctx->user_data,
+                                     ctx->listen_descriptor,
+                                     RMC_LISTEN_INDEX);
+    }
+
     if (ctx->mcast_send_descriptor != -1)
         close(ctx->mcast_send_descriptor);
 
-- 
2.43.0


From b0694ce99838cf23a1be8d46006c6d7858e39356 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:22:48 +0000
Subject: [PATCH 45/46] fix: deactivating a subscriber from the packet ready or
 announce callback left its descriptor polled or a connection set up

---
 rmc_sub_read.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/rmc_sub_read.c b/rmc_sub_read.c
index 7730f48..ba282ca 100644
--- a/rmc_sub_read.c
+++ b/rmc_sub_read.c
@@ -47,6 +47,10 @@ static int decode_unsubscribed_multicast(rmc_sub_context_t* ctx,
                                   payload, pack_hdr->payload_len);
     }
 
+    // The callback may have deactivated the context.
+    if (ctx->mcast_recv_descriptor == -1)
+        return 0;
+
     if (res)
         rmc_conn_connect_tcp_by_address(&ctx->conn_vec,
                                         pack_hdr->listen_ip, pack_hdr->listen_port,
@@ -242,6 +246,10 @@ static int multicast_read(rmc_sub_context_t* ctx, uint8_t* read_res)
         }
 
         res = process_multicast_read(ctx, read_res, ntohl(src_addr.sin_addr.s_addr), buffer, len);
+
+        // A callback may have deactivated the context.
+        if (ctx->mcast_recv_descriptor == -1)
+            return EAGAIN;
     }
 
 rearm:
-- 
2.43.0


From bdb448fb538c547645995de5636d1fd3df245176 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:37:04 +0000
Subject: [PATCH 46/46] fix: a TCP read that found nothing to read closed the
 connection

---
 rmc_protocol.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/rmc_protocol.c b/rmc_protocol.c
index c75fec7..0ea6c9f 100644
--- a/rmc_protocol.c
+++ b/rmc_protocol.c
@@ -222,6 +222,12 @@ int rmc_conn_tcp_read(rmc_connection_vector_t* conn_vec,
                         res,
                         (res == -1)?strerror(errno):"");
 
+    // Nothing to read after all. The connection is still fine.
+    if (res == -1 && (errno == EAGAIN || errno == EWOULDBLOCK)) {
+        circ_buf_trim(&conn->read_buf, orig_in_use);
+        return EAGAIN;
+    }
+
     if (res == -1 || res == 0) {
         *op_res = RMC_READ_DISCONNECT;
 
-- 
2.43.0

