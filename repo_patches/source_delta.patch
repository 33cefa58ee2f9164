From a64d3ba1f8e0a8afb4c20530fe15f6a0fe36bd41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:54:42 +0000
Subject: [PATCH 01/31] fix: hold the environment mutex when releasing the tag
 barrier after a failed read

_lf_decrement_tag_barrier_locked() updates the barrier shared with the workers and
requires the mutex; the failed-read path of handle_tagged_message() called it without.
---
 core/federated/federate.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/core/federated/federate.c b/core/federated/federate.c
index 9be45fd..fe7691c 100644
--- a/core/federated/federate.c
+++ b/core/federated/federate.c
@@ -594,7 +594,9 @@ static int handle_tagged_message(int* socket, int fed_id) {
   unsigned char* message_contents = (unsigned char*)malloc(length);
   if (read_from_socket_close_on_error(socket, length, message_contents)) {
 #ifdef FEDERATED_DECENTRALIZED
+    LF_MUTEX_LOCK(&env->mutex);
     _lf_decrement_tag_barrier_locked(env);
+    LF_MUTEX_UNLOCK(&env->mutex);
 #endif
     return -1; // Read failed.
   }
-- 
2.43.0


From acc7e4e85745f4d1f8bd6922f759422907ccb335 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:54:42 +0000
Subject: [PATCH 02/31] fix: hold rti_mutex when marking a federate
 disconnected after its socket closes

Other federate threads read the state and the socket under rti_mutex while they
compute and send grants.
---
 core/federated/RTI/rti_remote.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/core/federated/RTI/rti_remote.c b/core/federated/RTI/rti_remote.c
index 3daaeff..93d3f78 100644
--- a/core/federated/RTI/rti_remote.c
+++ b/core/federated/RTI/rti_remote.c
@@ -1085,8 +1085,10 @@ void* federate_info_thread_TCP(void* fed) {
     if (read_failed) {
       // Socket is closed
       lf_print_error("RTI: Socket to federate %d is closed. Exiting the thread.", my_fed->enclave.id);
+      LF_MUTEX_LOCK(&rti_mutex);
       my_fed->enclave.state = NOT_CONNECTED;
       my_fed->socket = -1;
+      LF_MUTEX_UNLOCK(&rti_mutex);
       // FIXME: We need better error handling here, but do not stop execution here.
       break;
     }
-- 
2.43.0


From 4fcdce77dfe0f56fcfd3670ebd81cbcf4777c6ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:37:15 +0000
Subject: [PATCH 03/31] fix: schedule physical actions after the current tag
 when physical time lags behind logical time

---
 lib/schedule.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/lib/schedule.c b/lib/schedule.c
index 1683523..655db87 100644
--- a/lib/schedule.c
+++ b/lib/schedule.c
@@ -171,6 +171,11 @@ trigger_handle_t lf_schedule_trigger(environment_t* env, trigger_t* trigger, int
     // Get the current physical time and assign it as the intended time.
     intended_tag.time = lf_time_physical() + delay;
     intended_tag.microstep = 0;
+    // Physical time can lag behind logical time (e.g., with the fast option), in which
+    // case the event has to occur at the earliest tag after the current one.
+    if (lf_tag_compare(intended_tag, env->current_tag) <= 0) {
+      intended_tag = lf_delay_tag(env->current_tag, 0);
+    }
   } else {
 // FIXME: We need to verify that we are executing within a reaction?
 // See reactor_threaded.
-- 
2.43.0


From c7d403c71c6afc8603125f224b90691b0880d9b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:42:35 +0000
Subject: [PATCH 04/31] fix: detect overflow of time additions before they
 happen

---
 core/tag.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/core/tag.c b/core/tag.c
index c5f8f88..2df5551 100644
--- a/core/tag.c
+++ b/core/tag.c
@@ -46,16 +46,16 @@ instant_t lf_time_add(instant_t a, interval_t b) {
   if (a == FOREVER || b == FOREVER) {
     return FOREVER;
   }
-  instant_t res = a + b;
+  // NOTE: The checks have to be made before adding because overflow in C is undefined for signed variables.
   // Check for overflow
-  if (res < a && b > 0) {
+  if (b > 0 && a > FOREVER - b) {
     return FOREVER;
   }
   // Check for underflow
-  if (res > a && b < 0) {
+  if (b < 0 && a < NEVER - b) {
     return NEVER;
   }
-  return res;
+  return a + b;
 }
 
 tag_t lf_tag_add(tag_t a, tag_t b) {
-- 
2.43.0


From ee0ad53d80f1097d2acf9a722fba8efd863e263d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:17:31 +0000
Subject: [PATCH 05/31] fix: release downstream federates when the connection
 to a federate is lost

---
 core/federated/RTI/rti_remote.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/core/federated/RTI/rti_remote.c b/core/federated/RTI/rti_remote.c
index 93d3f78..63f1be1 100644
--- a/core/federated/RTI/rti_remote.c
+++ b/core/federated/RTI/rti_remote.c
@@ -1143,6 +1143,14 @@ void* federate_info_thread_TCP(void* fed) {
   // Prevent multiple threads from closing the same socket at the same time.
   LF_MUTEX_LOCK(&rti_mutex);
   close(my_fed->socket); //  from unistd.h
+
+  // The connection to the federate is lost. As when a federate reports a failure, there will be
+  // no further events from it, and downstream federates may have been waiting for it.
+  my_fed->enclave.state = NOT_CONNECTED;
+  my_fed->enclave.next_event = FOREVER_TAG;
+  bool* visited = (bool*)calloc(rti_remote->base.number_of_scheduling_nodes, sizeof(bool)); // Initializes to 0.
+  notify_downstream_advance_grant_if_safe(&(my_fed->enclave), visited);
+  free(visited);
   LF_MUTEX_UNLOCK(&rti_mutex);
   return NULL;
 }
-- 
2.43.0


From 4c05fe199e4f58aa88374380313db7737ad7cfec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:18:52 +0000
Subject: [PATCH 06/31] fix: check that a grant is due after waiting for the
 start time to be sent

---
 core/federated/RTI/rti_remote.c | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/core/federated/RTI/rti_remote.c b/core/federated/RTI/rti_remote.c
index 63f1be1..fe52d2d 100644
--- a/core/federated/RTI/rti_remote.c
+++ b/core/federated/RTI/rti_remote.c
@@ -179,16 +179,18 @@ static int create_rti_server(uint16_t port, socket_type_t socket_type) {
 }
 
 void notify_tag_advance_grant(scheduling_node_t* e, tag_t tag) {
-  if (e->state == NOT_CONNECTED || lf_tag_compare(tag, e->last_granted) <= 0 ||
-      lf_tag_compare(tag, e->last_provisionally_granted) < 0) {
-    return;
-  }
   // Need to make sure that the destination federate's thread has already
   // sent the starting MSG_TYPE_TIMESTAMP message.
   while (e->state == PENDING) {
     // Need to wait here.
     lf_cond_wait(&sent_start_time);
   }
+  // Check this only now because the mutex is released while waiting, so another thread may
+  // have sent a grant or the federate may have resigned in the meantime.
+  if (e->state == NOT_CONNECTED || lf_tag_compare(tag, e->last_granted) <= 0 ||
+      lf_tag_compare(tag, e->last_provisionally_granted) < 0) {
+    return;
+  }
   size_t message_length = 1 + sizeof(int64_t) + sizeof(uint32_t);
   unsigned char buffer[message_length];
   buffer[0] = MSG_TYPE_TAG_ADVANCE_GRANT;
@@ -212,16 +214,18 @@ void notify_tag_advance_grant(scheduling_node_t* e, tag_t tag) {
 }
 
 void notify_provisional_tag_advance_grant(scheduling_node_t* e, tag_t tag) {
-  if (e->state == NOT_CONNECTED || lf_tag_compare(tag, e->last_granted) <= 0 ||
-      lf_tag_compare(tag, e->last_provisionally_granted) <= 0) {
-    return;
-  }
   // Need to make sure that the destination federate's thread has already
   // sent the starting MSG_TYPE_TIMESTAMP message.
   while (e->state == PENDING) {
     // Need to wait here.
     lf_cond_wait(&sent_start_time);
   }
+  // Check this only now because the mutex is released while waiting, so another thread may
+  // have sent a grant or the federate may have resigned in the meantime.
+  if (e->state == NOT_CONNECTED || lf_tag_compare(tag, e->last_granted) <= 0 ||
+      lf_tag_compare(tag, e->last_provisionally_granted) <= 0) {
+    return;
+  }
   size_t message_length = 1 + sizeof(int64_t) + sizeof(uint32_t);
   unsigned char buffer[message_length];
   buffer[0] = MSG_TYPE_PROVISIONAL_TAG_ADVANCE_GRANT;
-- 
2.43.0


From ee8d9f332a8102b3ca139cece721d38530f21ac6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:37:25 +0000
Subject: [PATCH 07/31] fix: count federates that go away while a stop is being
 agreed upon

---
 core/federated/RTI/rti_remote.c | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/core/federated/RTI/rti_remote.c b/core/federated/RTI/rti_remote.c
index fe52d2d..915a8c1 100644
--- a/core/federated/RTI/rti_remote.c
+++ b/core/federated/RTI/rti_remote.c
@@ -1010,6 +1010,11 @@ static void handle_federate_failed(federate_info_t* my_fed) {
   // We can now safely close the socket.
   close(my_fed->socket); //  from unistd.h
 
+  // If a stop is being agreed upon, there will be no (further) reply from this federate.
+  if (rti_remote->stop_in_progress) {
+    mark_federate_requesting_stop(my_fed);
+  }
+
   // Check downstream federates to see whether they should now be granted a TAG.
   // To handle cycles, need to create a boolean array to keep
   // track of which upstream federates have been visited.
@@ -1063,6 +1068,11 @@ static void handle_federate_resign(federate_info_t* my_fed) {
   // We can now safely close the socket.
   close(my_fed->socket); //  from unistd.h
 
+  // If a stop is being agreed upon, there will be no (further) reply from this federate.
+  if (rti_remote->stop_in_progress) {
+    mark_federate_requesting_stop(my_fed);
+  }
+
   // Check downstream federates to see whether they should now be granted a TAG.
   // To handle cycles, need to create a boolean array to keep
   // track of which upstream federates have been visited.
@@ -1152,6 +1162,12 @@ void* federate_info_thread_TCP(void* fed) {
   // no further events from it, and downstream federates may have been waiting for it.
   my_fed->enclave.state = NOT_CONNECTED;
   my_fed->enclave.next_event = FOREVER_TAG;
+
+  // If a stop is being agreed upon, there will be no (further) reply from this federate.
+  if (rti_remote->stop_in_progress) {
+    mark_federate_requesting_stop(my_fed);
+  }
+
   bool* visited = (bool*)calloc(rti_remote->base.number_of_scheduling_nodes, sizeof(bool)); // Initializes to 0.
   notify_downstream_advance_grant_if_safe(&(my_fed->enclave), visited);
   free(visited);
-- 
2.43.0


From 9041fafe37c8cee10e8e609bea8cdcad4caed107 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:43:01 +0000
Subject: [PATCH 08/31] fix: test whether the destination is connected after
 waiting for the start time to be sent

---
 core/federated/RTI/rti_remote.c | 34 +++++++++++++++++----------------
 1 file changed, 18 insertions(+), 16 deletions(-)

diff --git a/core/federated/RTI/rti_remote.c b/core/federated/RTI/rti_remote.c
index 915a8c1..6b0c45e 100644
--- a/core/federated/RTI/rti_remote.c
+++ b/core/federated/RTI/rti_remote.c
@@ -305,9 +305,17 @@ void handle_port_absent_message(federate_info_t* sending_federate, unsigned char
   // issue a TAG before this message has been forwarded.
   LF_MUTEX_LOCK(&rti_mutex);
 
+  federate_info_t* fed = GET_FED_INFO(federate_id);
+
+  // Need to make sure that the destination federate's thread has already
+  // sent the starting MSG_TYPE_TIMESTAMP message.
+  while (fed->enclave.state == PENDING) {
+    // Need to wait here.
+    lf_cond_wait(&sent_start_time);
+  }
+
   // If the destination federate is no longer connected, issue a warning
   // and return.
-  federate_info_t* fed = GET_FED_INFO(federate_id);
   if (fed->enclave.state == NOT_CONNECTED) {
     LF_MUTEX_UNLOCK(&rti_mutex);
     lf_print_warning("RTI: Destination federate %d is no longer connected. Dropping message.", federate_id);
@@ -325,13 +333,6 @@ void handle_port_absent_message(federate_info_t* sending_federate, unsigned char
 
   LF_PRINT_LOG("RTI forwarding port absent message for port %u to federate %u.", reactor_port_id, federate_id);
 
-  // Need to make sure that the destination federate's thread has already
-  // sent the starting MSG_TYPE_TIMESTAMP message.
-  while (fed->enclave.state == PENDING) {
-    // Need to wait here.
-    lf_cond_wait(&sent_start_time);
-  }
-
   if (rti_remote->base.tracing_enabled) {
     tracepoint_rti_to_federate(send_PORT_ABS, federate_id, &tag);
   }
@@ -390,9 +391,17 @@ void handle_timed_message(federate_info_t* sending_federate, unsigned char* buff
   // issue a TAG before this message has been forwarded.
   LF_MUTEX_LOCK(&rti_mutex);
 
+  federate_info_t* fed = GET_FED_INFO(federate_id);
+
+  // Need to make sure that the destination federate's thread has already
+  // sent the starting MSG_TYPE_TIMESTAMP message.
+  while (fed->enclave.state == PENDING) {
+    // Need to wait here.
+    lf_cond_wait(&sent_start_time);
+  }
+
   // If the destination federate is no longer connected, issue a warning,
   // remove the message from the socket and return.
-  federate_info_t* fed = GET_FED_INFO(federate_id);
   if (fed->enclave.state == NOT_CONNECTED) {
     lf_print_warning("RTI: Destination federate %d is no longer connected. Dropping message.", federate_id);
     LF_PRINT_LOG("Fed status: next_event " PRINTF_TAG ", "
@@ -422,13 +431,6 @@ void handle_timed_message(federate_info_t* sending_federate, unsigned char* buff
   LF_PRINT_DEBUG("RTI forwarding message to port %d of federate %hu of length %zu.", reactor_port_id, federate_id,
                  length);
 
-  // Need to make sure that the destination federate's thread has already
-  // sent the starting MSG_TYPE_TIMESTAMP message.
-  while (fed->enclave.state == PENDING) {
-    // Need to wait here.
-    lf_cond_wait(&sent_start_time);
-  }
-
   if (rti_remote->base.tracing_enabled) {
     tracepoint_rti_to_federate(send_TAGGED_MSG, federate_id, &intended_tag);
   }
-- 
2.43.0


From 9ba09094c5eaf8c1916f65dcc5b896f53cfe1e74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:50:50 +0000
Subject: [PATCH 09/31] fix: reject federates whose federation ID is only a
 prefix of the one of the RTI

---
 core/federated/RTI/rti_remote.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/core/federated/RTI/rti_remote.c b/core/federated/RTI/rti_remote.c
index 6b0c45e..9c81aff 100644
--- a/core/federated/RTI/rti_remote.c
+++ b/core/federated/RTI/rti_remote.c
@@ -1260,8 +1260,9 @@ static int32_t receive_and_check_fed_id_message(int* socket_id, struct sockaddr_
     if (rti_remote->base.tracing_enabled) {
       tracepoint_rti_from_federate(receive_FED_ID, fed_id, NULL);
     }
-    // Compare the received federation ID to mine.
-    if (strncmp(rti_remote->federation_id, federation_id_received, federation_id_length) != 0) {
+    // Compare the received federation ID to mine. A federate sends at most the first 255 characters of its ID.
+    if (federation_id_length != strnlen(rti_remote->federation_id, 255) ||
+        strncmp(rti_remote->federation_id, federation_id_received, federation_id_length) != 0) {
       // Federation IDs do not match. Send back a MSG_TYPE_REJECT message.
       lf_print_warning("Federate from another federation %s attempted to connect to RTI in federation %s.",
                        federation_id_received, rti_remote->federation_id);
-- 
2.43.0


From c1abb52755b8c7fbdd4835df755d13216e17997e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:50:50 +0000
Subject: [PATCH 10/31] fix: free the federate ID when a federate is rejected
 after its ID was acknowledged

---
 core/federated/RTI/rti_remote.c | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/core/federated/RTI/rti_remote.c b/core/federated/RTI/rti_remote.c
index 9c81aff..39d4844 100644
--- a/core/federated/RTI/rti_remote.c
+++ b/core/federated/RTI/rti_remote.c
@@ -1326,6 +1326,8 @@ static int32_t receive_and_check_fed_id_message(int* socket_id, struct sockaddr_
   }
   LF_MUTEX_LOCK(&rti_mutex);
   if (write_to_socket_close_on_error(&fed->socket, 1, &ack_message)) {
+    // The federate ID is not in use after all.
+    fed->enclave.state = NOT_CONNECTED;
     LF_MUTEX_UNLOCK(&rti_mutex);
     lf_print_error("RTI failed to write MSG_TYPE_ACK message to federate %d.", fed_id);
     return -1;
@@ -1619,6 +1621,13 @@ void lf_connect_to_federates(int socket_descriptor) {
       lf_thread_create(&(fed->thread_id), federate_info_thread_TCP, fed);
     } else {
       // Received message was rejected. Try again.
+      if (fed_id >= 0) {
+        // The federate ID is not in use after all.
+        federate_info_t* fed = GET_FED_INFO(fed_id);
+        LF_MUTEX_LOCK(&rti_mutex);
+        fed->enclave.state = NOT_CONNECTED;
+        LF_MUTEX_UNLOCK(&rti_mutex);
+      }
       i--;
     }
   }
-- 
2.43.0


From 22b14e449d2ecac8c92dea953df4b2e488a8f851 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:52:52 +0000
Subject: [PATCH 11/31] fix: check federate IDs received by the RTI before
 using them as indices

---
 core/federated/RTI/rti_remote.c | 61 +++++++++++++++++++++++++--------
 1 file changed, 47 insertions(+), 14 deletions(-)

diff --git a/core/federated/RTI/rti_remote.c b/core/federated/RTI/rti_remote.c
index 39d4844..d8d288e 100644
--- a/core/federated/RTI/rti_remote.c
+++ b/core/federated/RTI/rti_remote.c
@@ -300,6 +300,11 @@ void handle_port_absent_message(federate_info_t* sending_federate, unsigned char
     tracepoint_rti_from_federate(receive_PORT_ABS, sending_federate->enclave.id, &tag);
   }
 
+  if (federate_id >= rti_remote->base.number_of_scheduling_nodes) {
+    lf_print_warning("RTI: Destination federate %d does not exist. Dropping message.", federate_id);
+    return;
+  }
+
   // Need to acquire the mutex lock to ensure that the thread handling
   // messages coming from the socket connected to the destination does not
   // issue a TAG before this message has been forwarded.
@@ -391,28 +396,33 @@ void handle_timed_message(federate_info_t* sending_federate, unsigned char* buff
   // issue a TAG before this message has been forwarded.
   LF_MUTEX_LOCK(&rti_mutex);
 
-  federate_info_t* fed = GET_FED_INFO(federate_id);
+  federate_info_t* fed = NULL;
+  if (federate_id < rti_remote->base.number_of_scheduling_nodes) {
+    fed = GET_FED_INFO(federate_id);
+  }
 
   // Need to make sure that the destination federate's thread has already
   // sent the starting MSG_TYPE_TIMESTAMP message.
-  while (fed->enclave.state == PENDING) {
+  while (fed != NULL && fed->enclave.state == PENDING) {
     // Need to wait here.
     lf_cond_wait(&sent_start_time);
   }
 
-  // If the destination federate is no longer connected, issue a warning,
+  // If the destination federate does not exist or is no longer connected, issue a warning,
   // remove the message from the socket and return.
-  if (fed->enclave.state == NOT_CONNECTED) {
-    lf_print_warning("RTI: Destination federate %d is no longer connected. Dropping message.", federate_id);
-    LF_PRINT_LOG("Fed status: next_event " PRINTF_TAG ", "
-                 "completed " PRINTF_TAG ", "
-                 "last_granted " PRINTF_TAG ", "
-                 "last_provisionally_granted " PRINTF_TAG ".",
-                 fed->enclave.next_event.time - start_time, fed->enclave.next_event.microstep,
-                 fed->enclave.completed.time - start_time, fed->enclave.completed.microstep,
-                 fed->enclave.last_granted.time - start_time, fed->enclave.last_granted.microstep,
-                 fed->enclave.last_provisionally_granted.time - start_time,
-                 fed->enclave.last_provisionally_granted.microstep);
+  if (fed == NULL || fed->enclave.state == NOT_CONNECTED) {
+    lf_print_warning("RTI: Destination federate %d is not or no longer connected. Dropping message.", federate_id);
+    if (fed != NULL) {
+      LF_PRINT_LOG("Fed status: next_event " PRINTF_TAG ", "
+                   "completed " PRINTF_TAG ", "
+                   "last_granted " PRINTF_TAG ", "
+                   "last_provisionally_granted " PRINTF_TAG ".",
+                   fed->enclave.next_event.time - start_time, fed->enclave.next_event.microstep,
+                   fed->enclave.completed.time - start_time, fed->enclave.completed.microstep,
+                   fed->enclave.last_granted.time - start_time, fed->enclave.last_granted.microstep,
+                   fed->enclave.last_provisionally_granted.time - start_time,
+                   fed->enclave.last_provisionally_granted.microstep);
+    }
     // If the message was larger than the buffer, we must empty out the remainder also.
     size_t total_bytes_read = bytes_read;
     while (total_bytes_read < total_bytes_to_read) {
@@ -734,6 +744,11 @@ void handle_address_query(uint16_t fed_id) {
 
   LF_PRINT_DEBUG("RTI received address query from %d for %d.", fed_id, remote_fed_id);
 
+  if (remote_fed_id >= rti_remote->base.number_of_scheduling_nodes) {
+    lf_print_error("RTI received address query from %d for federate %d, which does not exist.", fed_id, remote_fed_id);
+    return;
+  }
+
   // NOTE: server_port initializes to -1, which means the RTI does not know
   // the port number because it has not yet received an MSG_TYPE_ADDRESS_ADVERTISEMENT message
   // from this federate. In that case, it will respond by sending -1.
@@ -1365,6 +1380,13 @@ static int receive_connection_information(int* socket_id, uint16_t fed_id) {
     LF_PRINT_DEBUG("RTI got %d upstreams and %d downstreams from federate %d.", fed->enclave.num_upstream,
                    fed->enclave.num_downstream, fed_id);
 
+    if (fed->enclave.num_upstream < 0 || fed->enclave.num_downstream < 0) {
+      lf_print_error("RTI received a negative number of neighbors from federate %d. Rejecting federate.", fed_id);
+      fed->enclave.num_upstream = fed->enclave.num_downstream = 0;
+      send_reject(socket_id, UNEXPECTED_MESSAGE);
+      return 0;
+    }
+
     // Allocate memory for the upstream and downstream pointers
     if (fed->enclave.num_upstream > 0) {
       fed->enclave.upstream = (uint16_t*)malloc(sizeof(uint16_t) * fed->enclave.num_upstream);
@@ -1394,9 +1416,12 @@ static int receive_connection_information(int* socket_id, uint16_t fed_id) {
                                      fed_id);
       // Keep track of where we are in the buffer
       size_t message_head = 0;
+      // Neighbors have to be federates of this federation.
+      bool valid = true;
       // First, read the info about upstream federates
       for (int i = 0; i < fed->enclave.num_upstream; i++) {
         fed->enclave.upstream[i] = extract_uint16(&(connections_info_body[message_head]));
+        valid = valid && fed->enclave.upstream[i] < rti_remote->base.number_of_scheduling_nodes;
         message_head += sizeof(uint16_t);
         fed->enclave.upstream_delay[i] = extract_int64(&(connections_info_body[message_head]));
         message_head += sizeof(int64_t);
@@ -1405,10 +1430,18 @@ static int receive_connection_information(int* socket_id, uint16_t fed_id) {
       // Next, read the info about downstream federates
       for (int i = 0; i < fed->enclave.num_downstream; i++) {
         fed->enclave.downstream[i] = extract_uint16(&(connections_info_body[message_head]));
+        valid = valid && fed->enclave.downstream[i] < rti_remote->base.number_of_scheduling_nodes;
         message_head += sizeof(uint16_t);
       }
 
       free(connections_info_body);
+
+      if (!valid) {
+        lf_print_error("RTI received a neighbor of federate %d that is out of range. Rejecting federate.", fed_id);
+        fed->enclave.num_upstream = fed->enclave.num_downstream = 0;
+        send_reject(socket_id, FEDERATE_ID_OUT_OF_RANGE);
+        return 0;
+      }
     }
   }
   LF_PRINT_DEBUG("RTI received neighbor structure from federate %d.", fed_id);
-- 
2.43.0


From 353a6364f703388b9d90e18514aecbd54a2113df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:48:25 +0000
Subject: [PATCH 12/31] fix: do not send a stop request to a federate before
 its start time

---
 core/federated/RTI/rti_remote.c | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/core/federated/RTI/rti_remote.c b/core/federated/RTI/rti_remote.c
index d8d288e..99e7805 100644
--- a/core/federated/RTI/rti_remote.c
+++ b/core/federated/RTI/rti_remote.c
@@ -642,6 +642,15 @@ void handle_stop_request_message(federate_info_t* fed) {
   // message is in transport or being used to determine a TAG.
   LF_MUTEX_LOCK(&rti_mutex);
 
+  // Do not send a stop request, nor a granted stop, to a federate before it has been sent the start time.
+  for (int i = 0; i < rti_remote->base.number_of_scheduling_nodes; i++) {
+    federate_info_t* f = GET_FED_INFO(i);
+    while (f->enclave.state == PENDING) {
+      // Need to wait here.
+      lf_cond_wait(&sent_start_time);
+    }
+  }
+
   // Check whether we have already received a stop_tag
   // from this federate
   if (fed->requested_stop) {
-- 
2.43.0


From 900110b787a5f260507973fa6b320ddccaad0527 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:36:53 +0000
Subject: [PATCH 13/31] fix: do not close a peer socket for a message that came
 through the RTI

---
 core/federated/federate.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/core/federated/federate.c b/core/federated/federate.c
index fe7691c..12e94b9 100644
--- a/core/federated/federate.c
+++ b/core/federated/federate.c
@@ -667,7 +667,10 @@ static int handle_tagged_message(int* socket, int fed_id) {
                      env->current_tag.time - start_time, env->current_tag.microstep, intended_tag.time - start_time,
                      intended_tag.microstep);
       // Close socket, reading any incoming data and discarding it.
-      close_inbound_socket(fed_id, 1);
+      // With centralized coordination, there is no such socket and fed_id is -1.
+      if (fed_id >= 0) {
+        close_inbound_socket(fed_id, 1);
+      }
     } else {
       // Need to use intended_tag here, not actual_tag, so that STP violations are detected.
       // It will become actual_tag (that is when the reactions will be invoked).
-- 
2.43.0


From 0b85c7afb1c1113354d6fbe211edd449e5e9fd40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:36:53 +0000
Subject: [PATCH 14/31] fix: reject a peer whose federate ID is out of range

---
 core/federated/federate.c | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/core/federated/federate.c b/core/federated/federate.c
index 12e94b9..0a51c90 100644
--- a/core/federated/federate.c
+++ b/core/federated/federate.c
@@ -2217,6 +2217,18 @@ void* lf_handle_p2p_connections_from_federates(void* env_arg) {
     // Extract the ID of the sending federate.
     uint16_t remote_fed_id = extract_uint16((unsigned char*)&(buffer[1]));
     LF_PRINT_DEBUG("Received sending federate ID %d.", remote_fed_id);
+    if (remote_fed_id >= NUMBER_OF_FEDERATES) {
+      lf_print_warning("Received federate ID %d, which is out of range. Closing socket.", remote_fed_id);
+      unsigned char response[2];
+      response[0] = MSG_TYPE_REJECT;
+      response[1] = FEDERATE_ID_OUT_OF_RANGE;
+      // Trace the event when tracing is enabled
+      tracepoint_federate_to_federate(send_REJECT, _lf_my_fed_id, -3, NULL);
+      // Ignore errors on this response.
+      write_to_socket(socket_id, 2, response);
+      close(socket_id);
+      continue;
+    }
 
     // Trace the event when tracing is enabled
     tracepoint_federate_to_federate(receive_FED_ID, _lf_my_fed_id, remote_fed_id, NULL);
-- 
2.43.0


From 5b43ef27257b011d24546754e07d3c8580234064 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:39:24 +0000
Subject: [PATCH 15/31] fix: compare the whole federation ID of a peer, and not
 beyond what was received

---
 core/federated/federate.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/core/federated/federate.c b/core/federated/federate.c
index 0a51c90..fb7d892 100644
--- a/core/federated/federate.c
+++ b/core/federated/federate.c
@@ -2196,10 +2196,10 @@ void* lf_handle_p2p_connections_from_federates(void* env_arg) {
 
     // Get the federation ID and check it.
     unsigned char federation_id_length = buffer[header_length - 1];
-    char remote_federation_id[federation_id_length];
+    char remote_federation_id[federation_id_length + 1]; // One extra in case the length is zero.
     read_failed = read_from_socket(socket_id, federation_id_length, (unsigned char*)remote_federation_id);
-    if (read_failed || (strncmp(federation_metadata.federation_id, remote_federation_id,
-                                strnlen(federation_metadata.federation_id, 255)) != 0)) {
+    if (read_failed || federation_id_length != strnlen(federation_metadata.federation_id, 255) ||
+        strncmp(federation_metadata.federation_id, remote_federation_id, federation_id_length) != 0) {
       lf_print_warning("Received invalid federation ID. Closing socket.");
       if (read_failed == 0) {
         unsigned char response[2];
-- 
2.43.0


From 640c51c2dbb609a115ecf0fdc7d8577d1b96447d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:57:22 +0000
Subject: [PATCH 16/31] fix: lf_request_stop wakes up the environment whose
 stop tag it sets

---
 core/threaded/reactor_threaded.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/threaded/reactor_threaded.c b/core/threaded/reactor_threaded.c
index 82dd2b6..84a5673 100644
--- a/core/threaded/reactor_threaded.c
+++ b/core/threaded/reactor_threaded.c
@@ -523,7 +523,7 @@ void lf_request_stop(void) {
     // We signal instead of broadcast under the assumption that only
     // one worker thread can call wait_until at a given time because
     // the call to wait_until is protected by a mutex lock
-    lf_cond_signal(&env->event_q_changed);
+    lf_cond_signal(&env[i].event_q_changed);
     LF_MUTEX_UNLOCK(&env[i].mutex);
   }
 #endif
-- 
2.43.0


From b1e6d73ee1268e64842f3867c06a6aa89828a34a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:57:22 +0000
Subject: [PATCH 17/31] fix: restarting a watchdog with an earlier expiration
 wakes up its thread

---
 core/threaded/watchdog.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/core/threaded/watchdog.c b/core/threaded/watchdog.c
index 3240fc3..521f854 100644
--- a/core/threaded/watchdog.c
+++ b/core/threaded/watchdog.c
@@ -143,10 +143,12 @@ void lf_watchdog_start(watchdog_t* watchdog, interval_t additional_timeout) {
   // Assumes reactor mutex is already held.
   self_base_t* base = watchdog->base;
   watchdog->terminate = false;
+  instant_t previous_expiration = watchdog->expiration;
   watchdog->expiration = base->environment->current_tag.time + watchdog->min_expiration + additional_timeout;
 
-  // If the watchdog is inactive, signal it to start waiting.
-  if (!watchdog->active) {
+  // If the watchdog is inactive, signal it to start waiting. If it is already sleeping, but
+  // until a later time than the new expiration, then signal it to wait for less long.
+  if (!watchdog->active || watchdog->expiration < previous_expiration) {
     LF_COND_SIGNAL(&watchdog->cond);
   }
 }
-- 
2.43.0


From f800e9740b077333e9c7d2d4da37e29212bb26a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:26:47 +0000
Subject: [PATCH 18/31] fix: hold the mutex of the reactor while a deadline or
 STP violation handler runs

---
 core/reactor_common.c            | 20 ++++++++++++++++++--
 core/threaded/reactor_threaded.c |  4 ++--
 include/core/reactor_common.h    | 11 +++++++++++
 3 files changed, 31 insertions(+), 4 deletions(-)

diff --git a/core/reactor_common.c b/core/reactor_common.c
index 358480e..ba7bd75 100644
--- a/core/reactor_common.c
+++ b/core/reactor_common.c
@@ -703,6 +703,22 @@ void _lf_invoke_reaction(environment_t* env, reaction_t* reaction, int worker) {
 #endif
 }
 
+void _lf_invoke_violation_handler(reaction_t* reaction, reaction_function_t handler) {
+#if !defined(LF_SINGLE_THREADED)
+  if (((self_base_t*)reaction->self)->reactor_mutex != NULL) {
+    LF_MUTEX_LOCK((lf_mutex_t*)((self_base_t*)reaction->self)->reactor_mutex);
+  }
+#endif
+
+  handler(reaction->self);
+
+#if !defined(LF_SINGLE_THREADED)
+  if (((self_base_t*)reaction->self)->reactor_mutex != NULL) {
+    LF_MUTEX_UNLOCK((lf_mutex_t*)((self_base_t*)reaction->self)->reactor_mutex);
+  }
+#endif
+}
+
 /**
  * For the specified reaction, if it has produced outputs, insert the
  * resulting triggered reactions into the reaction queue.
@@ -813,7 +829,7 @@ void schedule_output_reactions(environment_t* env, reaction_t* reaction, int wor
         // to downstream reactions.
         violation = true;
         LF_PRINT_LOG("Invoke tardiness handler.");
-        (*handler)(downstream_to_execute_now->self);
+        _lf_invoke_violation_handler(downstream_to_execute_now, handler);
 
         // If the reaction produced outputs, put the resulting
         // triggered reactions into the queue or execute them directly if possible.
@@ -840,7 +856,7 @@ void schedule_output_reactions(environment_t* env, reaction_t* reaction, int wor
         tracepoint_reaction_starts(env, downstream_to_execute_now, worker);
         if (handler != NULL) {
           // Assume the mutex is still not held.
-          (*handler)(downstream_to_execute_now->self);
+          _lf_invoke_violation_handler(downstream_to_execute_now, handler);
 
           // If the reaction produced outputs, put the resulting
           // triggered reactions into the queue or execute them directly if possible.
diff --git a/core/threaded/reactor_threaded.c b/core/threaded/reactor_threaded.c
index 84a5673..3ca903b 100644
--- a/core/threaded/reactor_threaded.c
+++ b/core/threaded/reactor_threaded.c
@@ -693,7 +693,7 @@ bool _lf_worker_handle_deadline_violation_for_reaction(environment_t* env, int w
       reaction_function_t handler = reaction->deadline_violation_handler;
       if (handler != NULL) {
         LF_PRINT_LOG("Worker %d: Deadline violation. Invoking deadline handler.", worker_number);
-        (*handler)(reaction->self);
+        _lf_invoke_violation_handler(reaction, handler);
 
         // If the reaction produced outputs, put the resulting
         // triggered reactions into the queue or execute them directly if possible.
@@ -744,7 +744,7 @@ bool _lf_worker_handle_STP_violation_for_reaction(environment_t* env, int worker
       LF_PRINT_LOG("Worker %d: Invoking STP violation handler.", worker_number);
       // There is a violation
       violation_occurred = true;
-      (*handler)(reaction->self);
+      _lf_invoke_violation_handler(reaction, handler);
 
       // Reset the STP violation flag because it has been dealt with.
       // Downstream handlers should not be invoked.
diff --git a/include/core/reactor_common.h b/include/core/reactor_common.h
index 8086ed7..86e5d11 100644
--- a/include/core/reactor_common.h
+++ b/include/core/reactor_common.h
@@ -264,6 +264,17 @@ void _lf_advance_tag(environment_t* env, tag_t next_tag);
 void _lf_pop_events(environment_t* env);
 
 void _lf_invoke_reaction(environment_t* env, reaction_t* reaction, int worker);
+
+/**
+ * @brief Invoke a deadline or STP violation handler of a reaction.
+ *
+ * Like the reaction itself, the handler accesses the state of the reactor,
+ * so this acquires the mutex of the reactor, if it has one.
+ *
+ * @param reaction The reaction that the handler belongs to.
+ * @param handler The handler.
+ */
+void _lf_invoke_violation_handler(reaction_t* reaction, reaction_function_t handler);
 void schedule_output_reactions(environment_t* env, reaction_t* reaction, int worker);
 int process_args(int argc, const char* argv[]);
 
-- 
2.43.0


From bf3f7fe3ff74898ef086718dc84ee351b5ea7da9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:26:50 +0000
Subject: [PATCH 19/31] fix: lf_check_deadline() of a reaction without a
 deadline returns false

---
 lib/schedule.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/lib/schedule.c b/lib/schedule.c
index 655db87..b8efc02 100644
--- a/lib/schedule.c
+++ b/lib/schedule.c
@@ -98,7 +98,9 @@ trigger_handle_t lf_schedule_value(void* action, interval_t extra_delay, void* v
  */
 bool lf_check_deadline(void* self, bool invoke_deadline_handler) {
   reaction_t* reaction = ((self_base_t*)self)->executing_reaction;
-  if (lf_time_physical() > (lf_time_logical(((self_base_t*)self)->environment) + reaction->deadline)) {
+  // A negative deadline means that the reaction has none.
+  if (reaction->deadline >= 0LL &&
+      lf_time_physical() > (lf_time_logical(((self_base_t*)self)->environment) + reaction->deadline)) {
     if (invoke_deadline_handler) {
       reaction->deadline_violation_handler(self);
     }
-- 
2.43.0


From 6943451bc703571c4d46dafb73dc586f2c1c778f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:26:53 +0000
Subject: [PATCH 20/31] fix: a watchdog that its own handler starts again
 expires again

---
 core/threaded/watchdog.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/core/threaded/watchdog.c b/core/threaded/watchdog.c
index 521f854..f7b179f 100644
--- a/core/threaded/watchdog.c
+++ b/core/threaded/watchdog.c
@@ -128,8 +128,9 @@ static void* watchdog_thread_main(void* arg) {
       // If we reach here, the watchdog actually timed out. Handle it.
       LF_PRINT_DEBUG("Watchdog %p timed out", (void*)watchdog);
       watchdog_function_t watchdog_func = watchdog->watchdog_function;
-      (*watchdog_func)(base);
+      // The handler may start the watchdog again, so clear the expiration before calling it.
       watchdog->expiration = NEVER;
+      (*watchdog_func)(base);
     }
   }
 
-- 
2.43.0


From f2597b7016728ed97cd50c5ef30909c67be2870c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:27:45 +0000
Subject: [PATCH 21/31] fix: a reaction in an inactive mode is not executed
 immediately either

---
 core/reactor_common.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/core/reactor_common.c b/core/reactor_common.c
index ba7bd75..0493a53 100644
--- a/core/reactor_common.c
+++ b/core/reactor_common.c
@@ -797,6 +797,14 @@ void schedule_output_reactions(environment_t* env, reaction_t* reaction, int wor
       }
     }
   }
+#ifdef MODAL_REACTORS
+  // A reaction in an inactive mode is not executed.
+  if (downstream_to_execute_now != NULL && !_lf_mode_is_active(downstream_to_execute_now->mode)) {
+    LF_PRINT_DEBUG("Suppressing downstream reaction %s due inactivity of mode %s.", downstream_to_execute_now->name,
+                   downstream_to_execute_now->mode->name);
+    downstream_to_execute_now = NULL;
+  }
+#endif
   if (downstream_to_execute_now != NULL) {
     LF_PRINT_LOG("Worker %d: Optimizing and executing downstream reaction now: %s", worker,
                  downstream_to_execute_now->name);
-- 
2.43.0


From 3acbf3ecc97365d93f66ffa266509da195f80efb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:28:24 +0000
Subject: [PATCH 22/31] fix: an STP violation of a reaction that missed its
 deadline is not left for the next tag

---
 core/threaded/reactor_threaded.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/core/threaded/reactor_threaded.c b/core/threaded/reactor_threaded.c
index 3ca903b..dcf0738 100644
--- a/core/threaded/reactor_threaded.c
+++ b/core/threaded/reactor_threaded.c
@@ -701,6 +701,9 @@ bool _lf_worker_handle_deadline_violation_for_reaction(environment_t* env, int w
         // Remove the reaction from the executing queue.
       }
       tracepoint_reaction_ends(env, reaction, worker_number);
+
+      // The reaction is not executed at this tag, so an STP violation is not left for the next tag.
+      reaction->is_STP_violated = false;
     }
   }
   return violation_occurred;
-- 
2.43.0


From fddb5d8fbe11b0f5f9a20f245a514a281b5c9b10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:28:27 +0000
Subject: [PATCH 23/31] fix: an upstream reaction that is in time does not
 clear the STP violation of a downstream reaction

---
 core/reactor_common.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/core/reactor_common.c b/core/reactor_common.c
index 0493a53..eb1f91b 100644
--- a/core/reactor_common.c
+++ b/core/reactor_common.c
@@ -758,8 +758,9 @@ void schedule_output_reactions(environment_t* env, reaction_t* reaction, int wor
             reaction_t* downstream_reaction = trigger->reactions[k];
 #ifdef FEDERATED_DECENTRALIZED // Only pass down tardiness for federated LF programs
             // Set the is_STP_violated for the downstream reaction
-            if (downstream_reaction != NULL) {
-              downstream_reaction->is_STP_violated = inherited_STP_violation;
+            // (another upstream reaction may have set it already).
+            if (downstream_reaction != NULL && inherited_STP_violation) {
+              downstream_reaction->is_STP_violated = true;
               LF_PRINT_DEBUG("Passing is_STP_violated of %d to the downstream reaction: %s",
                              downstream_reaction->is_STP_violated, downstream_reaction->name);
             }
-- 
2.43.0


From 3232960c9e3aaf9104e592838322a42b061f5c36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:29:18 +0000
Subject: [PATCH 24/31] fix: an STP violation that was handled is not passed on
 by the reaction executed immediately

---
 core/reactor_common.c | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/core/reactor_common.c b/core/reactor_common.c
index eb1f91b..70c5840 100644
--- a/core/reactor_common.c
+++ b/core/reactor_common.c
@@ -840,13 +840,14 @@ void schedule_output_reactions(environment_t* env, reaction_t* reaction, int wor
         LF_PRINT_LOG("Invoke tardiness handler.");
         _lf_invoke_violation_handler(downstream_to_execute_now, handler);
 
+        // Reset the tardiness because it has been dealt with in the
+        // STP handler. Downstream handlers should not be invoked.
+        downstream_to_execute_now->is_STP_violated = false;
+
         // If the reaction produced outputs, put the resulting
         // triggered reactions into the queue or execute them directly if possible.
         schedule_output_reactions(env, downstream_to_execute_now, worker);
 
-        // Reset the tardiness because it has been dealt with in the
-        // STP handler
-        downstream_to_execute_now->is_STP_violated = false;
         LF_PRINT_DEBUG("Reset reaction's is_STP_violated field to false: %s", downstream_to_execute_now->name);
       }
     }
-- 
2.43.0


From a3502a8d4572fffd6170f0ed66c353d3b4b2abc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:30:04 +0000
Subject: [PATCH 25/31] fix: outputs of a reaction whose STP and deadline
 handlers are both invoked are passed on once

---
 core/reactor_common.c | 17 +++++------------
 1 file changed, 5 insertions(+), 12 deletions(-)

diff --git a/core/reactor_common.c b/core/reactor_common.c
index 70c5840..7065772 100644
--- a/core/reactor_common.c
+++ b/core/reactor_common.c
@@ -844,10 +844,6 @@ void schedule_output_reactions(environment_t* env, reaction_t* reaction, int wor
         // STP handler. Downstream handlers should not be invoked.
         downstream_to_execute_now->is_STP_violated = false;
 
-        // If the reaction produced outputs, put the resulting
-        // triggered reactions into the queue or execute them directly if possible.
-        schedule_output_reactions(env, downstream_to_execute_now, worker);
-
         LF_PRINT_DEBUG("Reset reaction's is_STP_violated field to false: %s", downstream_to_execute_now->name);
       }
     }
@@ -867,10 +863,6 @@ void schedule_output_reactions(environment_t* env, reaction_t* reaction, int wor
         if (handler != NULL) {
           // Assume the mutex is still not held.
           _lf_invoke_violation_handler(downstream_to_execute_now, handler);
-
-          // If the reaction produced outputs, put the resulting
-          // triggered reactions into the queue or execute them directly if possible.
-          schedule_output_reactions(env, downstream_to_execute_now, worker);
         }
         tracepoint_reaction_ends(env, downstream_to_execute_now, worker);
       }
@@ -878,12 +870,13 @@ void schedule_output_reactions(environment_t* env, reaction_t* reaction, int wor
     if (!violation) {
       // Invoke the downstream_reaction function.
       _lf_invoke_reaction(env, downstream_to_execute_now, worker);
-
-      // If the downstream_reaction produced outputs, put the resulting triggered
-      // reactions into the queue (or execute them directly, if possible).
-      schedule_output_reactions(env, downstream_to_execute_now, worker);
     }
 
+    // If the downstream_reaction, or the handlers invoked instead, produced outputs, put the
+    // resulting triggered reactions into the queue (or execute them directly, if possible).
+    // Do this only once because a reaction that is executed directly would be executed again.
+    schedule_output_reactions(env, downstream_to_execute_now, worker);
+
     // Reset the is_STP_violated because it has been passed
     // down the chain
     downstream_to_execute_now->is_STP_violated = false;
-- 
2.43.0


From 46860046f40838e8333a3700179c4319ddff7adc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:45:17 +0000
Subject: [PATCH 26/31] fix: an STP violation of a reaction that is already
 triggered is not overlooked

---
 core/reactor_common.c | 58 +++++++++++++++++++++++--------------------
 1 file changed, 31 insertions(+), 27 deletions(-)

diff --git a/core/reactor_common.c b/core/reactor_common.c
index 7065772..c1ee596 100644
--- a/core/reactor_common.c
+++ b/core/reactor_common.c
@@ -258,36 +258,37 @@ void _lf_pop_events(environment_t* env) {
     // Put the corresponding reactions onto the reaction queue.
     for (int i = 0; i < event->trigger->number_of_reactions; i++) {
       reaction_t* reaction = event->trigger->reactions[i];
-      // Do not enqueue this reaction twice.
-      if (reaction->status == inactive) {
 #ifdef FEDERATED_DECENTRALIZED
-        // In federated execution, an intended tag that is not (NEVER, 0)
-        // indicates that this particular event is triggered by a network message.
-        // The intended tag is set in handle_tagged_message in federate.c whenever
-        // a tagged message arrives from another federate.
-        if (event->intended_tag.time != NEVER) {
-          // If the intended tag of the event is actually set,
-          // transfer the intended tag to the trigger so that
-          // the reaction can access the value.
-          event->trigger->intended_tag = event->intended_tag;
-          // And check if it is in the past compared to the current tag.
-          if (lf_tag_compare(event->intended_tag, env->current_tag) < 0) {
-            // Mark the triggered reaction with a STP violation
-            reaction->is_STP_violated = true;
-            LF_PRINT_LOG("Trigger %p has violated the reaction's STP offset. Intended tag: " PRINTF_TAG
-                         ". Current tag: " PRINTF_TAG,
-                         (void*)event->trigger, event->intended_tag.time - start_time, event->intended_tag.microstep,
-                         env->current_tag.time - start_time, env->current_tag.microstep);
-            // Need to update the last_known_status_tag of the port because otherwise,
-            // the MLAA could get stuck, causing the program to lock up.
-            // This should not call update_last_known_status_on_input_port because we
-            // are starting a new tag step execution, so there are no reactions blocked on this input.
-            if (lf_tag_compare(env->current_tag, event->trigger->last_known_status_tag) > 0) {
-              event->trigger->last_known_status_tag = env->current_tag;
-            }
+      // This is done even if the reaction has already been triggered by something that is in time.
+      // In federated execution, an intended tag that is not (NEVER, 0)
+      // indicates that this particular event is triggered by a network message.
+      // The intended tag is set in handle_tagged_message in federate.c whenever
+      // a tagged message arrives from another federate.
+      if (event->intended_tag.time != NEVER) {
+        // If the intended tag of the event is actually set,
+        // transfer the intended tag to the trigger so that
+        // the reaction can access the value.
+        event->trigger->intended_tag = event->intended_tag;
+        // And check if it is in the past compared to the current tag.
+        if (lf_tag_compare(event->intended_tag, env->current_tag) < 0) {
+          // Mark the triggered reaction with a STP violation
+          reaction->is_STP_violated = true;
+          LF_PRINT_LOG("Trigger %p has violated the reaction's STP offset. Intended tag: " PRINTF_TAG
+                       ". Current tag: " PRINTF_TAG,
+                       (void*)event->trigger, event->intended_tag.time - start_time, event->intended_tag.microstep,
+                       env->current_tag.time - start_time, env->current_tag.microstep);
+          // Need to update the last_known_status_tag of the port because otherwise,
+          // the MLAA could get stuck, causing the program to lock up.
+          // This should not call update_last_known_status_on_input_port because we
+          // are starting a new tag step execution, so there are no reactions blocked on this input.
+          if (lf_tag_compare(env->current_tag, event->trigger->last_known_status_tag) > 0) {
+            event->trigger->last_known_status_tag = env->current_tag;
           }
         }
+      }
 #endif
+      // Do not enqueue this reaction twice.
+      if (reaction->status == inactive) {
 
 #ifdef MODAL_REACTORS
         // Check if reaction is disabled by mode inactivity
@@ -628,9 +629,12 @@ trigger_handle_t _lf_insert_reactions_for_trigger(environment_t* env, trigger_t*
       continue; // Suppress reaction by preventing entering reaction queue
     }
 #endif
+    if (is_STP_violated) {
+      // Mark the reaction even if it has already been triggered by something that is in time.
+      reaction->is_STP_violated = true;
+    }
     // Do not enqueue this reaction twice.
     if (reaction->status == inactive) {
-      reaction->is_STP_violated = is_STP_violated;
       _lf_trigger_reaction(env, reaction, -1);
       LF_PRINT_LOG("Enqueued reaction %s at time " PRINTF_TIME ".", reaction->name, lf_time_logical(env));
     }
-- 
2.43.0


From 4ed3bc67b694c72d2f8a14a49a559e0de0169d09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:55:35 +0000
Subject: [PATCH 27/31] fix: starting a watchdog does not undo its termination

---
 core/threaded/watchdog.c | 1 -
 1 file changed, 1 deletion(-)

diff --git a/core/threaded/watchdog.c b/core/threaded/watchdog.c
index f7b179f..75cce6a 100644
--- a/core/threaded/watchdog.c
+++ b/core/threaded/watchdog.c
@@ -143,7 +143,6 @@ static void* watchdog_thread_main(void* arg) {
 void lf_watchdog_start(watchdog_t* watchdog, interval_t additional_timeout) {
   // Assumes reactor mutex is already held.
   self_base_t* base = watchdog->base;
-  watchdog->terminate = false;
   instant_t previous_expiration = watchdog->expiration;
   watchdog->expiration = base->environment->current_tag.time + watchdog->min_expiration + additional_timeout;
 
-- 
2.43.0


From 9673b4562ce095ccdb07d95734afa5f13e8b3d73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:55:38 +0000
Subject: [PATCH 28/31] fix: free the mutex of a reactor with several watchdogs
 only once

---
 core/reactor_common.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/core/reactor_common.c b/core/reactor_common.c
index c1ee596..40cfd26 100644
--- a/core/reactor_common.c
+++ b/core/reactor_common.c
@@ -1228,6 +1228,8 @@ void termination(void) {
     for (int i = 0; i < env->watchdogs_size; i++) {
       if (env->watchdogs[i]->base->reactor_mutex != NULL) {
         free(env->watchdogs[i]->base->reactor_mutex);
+        // Other watchdogs of the same reactor have the same mutex.
+        env->watchdogs[i]->base->reactor_mutex = NULL;
       }
     }
 #endif
-- 
2.43.0


From d21936103d1c8c5d9905388b580af208ac66652b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:55:42 +0000
Subject: [PATCH 29/31] fix: initialize the mutexes of reactors before starting
 the threads of watchdogs

---
 core/threaded/watchdog.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/core/threaded/watchdog.c b/core/threaded/watchdog.c
index 75cce6a..d15092e 100644
--- a/core/threaded/watchdog.c
+++ b/core/threaded/watchdog.c
@@ -27,11 +27,15 @@ static void* watchdog_thread_main(void* arg);
  * Finally it starts of a non-termminating thread for each watchdog.
  */
 void _lf_initialize_watchdogs(environment_t* env) {
+  // Initialize the mutexes before starting any thread because watchdogs of the same reactor have the same mutex.
   for (int i = 0; i < env->watchdogs_size; i++) {
     watchdog_t* watchdog = env->watchdogs[i];
     if (watchdog->base->reactor_mutex != NULL) {
       LF_MUTEX_INIT((lf_mutex_t*)(watchdog->base->reactor_mutex));
     }
+  }
+  for (int i = 0; i < env->watchdogs_size; i++) {
+    watchdog_t* watchdog = env->watchdogs[i];
     LF_COND_INIT(&watchdog->cond, watchdog->base->reactor_mutex);
 
     int ret = lf_thread_create(&watchdog->thread_id, watchdog_thread_main, (void*)watchdog);
-- 
2.43.0


From 76c1717ddf665498ccf45e594d28d8ae0f62b43f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:33:35 +0000
Subject: [PATCH 30/31] fix: a one-shot timer in a mode that was never active
 is not scheduled twice when the mode is entered with a reset

---
 core/modal_models/modes.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/core/modal_models/modes.c b/core/modal_models/modes.c
index 42c35a6..c6b8ad4 100644
--- a/core/modal_models/modes.c
+++ b/core/modal_models/modes.c
@@ -385,7 +385,8 @@ void _lf_process_mode_changes(environment_t* env, reactor_mode_state_t* states[]
           event_t* event = suspended_event->event;
           if (event != NULL && event->trigger != NULL && event->trigger->mode == state->next_mode) {
             if (state->mode_change == reset_transition) { // Reset transition
-              if (event->trigger->is_timer) {             // Only reset timers
+              // Only reset timers. Those with a period of 0 have been scheduled above.
+              if (event->trigger->is_timer && event->trigger->period != 0) {
                 trigger_t* timer = event->trigger;
 
                 LF_PRINT_DEBUG("Modes: Re-enqueuing reset timer.");
-- 
2.43.0


From ebfd3924b06bd0ee6f57960b214a511836b5e465 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:36:15 +0000
Subject: [PATCH 31/31] fix: record a channel of a sparse multiport only once
 per tag

A port that is set several times at the same tag was added to the sparse
record each time, so that iterating over the multiport visited the
channel repeatedly.
---
 core/reactor.c                   | 4 +++-
 core/threaded/reactor_threaded.c | 4 +++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/core/reactor.c b/core/reactor.c
index 6e2fd24..3df8d1e 100644
--- a/core/reactor.c
+++ b/core/reactor.c
@@ -49,6 +49,8 @@ void lf_set_present(lf_port_base_t* port) {
     return;
   environment_t* env = port->source_reactor->environment;
   bool* is_present_field = &port->is_present;
+  // A port may be set several times at the same tag. Only the first time is recorded below.
+  bool was_present = *is_present_field;
   if (env->is_present_fields_abbreviated_size < env->is_present_fields_size) {
     env->is_present_fields_abbreviated[env->is_present_fields_abbreviated_size] = is_present_field;
   }
@@ -56,7 +58,7 @@ void lf_set_present(lf_port_base_t* port) {
   *is_present_field = true;
 
   // Support for sparse destination multiports.
-  if (port->sparse_record && port->destination_channel >= 0 && port->sparse_record->size >= 0) {
+  if (!was_present && port->sparse_record && port->destination_channel >= 0 && port->sparse_record->size >= 0) {
     size_t next = port->sparse_record->size++;
     if (next >= port->sparse_record->capacity) {
       // Buffer is full. Have to revert to the classic iteration.
diff --git a/core/threaded/reactor_threaded.c b/core/threaded/reactor_threaded.c
index dcf0738..7fc6db9 100644
--- a/core/threaded/reactor_threaded.c
+++ b/core/threaded/reactor_threaded.c
@@ -176,6 +176,8 @@ void lf_set_present(lf_port_base_t* port) {
     return;
   environment_t* env = port->source_reactor->environment;
   bool* is_present_field = &port->is_present;
+  // A port may be set several times at the same tag. Only the first time is recorded below.
+  bool was_present = *is_present_field;
   int ipfas = lf_atomic_fetch_add(&env->is_present_fields_abbreviated_size, 1);
   if (ipfas < env->is_present_fields_size) {
     env->is_present_fields_abbreviated[ipfas] = is_present_field;
@@ -183,7 +185,7 @@ void lf_set_present(lf_port_base_t* port) {
   *is_present_field = true;
 
   // Support for sparse destination multiports.
-  if (port->sparse_record && port->destination_channel >= 0 && port->sparse_record->size >= 0) {
+  if (!was_present && port->sparse_record && port->destination_channel >= 0 && port->sparse_record->size >= 0) {
     size_t next = (size_t)lf_atomic_fetch_add(&port->sparse_record->size, 1);
     if (next >= port->sparse_record->capacity) {
       // Buffer is full. Have to revert to the classic iteration.
-- 
2.43.0

