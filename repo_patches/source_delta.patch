From 049ba0e552b214e5f4805d96599e7664e1a6d2b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:20:06 +0000
Subject: [PATCH 01/79] fix: update token reference counts under a lock

The same token can be the template token of ports and actions of several reactors, so reactions executing in
parallel (and asynchronous calls to lf_schedule) can update its reference count concurrently. Lost updates lead to
payloads being freed while still in use, or never.
---
 core/lf_token.c       | 10 +++++++++-
 core/reactor_common.c |  2 ++
 lib/schedule.c        |  2 ++
 3 files changed, 13 insertions(+), 1 deletion(-)

diff --git a/core/lf_token.c b/core/lf_token.c
index b97a3b3..1a6a59e 100644
--- a/core/lf_token.c
+++ b/core/lf_token.c
@@ -337,6 +337,9 @@ void _lf_free_all_tokens() {
 void _lf_replace_template_token(token_template_t* tmplt, lf_token_t* newtoken) {
   assert(tmplt != NULL);
   LF_PRINT_DEBUG("_lf_replace_template_token: template: %p newtoken: %p.", (void*)tmplt, (void*)newtoken);
+  // The same token may be the template token of ports and triggers of several reactors, so
+  // reference counts can be updated concurrently by reactions executing in parallel.
+  LF_CRITICAL_SECTION_ENTER(GLOBAL_ENVIRONMENT);
   if (tmplt->token != newtoken) {
     if (tmplt->token != NULL) {
       _lf_done_using(tmplt->token);
@@ -348,6 +351,7 @@ void _lf_replace_template_token(token_template_t* tmplt, lf_token_t* newtoken) {
     }
     tmplt->token = newtoken;
   }
+  LF_CRITICAL_SECTION_EXIT(GLOBAL_ENVIRONMENT);
 }
 
 token_freed _lf_done_using(lf_token_t* token) {
@@ -355,12 +359,16 @@ token_freed _lf_done_using(lf_token_t* token) {
     return NOT_FREED;
   }
   LF_PRINT_DEBUG("_lf_done_using: token = %p, ref_count = %zu.", (void*)token, token->ref_count);
+  LF_CRITICAL_SECTION_ENTER(GLOBAL_ENVIRONMENT);
   if (token->ref_count == 0) {
+    LF_CRITICAL_SECTION_EXIT(GLOBAL_ENVIRONMENT);
     lf_print_warning("Token being freed that has already been freed: %p", (void*)token);
     return NOT_FREED;
   }
   token->ref_count--;
-  return _lf_free_token(token);
+  token_freed result = _lf_free_token(token);
+  LF_CRITICAL_SECTION_EXIT(GLOBAL_ENVIRONMENT);
+  return result;
 }
 
 void _lf_free_token_copies() {
diff --git a/core/reactor_common.c b/core/reactor_common.c
index 358480e..c25ed09 100644
--- a/core/reactor_common.c
+++ b/core/reactor_common.c
@@ -492,7 +492,9 @@ trigger_handle_t _lf_schedule_at_tag(environment_t* env, trigger_t* trigger, tag
 
   // Increment the reference count of the token.
   if (token != NULL) {
+    LF_CRITICAL_SECTION_ENTER(GLOBAL_ENVIRONMENT);
     token->ref_count++;
+    LF_CRITICAL_SECTION_EXIT(GLOBAL_ENVIRONMENT);
     LF_PRINT_DEBUG("_lf_schedule_at_tag: Incremented ref_count of %p to %zu.", (void*)token, token->ref_count);
   }
 
diff --git a/lib/schedule.c b/lib/schedule.c
index 1683523..761f7ce 100644
--- a/lib/schedule.c
+++ b/lib/schedule.c
@@ -128,7 +128,9 @@ trigger_handle_t lf_schedule_trigger(environment_t* env, trigger_t* trigger, int
 
   // Increment the reference count of the token.
   if (token != NULL) {
+    LF_CRITICAL_SECTION_ENTER(GLOBAL_ENVIRONMENT);
     token->ref_count++;
+    LF_CRITICAL_SECTION_EXIT(GLOBAL_ENVIRONMENT);
     LF_PRINT_DEBUG("lf_schedule_trigger: Incremented ref_count of %p to %zu.", (void*)token, token->ref_count);
   }
 
-- 
2.43.0


From 636e8dec95102999186f827c427450b1e11cab5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:27:45 +0000
Subject: [PATCH 02/79] fix: do not reuse the token of an action when
 scheduling an event

lf_schedule_copy() and lf_schedule_value() may be called asynchronously while a reaction replaces or reads the template
token of the action. Reusing that token made a reaction free or read a token that another thread was initializing.
The tokens created when it was not available also started with a reference count of 1 and were never freed.
---
 core/lf_token.c         | 10 ++++++++++
 include/core/lf_token.h | 12 ++++++++++++
 lib/schedule.c          |  9 ++++++---
 3 files changed, 28 insertions(+), 3 deletions(-)

diff --git a/core/lf_token.c b/core/lf_token.c
index 1a6a59e..0005d56 100644
--- a/core/lf_token.c
+++ b/core/lf_token.c
@@ -236,6 +236,16 @@ lf_token_t* _lf_new_token(token_type_t* type, void* value, size_t length) {
   return result;
 }
 
+lf_token_t* _lf_new_token_with_value(token_type_t* type, void* value, size_t length) {
+// Count allocations to issue a warning if this is never freed.
+#if !defined NDEBUG
+  LF_CRITICAL_SECTION_ENTER(GLOBAL_ENVIRONMENT);
+  _lf_count_payload_allocations++;
+  LF_CRITICAL_SECTION_EXIT(GLOBAL_ENVIRONMENT);
+#endif
+  return _lf_new_token(type, value, length);
+}
+
 lf_token_t* _lf_get_token(token_template_t* tmplt) {
   LF_CRITICAL_SECTION_ENTER(GLOBAL_ENVIRONMENT);
   if (tmplt->token != NULL && tmplt->token->ref_count == 1) {
diff --git a/include/core/lf_token.h b/include/core/lf_token.h
index 49069fa..00b44db 100644
--- a/include/core/lf_token.h
+++ b/include/core/lf_token.h
@@ -233,6 +233,18 @@ token_freed _lf_free_token(lf_token_t* token);
  */
 lf_token_t* _lf_new_token(token_type_t* type, void* value, size_t length);
 
+/**
+ * Create a new token, as `_lf_new_token()` does, for the specified dynamically allocated
+ * value and account for the allocation of that value. Unlike `_lf_initialize_token_with_value()`,
+ * this does not touch any template token and hence can be used for scheduling an event
+ * while a reaction is using the template token.
+ * @param type The type of the token.
+ * @param value The value, which will be freed with the token.
+ * @param length The array length of the value, or 1 to not be an array.
+ * @return A token with a reference count of 0.
+ */
+lf_token_t* _lf_new_token_with_value(token_type_t* type, void* value, size_t length);
+
 /**
  * Get a token for the specified template.
  * If the template already has a token and the reference count is 1,
diff --git a/lib/schedule.c b/lib/schedule.c
index 761f7ce..c469d59 100644
--- a/lib/schedule.c
+++ b/lib/schedule.c
@@ -55,8 +55,10 @@ trigger_handle_t lf_schedule_copy(void* action, interval_t offset, void* value,
     return -1;
   }
   LF_CRITICAL_SECTION_ENTER(env);
-  // Initialize token with an array size of length and a reference count of 0.
-  lf_token_t* token = _lf_initialize_token(template, length);
+  // Create a token with an array size of length and a reference count of 0. Do not reuse the template token because
+  // this function may be called asynchronously while a reaction is using that token.
+  lf_token_t* token =
+      _lf_new_token_with_value((token_type_t*)template, calloc(length, template->type.element_size), length);
   // Copy the value into the newly allocated memory.
   memcpy(token->value, value, template->type.element_size * length);
   // The schedule function will increment the reference count.
@@ -77,7 +79,8 @@ trigger_handle_t lf_schedule_value(void* action, interval_t extra_delay, void* v
   token_template_t* template = (token_template_t*)action;
   environment_t* env = ((lf_action_base_t*)action)->parent->environment;
   LF_CRITICAL_SECTION_ENTER(env);
-  lf_token_t* token = _lf_initialize_token_with_value(template, value, length);
+  // Do not reuse the template token because a reaction may be using it.
+  lf_token_t* token = _lf_new_token_with_value((token_type_t*)template, value, length);
   int return_value = lf_schedule_trigger(env, ((lf_action_base_t*)action)->trigger, extra_delay, token);
   // Notify the main thread in case it is waiting for physical time to elapse.
   lf_notify_of_event(env);
-- 
2.43.0


From 3b654e38222178c8d1ab929183649f508c1741d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:27:45 +0000
Subject: [PATCH 03/79] fix: make a newly created token the template token of a
 port

As documented for _lf_get_token(). Otherwise, the reference that the template holds to its previous token, which is
still in use elsewhere, is never released once lf_set() or lf_set_array() overwrites it.
---
 core/lf_token.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/core/lf_token.c b/core/lf_token.c
index 0005d56..09080a4 100644
--- a/core/lf_token.c
+++ b/core/lf_token.c
@@ -256,10 +256,12 @@ lf_token_t* _lf_get_token(token_template_t* tmplt) {
     LF_CRITICAL_SECTION_EXIT(GLOBAL_ENVIRONMENT);
     return tmplt->token;
   }
-  LF_CRITICAL_SECTION_EXIT(GLOBAL_ENVIRONMENT);
-  // If we get here, we need a new token.
+  // If we get here, we need a new token. The template no longer uses the previous one.
+  _lf_done_using(tmplt->token);
   lf_token_t* result = _lf_new_token((token_type_t*)tmplt, NULL, 0);
   result->ref_count = 1;
+  tmplt->token = result;
+  LF_CRITICAL_SECTION_EXIT(GLOBAL_ENVIRONMENT);
   return result;
 }
 
-- 
2.43.0


From b79e5538806633f9b1a8942c7205753669bc5d76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:30:14 +0000
Subject: [PATCH 04/79] fix: release the token of an event that is past the
 stop tag

The payload was never freed when the event was discarded after adding microsteps, and lf_schedule_trigger() released a
reference that it had not yet acquired when called after the stop tag.
---
 core/reactor_common.c |  1 +
 lib/schedule.c        | 17 +++++++++--------
 2 files changed, 10 insertions(+), 8 deletions(-)

diff --git a/core/reactor_common.c b/core/reactor_common.c
index c25ed09..c454cc7 100644
--- a/core/reactor_common.c
+++ b/core/reactor_common.c
@@ -548,6 +548,7 @@ trigger_handle_t _lf_schedule_at_tag(environment_t* env, trigger_t* trigger, tag
       if (lf_is_tag_after_stop_tag(env, (tag_t){.time = tag.time, .microstep = tag.microstep})) {
         // Scheduling e will incur a microstep after the stop tag,
         // which is illegal.
+        _lf_done_using(token);
         lf_recycle_event(env, e);
         return 0;
       }
diff --git a/lib/schedule.c b/lib/schedule.c
index c469d59..404b91f 100644
--- a/lib/schedule.c
+++ b/lib/schedule.c
@@ -113,6 +113,14 @@ bool lf_check_deadline(void* self, bool invoke_deadline_handler) {
 trigger_handle_t lf_schedule_trigger(environment_t* env, trigger_t* trigger, interval_t extra_delay,
                                      lf_token_t* token) {
   assert(env != GLOBAL_ENVIRONMENT);
+  // Increment the reference count of the token.
+  if (token != NULL) {
+    LF_CRITICAL_SECTION_ENTER(GLOBAL_ENVIRONMENT);
+    token->ref_count++;
+    LF_CRITICAL_SECTION_EXIT(GLOBAL_ENVIRONMENT);
+    LF_PRINT_DEBUG("lf_schedule_trigger: Incremented ref_count of %p to %zu.", (void*)token, token->ref_count);
+  }
+
   if (lf_is_tag_after_stop_tag(env, env->current_tag)) {
     // If schedule is called after stop_tag
     // This is a critical condition.
@@ -129,14 +137,6 @@ trigger_handle_t lf_schedule_trigger(environment_t* env, trigger_t* trigger, int
   LF_PRINT_DEBUG("lf_schedule_trigger: scheduling trigger %p with delay " PRINTF_TIME " and token %p.", (void*)trigger,
                  extra_delay, (void*)token);
 
-  // Increment the reference count of the token.
-  if (token != NULL) {
-    LF_CRITICAL_SECTION_ENTER(GLOBAL_ENVIRONMENT);
-    token->ref_count++;
-    LF_CRITICAL_SECTION_EXIT(GLOBAL_ENVIRONMENT);
-    LF_PRINT_DEBUG("lf_schedule_trigger: Incremented ref_count of %p to %zu.", (void*)token, token->ref_count);
-  }
-
   // The trigger argument could be null, meaning that nothing is triggered.
   // Doing this after incrementing the reference count ensures that the
   // payload will be freed, if there is one.
@@ -217,6 +217,7 @@ trigger_handle_t lf_schedule_trigger(environment_t* env, trigger_t* trigger, int
         LF_PRINT_DEBUG("Attempt to schedule an event after stop_tag was rejected.");
         // Scheduling an event will incur a microstep
         // after the stop tag.
+        _lf_done_using(token);
         lf_recycle_event(env, e);
         return 0;
       }
-- 
2.43.0


From f6bdb21878bec27665e1b26d33e7770b1eadebe8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:36:50 +0000
Subject: [PATCH 05/79] fix: release the tokens of events that remain in the
 event queue at termination

---
 core/reactor_common.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/core/reactor_common.c b/core/reactor_common.c
index c454cc7..435e6ae 100644
--- a/core/reactor_common.c
+++ b/core/reactor_common.c
@@ -1171,6 +1171,11 @@ void termination(void) {
         event_t* event = (event_t*)pqueue_tag_peek(env[i].event_q);
         lf_print_warning("---- The first future event has timestamp " PRINTF_TAG " after start tag.",
                          event->base.tag.time - start_time, event->base.tag.microstep);
+        // Release the tokens of these events.
+        while ((event = (event_t*)pqueue_tag_pop(env[i].event_q)) != NULL) {
+          _lf_done_using(event->token);
+          lf_recycle_event(&env[i], event);
+        }
       }
       // Print elapsed times.
       // If these are negative, then the program failed to start up.
-- 
2.43.0


From 04f9638b90f07a7c681c4fc30cfab734411eaa6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:37:56 +0000
Subject: [PATCH 06/79] fix: keep the overflow mark of a sparse record when
 writers race

A writer that incremented the size after another one had marked the record as overflowed (-1) made the record appear to
be valid again, so that a reader of the sparse multiport missed present channels.
---
 core/threaded/reactor_threaded.c | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/core/threaded/reactor_threaded.c b/core/threaded/reactor_threaded.c
index 82dd2b6..e88f7e3 100644
--- a/core/threaded/reactor_threaded.c
+++ b/core/threaded/reactor_threaded.c
@@ -184,11 +184,18 @@ void lf_set_present(lf_port_base_t* port) {
 
   // Support for sparse destination multiports.
   if (port->sparse_record && port->destination_channel >= 0 && port->sparse_record->size >= 0) {
-    size_t next = (size_t)lf_atomic_fetch_add(&port->sparse_record->size, 1);
-    if (next >= port->sparse_record->capacity) {
-      // Buffer is full. Have to revert to the classic iteration.
-      port->sparse_record->size = -1;
-    } else {
+    // Several reactions can be writing to channels of the same destination multiport concurrently.
+    int next, size_after;
+    do {
+      next = port->sparse_record->size;
+      if (next < 0) {
+        // Another writer has found the buffer to be full.
+        return;
+      }
+      // If the buffer is full, have to revert to the classic iteration.
+      size_after = ((size_t)next >= port->sparse_record->capacity) ? -1 : next + 1;
+    } while (!lf_atomic_bool_compare_and_swap(&port->sparse_record->size, next, size_after));
+    if (size_after > 0) {
       port->sparse_record->present_channels[next] = port->destination_channel;
     }
   }
-- 
2.43.0


From 4789f95053b0a1dae5508685307c5f0a4fe9817d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:37:56 +0000
Subject: [PATCH 07/79] fix: record a port that is set more than once at a tag
 only once

Otherwise, lf_multiport_next() returns the same channel of a sparse multiport repeatedly.
---
 core/reactor.c                   | 4 ++++
 core/threaded/reactor_threaded.c | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/core/reactor.c b/core/reactor.c
index 6e2fd24..392b22f 100644
--- a/core/reactor.c
+++ b/core/reactor.c
@@ -49,6 +49,10 @@ void lf_set_present(lf_port_base_t* port) {
     return;
   environment_t* env = port->source_reactor->environment;
   bool* is_present_field = &port->is_present;
+  if (*is_present_field) {
+    // The port has already been set at this tag, so it has already been recorded as present.
+    return;
+  }
   if (env->is_present_fields_abbreviated_size < env->is_present_fields_size) {
     env->is_present_fields_abbreviated[env->is_present_fields_abbreviated_size] = is_present_field;
   }
diff --git a/core/threaded/reactor_threaded.c b/core/threaded/reactor_threaded.c
index e88f7e3..65754a6 100644
--- a/core/threaded/reactor_threaded.c
+++ b/core/threaded/reactor_threaded.c
@@ -176,6 +176,10 @@ void lf_set_present(lf_port_base_t* port) {
     return;
   environment_t* env = port->source_reactor->environment;
   bool* is_present_field = &port->is_present;
+  if (*is_present_field) {
+    // The port has already been set at this tag, so it has already been recorded as present.
+    return;
+  }
   int ipfas = lf_atomic_fetch_add(&env->is_present_fields_abbreviated_size, 1);
   if (ipfas < env->is_present_fields_size) {
     env->is_present_fields_abbreviated[ipfas] = is_present_field;
-- 
2.43.0


From 5d643a1b4180c7d8d9eabfbb09e42863d310e52a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:42:44 +0000
Subject: [PATCH 08/79] fix: take reactions atomically in the adaptive
 scheduler

Decrementing the number of reactions below zero and then resetting it with a plain store is not atomic with respect to
another worker doing the same.
---
 core/threaded/scheduler_adaptive.c | 13 ++-----------
 1 file changed, 2 insertions(+), 11 deletions(-)

diff --git a/core/threaded/scheduler_adaptive.c b/core/threaded/scheduler_adaptive.c
index 5a926ab..fb21ef7 100644
--- a/core/threaded/scheduler_adaptive.c
+++ b/core/threaded/scheduler_adaptive.c
@@ -206,16 +206,8 @@ static void worker_assignments_free(lf_scheduler_t* scheduler) {
  */
 static reaction_t* get_reaction(lf_scheduler_t* scheduler, size_t worker) {
   worker_assignments_t* worker_assignments = scheduler->custom_data->worker_assignments;
-#ifndef FEDERATED
-  int index = lf_atomic_add_fetch(worker_assignments->num_reactions_by_worker + worker, -1);
-  if (index >= 0) {
-    return worker_assignments->reactions_by_worker[worker][index];
-  }
-  worker_assignments->num_reactions_by_worker[worker] = 0;
-  return NULL;
-#else
-  // This is necessary for federated programs because reactions may be inserted into the current
-  // level.
+  // Several workers may be taking reactions from the same worker at the same time, and, in federated programs, reactions
+  // may be inserted into the current level.
   int old_num_reactions;
   int current_num_reactions = worker_assignments->num_reactions_by_worker[worker];
   int index;
@@ -227,7 +219,6 @@ static reaction_t* get_reaction(lf_scheduler_t* scheduler, size_t worker) {
                 lf_atomic_val_compare_and_swap(worker_assignments->num_reactions_by_worker + worker, old_num_reactions,
                                                (index = old_num_reactions - 1))) != old_num_reactions);
   return worker_assignments->reactions_by_worker[worker][index];
-#endif
 }
 
 /**
-- 
2.43.0


From 0f9454473dd106b3b6e5dd00c7ed1646fc2b392f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:42:44 +0000
Subject: [PATCH 09/79] fix: let the adaptive scheduler awaken only the workers
 that it accounts for

A calling worker that is not itself among the workers to awaken was counted in num_awakened, so that a worker with a
lower number that was not to be awakened could leave its wait (upon a spurious wakeup) without being counted in
num_loose_threads. The level or tag then advanced while reactions were still executing.
---
 core/threaded/scheduler_adaptive.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/core/threaded/scheduler_adaptive.c b/core/threaded/scheduler_adaptive.c
index fb21ef7..2fa62f6 100644
--- a/core/threaded/scheduler_adaptive.c
+++ b/core/threaded/scheduler_adaptive.c
@@ -329,8 +329,9 @@ static void worker_states_awaken_locked(lf_scheduler_t* scheduler, size_t worker
   // The predicate of the condition variable depends on num_awakened and level_counter, so
   // this is a critical section.
   worker_states->num_loose_threads = worker_states->cumsum_of_worker_group_sizes[max_cond];
-  worker_states->num_loose_threads += worker >= worker_states->num_loose_threads;
+  // Sleeping workers with a number that is not less than this must remain asleep. The calling worker is not asleep.
   worker_states->num_awakened = worker_states->num_loose_threads;
+  worker_states->num_loose_threads += worker >= worker_states->num_loose_threads;
   scheduler->custom_data->level_counter++;
   for (size_t cond = 0; cond <= max_cond; cond++) {
     lf_cond_broadcast(worker_states->worker_conds + cond);
-- 
2.43.0


From a093d178c56449e74afb6c16e5d86cc6f1c2263c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:44:22 +0000
Subject: [PATCH 10/79] fix: wait on the tag barrier of lf_request_stop() in
 unfederated programs

An asynchronous call to lf_request_stop() determines the stop tag from the current tag and raises a barrier to prevent
the tag from advancing before it has set that stop tag. Unfederated programs ignored the barrier, so the tag could
advance to or past the stop tag and the shutdown reactions were never executed.
---
 core/threaded/reactor_threaded.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/core/threaded/reactor_threaded.c b/core/threaded/reactor_threaded.c
index 65754a6..4dc47b2 100644
--- a/core/threaded/reactor_threaded.c
+++ b/core/threaded/reactor_threaded.c
@@ -427,20 +427,20 @@ void _lf_next_locked(environment_t* env) {
                  ". This should be small unless -fast is used.",
                  lf_time_physical() - next_tag.time);
 
-#ifdef FEDERATED
   // In federated execution (at least under decentralized coordination),
   // it is possible that an incoming message has been partially read,
   // enough to see its tag. To prevent it from becoming tardy, the thread
   // that is reading the message has set a barrier to prevent logical time
   // from exceeding the timestamp of the message. It will remove that barrier
   // once the complete message has been read. Also, if a federate requests
-  // to stop exeuction barriers will used while reaching a consensus.
+  // to stop execution, barriers will be used while reaching a consensus.
+  // In unfederated execution, an asynchronous call to lf_request_stop() sets a barrier
+  // until it has set the stop tag.
   // Here, we wait for that barrier to be removed, if appropriate.
   if (_lf_wait_on_tag_barrier(env, next_tag)) {
     // A wait actually occurred, so the next_tag may have changed again.
     next_tag = get_next_event_tag(env);
   }
-#endif // FEDERATED
 
   // If the first event in the event queue has a tag greater than or equal to the
   // stop time, and the current tag matches the stop tag (meaning that we have already
-- 
2.43.0


From 98298c5e1f2d0828e7655a2178653c16481f731e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:45:31 +0000
Subject: [PATCH 11/79] fix: never schedule a physical action at or before the
 current tag

If physical time (plus the delay) did not exceed the current logical time, as can happen because the runtime skips very
short waits, the event was given microstep 0 at the current time. If the current microstep was larger, the event was in
the past and the program exited with a fatal error. If another event of the action was queued at the next microstep, one
of them was lost.
---
 lib/schedule.c | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/lib/schedule.c b/lib/schedule.c
index 404b91f..870536e 100644
--- a/lib/schedule.c
+++ b/lib/schedule.c
@@ -176,6 +176,11 @@ trigger_handle_t lf_schedule_trigger(environment_t* env, trigger_t* trigger, int
     // Get the current physical time and assign it as the intended time.
     intended_tag.time = lf_time_physical() + delay;
     intended_tag.microstep = 0;
+    // Logical time may be slightly ahead of physical time (see MIN_SLEEP_DURATION) or equal to it.
+    // In that case, the earliest possible tag is the next microstep.
+    if (lf_tag_compare(intended_tag, env->current_tag) <= 0) {
+      intended_tag = lf_delay_tag(env->current_tag, 0);
+    }
   } else {
 // FIXME: We need to verify that we are executing within a reaction?
 // See reactor_threaded.
@@ -294,9 +299,9 @@ trigger_handle_t lf_schedule_trigger(environment_t* env, trigger_t* trigger, int
     intended_tag.time = env->current_tag.time;
   }
 #endif
-  if (lf_tag_compare(intended_tag, env->current_tag) == 0) {
+  if (lf_tag_compare(intended_tag, env->current_tag) <= 0) {
     // Increment microstep.
-    intended_tag.microstep++;
+    intended_tag = lf_delay_tag(env->current_tag, 0);
   }
 
   // Set the tag of the event.
-- 
2.43.0


From d029e995d99c48e71f78dfa6a22e471cd78b7aac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:59:45 +0000
Subject: [PATCH 12/79] fix: do not ignore a stop request while another one is
 in progress

In an unfederated program, a call to lf_request_stop() was ignored as redundant from the moment another thread entered
lf_request_stop(), even if that thread had not yet raised the tag barrier or set the stop tag. The program then continued
past the stop tag of the ignored request for as long as that thread was delayed.
---
 core/threaded/reactor_threaded.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/core/threaded/reactor_threaded.c b/core/threaded/reactor_threaded.c
index 4dc47b2..6280b6c 100644
--- a/core/threaded/reactor_threaded.c
+++ b/core/threaded/reactor_threaded.c
@@ -486,11 +486,13 @@ void lf_request_stop(void) {
   // If a requested stop is pending, return without doing anything.
   LF_PRINT_LOG("lf_request_stop() has been called.");
   LF_MUTEX_LOCK(&global_mutex);
+#ifdef FEDERATED
   if (lf_stop_requested) {
     LF_MUTEX_UNLOCK(&global_mutex);
     LF_PRINT_LOG("Ignoring redundant lf_request_stop() call.");
     return;
   }
+#endif // If unfederated, an earlier request may still be in progress and may set a later stop tag than this one.
   lf_stop_requested = true;
   LF_MUTEX_UNLOCK(&global_mutex);
 
-- 
2.43.0


From fcd93e76a7714657b59f8c37cb6d86b375ff1bec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:01:38 +0000
Subject: [PATCH 13/79] fix: release the reference of an event whose token is
 replaced by itself or dropped

Scheduling increments the reference count of the token, so dropping the new event or replacing the token of the queued
event has to decrement it even if both events carry the same token. Otherwise, the token was never freed.
---
 core/reactor_common.c | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/core/reactor_common.c b/core/reactor_common.c
index 435e6ae..905e243 100644
--- a/core/reactor_common.c
+++ b/core/reactor_common.c
@@ -471,10 +471,9 @@ event_t* _lf_create_dummy_events(environment_t* env, tag_t tag) {
 }
 
 void lf_replace_token(event_t* event, lf_token_t* token) {
-  if (event->token != token) {
-    // Free the existing token, if any.
-    _lf_done_using(event->token);
-  }
+  // Release the existing token, if any. This is necessary even if it is the same token
+  // because the caller has incremented its reference count for the replacement.
+  _lf_done_using(event->token);
   // Replace the token with ours.
   event->token = token;
 }
@@ -527,9 +526,7 @@ trigger_handle_t _lf_schedule_at_tag(environment_t* env, trigger_t* trigger, tag
   if (found != NULL) {
     switch (trigger->policy) {
     case drop:
-      if (found->token != token) {
-        _lf_done_using(token);
-      }
+      _lf_done_using(token);
       lf_recycle_event(env, e);
       return (0);
       break;
-- 
2.43.0


From 0b56f8a132cf00f62f29699b4f909e797c0304cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:01:38 +0000
Subject: [PATCH 14/79] fix: apply the minimum spacing independently of when
 the stop tag is determined

An event past the stop tag was discarded without affecting the spacing of the following events of the action, whereas the
same event was taken into account if the stop was requested right after it had been scheduled. Which of the two happens
first can depend on the timing of reactions that execute in parallel, and the following event may be at the stop tag.
---
 lib/schedule.c | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/lib/schedule.c b/lib/schedule.c
index 870536e..6156c83 100644
--- a/lib/schedule.c
+++ b/lib/schedule.c
@@ -307,6 +307,12 @@ trigger_handle_t lf_schedule_trigger(environment_t* env, trigger_t* trigger, int
   // Set the tag of the event.
   e->base.tag = intended_tag;
 
+  // Store the time in order to check the min spacing
+  // between this and any following event.
+  // Do this even if the event is discarded below because, otherwise, the tags of the following events
+  // depend on whether the stop tag was determined before or after this event was scheduled.
+  trigger->last_tag = intended_tag;
+
   // Do not schedule events if the event time is past the stop tag.
   LF_PRINT_DEBUG("Comparing event with elapsed tag " PRINTF_TAG " against stop tag " PRINTF_TAG ".",
                  e->base.tag.time - lf_time_start(), e->base.tag.microstep, env->stop_tag.time - lf_time_start(),
@@ -318,10 +324,6 @@ trigger_handle_t lf_schedule_trigger(environment_t* env, trigger_t* trigger, int
     return (0);
   }
 
-  // Store the time in order to check the min spacing
-  // between this and any following event.
-  trigger->last_tag = intended_tag;
-
   // Queue the event.
   LF_PRINT_LOG("Inserting event in the event queue with elapsed tag " PRINTF_TAG ".",
                e->base.tag.time - lf_time_start(), e->base.tag.microstep);
-- 
2.43.0


From a1a0a86656bf0e659c99751ed815e4d867eb96da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:44:03 +0000
Subject: [PATCH 15/79] fix: initialize and free the mutex shared by the
 watchdogs of a reactor only once

---
 core/reactor_common.c    | 2 ++
 core/threaded/watchdog.c | 9 ++++++++-
 2 files changed, 10 insertions(+), 1 deletion(-)

diff --git a/core/reactor_common.c b/core/reactor_common.c
index 905e243..1674378 100644
--- a/core/reactor_common.c
+++ b/core/reactor_common.c
@@ -1210,6 +1210,8 @@ void termination(void) {
     for (int i = 0; i < env->watchdogs_size; i++) {
       if (env->watchdogs[i]->base->reactor_mutex != NULL) {
         free(env->watchdogs[i]->base->reactor_mutex);
+        // Other watchdogs of the same reactor share this mutex.
+        env->watchdogs[i]->base->reactor_mutex = NULL;
       }
     }
 #endif
diff --git a/core/threaded/watchdog.c b/core/threaded/watchdog.c
index 3240fc3..a6042d1 100644
--- a/core/threaded/watchdog.c
+++ b/core/threaded/watchdog.c
@@ -29,7 +29,14 @@ static void* watchdog_thread_main(void* arg);
 void _lf_initialize_watchdogs(environment_t* env) {
   for (int i = 0; i < env->watchdogs_size; i++) {
     watchdog_t* watchdog = env->watchdogs[i];
-    if (watchdog->base->reactor_mutex != NULL) {
+    // Watchdogs of the same reactor share the mutex, which must be initialized only once.
+    bool first_of_reactor = true;
+    for (int j = 0; j < i; j++) {
+      if (env->watchdogs[j]->base == watchdog->base) {
+        first_of_reactor = false;
+      }
+    }
+    if (first_of_reactor && watchdog->base->reactor_mutex != NULL) {
       LF_MUTEX_INIT((lf_mutex_t*)(watchdog->base->reactor_mutex));
     }
     LF_COND_INIT(&watchdog->cond, watchdog->base->reactor_mutex);
-- 
2.43.0


From 2ef0d1be487e2f2956a62141bca5380eac5b1a49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:45:21 +0000
Subject: [PATCH 16/79] fix: deadline and STP violation handlers exclude the
 watchdog handlers of their reactor

---
 core/reactor_common.c            | 20 ++++++++++++++++++--
 core/threaded/reactor_threaded.c |  4 ++--
 include/core/reactor_common.h    | 10 ++++++++++
 3 files changed, 30 insertions(+), 4 deletions(-)

diff --git a/core/reactor_common.c b/core/reactor_common.c
index 1674378..84c7490 100644
--- a/core/reactor_common.c
+++ b/core/reactor_common.c
@@ -703,6 +703,22 @@ void _lf_invoke_reaction(environment_t* env, reaction_t* reaction, int worker) {
 #endif
 }
 
+void _lf_invoke_violation_handler(reaction_t* reaction, reaction_function_t handler) {
+#if !defined(LF_SINGLE_THREADED)
+  if (((self_base_t*)reaction->self)->reactor_mutex != NULL) {
+    LF_MUTEX_LOCK((lf_mutex_t*)((self_base_t*)reaction->self)->reactor_mutex);
+  }
+#endif
+
+  (*handler)(reaction->self);
+
+#if !defined(LF_SINGLE_THREADED)
+  if (((self_base_t*)reaction->self)->reactor_mutex != NULL) {
+    LF_MUTEX_UNLOCK((lf_mutex_t*)((self_base_t*)reaction->self)->reactor_mutex);
+  }
+#endif
+}
+
 /**
  * For the specified reaction, if it has produced outputs, insert the
  * resulting triggered reactions into the reaction queue.
@@ -813,7 +829,7 @@ void schedule_output_reactions(environment_t* env, reaction_t* reaction, int wor
         // to downstream reactions.
         violation = true;
         LF_PRINT_LOG("Invoke tardiness handler.");
-        (*handler)(downstream_to_execute_now->self);
+        _lf_invoke_violation_handler(downstream_to_execute_now, handler);
 
         // If the reaction produced outputs, put the resulting
         // triggered reactions into the queue or execute them directly if possible.
@@ -840,7 +856,7 @@ void schedule_output_reactions(environment_t* env, reaction_t* reaction, int wor
         tracepoint_reaction_starts(env, downstream_to_execute_now, worker);
         if (handler != NULL) {
           // Assume the mutex is still not held.
-          (*handler)(downstream_to_execute_now->self);
+          _lf_invoke_violation_handler(downstream_to_execute_now, handler);
 
           // If the reaction produced outputs, put the resulting
           // triggered reactions into the queue or execute them directly if possible.
diff --git a/core/threaded/reactor_threaded.c b/core/threaded/reactor_threaded.c
index 6280b6c..5d6a1b3 100644
--- a/core/threaded/reactor_threaded.c
+++ b/core/threaded/reactor_threaded.c
@@ -706,7 +706,7 @@ bool _lf_worker_handle_deadline_violation_for_reaction(environment_t* env, int w
       reaction_function_t handler = reaction->deadline_violation_handler;
       if (handler != NULL) {
         LF_PRINT_LOG("Worker %d: Deadline violation. Invoking deadline handler.", worker_number);
-        (*handler)(reaction->self);
+        _lf_invoke_violation_handler(reaction, handler);
 
         // If the reaction produced outputs, put the resulting
         // triggered reactions into the queue or execute them directly if possible.
@@ -757,7 +757,7 @@ bool _lf_worker_handle_STP_violation_for_reaction(environment_t* env, int worker
       LF_PRINT_LOG("Worker %d: Invoking STP violation handler.", worker_number);
       // There is a violation
       violation_occurred = true;
-      (*handler)(reaction->self);
+      _lf_invoke_violation_handler(reaction, handler);
 
       // Reset the STP violation flag because it has been dealt with.
       // Downstream handlers should not be invoked.
diff --git a/include/core/reactor_common.h b/include/core/reactor_common.h
index 8086ed7..e9d28ba 100644
--- a/include/core/reactor_common.h
+++ b/include/core/reactor_common.h
@@ -264,6 +264,16 @@ void _lf_advance_tag(environment_t* env, tag_t next_tag);
 void _lf_pop_events(environment_t* env);
 
 void _lf_invoke_reaction(environment_t* env, reaction_t* reaction, int worker);
+
+/**
+ * @brief Invoke a deadline or STP violation handler of the given reaction.
+ *
+ * Like a reaction, the handler excludes the watchdog handlers of its reactor.
+ *
+ * @param reaction The reaction whose violation is being handled.
+ * @param handler The handler, which must not be NULL.
+ */
+void _lf_invoke_violation_handler(reaction_t* reaction, reaction_function_t handler);
 void schedule_output_reactions(environment_t* env, reaction_t* reaction, int worker);
 int process_args(int argc, const char* argv[]);
 
-- 
2.43.0


From 8d07b8984ceef2a7e2c81bcd998108327f7466a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:45:21 +0000
Subject: [PATCH 17/79] fix: do not forget a watchdog that its own handler
 starts again

---
 core/threaded/watchdog.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/core/threaded/watchdog.c b/core/threaded/watchdog.c
index a6042d1..763f067 100644
--- a/core/threaded/watchdog.c
+++ b/core/threaded/watchdog.c
@@ -134,9 +134,10 @@ static void* watchdog_thread_main(void* arg) {
 
       // If we reach here, the watchdog actually timed out. Handle it.
       LF_PRINT_DEBUG("Watchdog %p timed out", (void*)watchdog);
+      // Do this before invoking the handler because the handler may start the watchdog again.
+      watchdog->expiration = NEVER;
       watchdog_function_t watchdog_func = watchdog->watchdog_function;
       (*watchdog_func)(base);
-      watchdog->expiration = NEVER;
     }
   }
 
-- 
2.43.0


From 1d83fa7e9f10629d10e0891fe10f1209a05463cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:45:52 +0000
Subject: [PATCH 18/79] fix: starting a watchdog does not cancel its
 termination

---
 core/threaded/watchdog.c | 1 -
 1 file changed, 1 deletion(-)

diff --git a/core/threaded/watchdog.c b/core/threaded/watchdog.c
index 763f067..98c26be 100644
--- a/core/threaded/watchdog.c
+++ b/core/threaded/watchdog.c
@@ -150,7 +150,6 @@ static void* watchdog_thread_main(void* arg) {
 void lf_watchdog_start(watchdog_t* watchdog, interval_t additional_timeout) {
   // Assumes reactor mutex is already held.
   self_base_t* base = watchdog->base;
-  watchdog->terminate = false;
   watchdog->expiration = base->environment->current_tag.time + watchdog->min_expiration + additional_timeout;
 
   // If the watchdog is inactive, signal it to start waiting.
-- 
2.43.0


From 6acdd60ff0d74c88e83747cb6da84ee795aecbe3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:46:05 +0000
Subject: [PATCH 19/79] fix: wake up a waiting watchdog that is restarted with
 an earlier expiration

---
 core/threaded/watchdog.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/core/threaded/watchdog.c b/core/threaded/watchdog.c
index 98c26be..883f886 100644
--- a/core/threaded/watchdog.c
+++ b/core/threaded/watchdog.c
@@ -150,10 +150,12 @@ static void* watchdog_thread_main(void* arg) {
 void lf_watchdog_start(watchdog_t* watchdog, interval_t additional_timeout) {
   // Assumes reactor mutex is already held.
   self_base_t* base = watchdog->base;
+  instant_t previous_expiration = watchdog->expiration;
   watchdog->expiration = base->environment->current_tag.time + watchdog->min_expiration + additional_timeout;
 
   // If the watchdog is inactive, signal it to start waiting.
-  if (!watchdog->active) {
+  // If it now expires earlier than before, signal it to wait for less time.
+  if (!watchdog->active || watchdog->expiration < previous_expiration) {
     LF_COND_SIGNAL(&watchdog->cond);
   }
 }
-- 
2.43.0


From ae00ad4d477e16caa8baa2c9261704e1a5a9f370 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:02:15 +0000
Subject: [PATCH 20/79] fix: do not chain-execute a downstream reaction whose
 mode is inactive

---
 core/reactor_common.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/core/reactor_common.c b/core/reactor_common.c
index 84c7490..acc9ff2 100644
--- a/core/reactor_common.c
+++ b/core/reactor_common.c
@@ -763,6 +763,12 @@ void schedule_output_reactions(environment_t* env, reaction_t* reaction, int wor
               LF_PRINT_DEBUG("Passing is_STP_violated of %d to the downstream reaction: %s",
                              downstream_reaction->is_STP_violated, downstream_reaction->name);
             }
+#endif
+#ifdef MODAL_REACTORS
+            // A reaction in an inactive mode is neither queued nor executed immediately.
+            if (downstream_reaction != NULL && !_lf_mode_is_active(downstream_reaction->mode)) {
+              continue;
+            }
 #endif
             if (downstream_reaction != NULL && downstream_reaction != downstream_to_execute_now) {
               num_downstream_reactions++;
-- 
2.43.0


From d6cfcc7c0d05a873d90d31c3d5b5d671ab3b2a9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:04:04 +0000
Subject: [PATCH 21/79] fix: release the tokens of suspended events that are
 resumed, discarded or freed

---
 core/modal_models/modes.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/core/modal_models/modes.c b/core/modal_models/modes.c
index 42c35a6..f17ea43 100644
--- a/core/modal_models/modes.c
+++ b/core/modal_models/modes.c
@@ -411,7 +411,8 @@ void _lf_process_mode_changes(environment_t* env, reactor_mode_state_t* states[]
                                     .microstep = (local_remaining_delay == 0 ? current_logical_tag.microstep + 1 : 0)};
               _lf_schedule_at_tag(env, event->trigger, schedule_tag, event->token);
             }
-            // A fresh event was created by schedule, hence, recycle old one
+            // A fresh event was created by schedule (with its own reference to the token), hence, recycle old one
+            _lf_done_using(event->token);
             lf_recycle_event(env, event);
 
             // Remove suspended event and continue
@@ -520,6 +521,7 @@ void _lf_process_mode_changes(environment_t* env, reactor_mode_state_t* states[]
 void _lf_terminate_modal_reactors(environment_t* env) {
   _lf_suspended_event_t* suspended_event = _lf_suspended_events_head;
   while (suspended_event != NULL) {
+    _lf_done_using(suspended_event->event->token);
     lf_recycle_event(env, suspended_event->event);
     _lf_suspended_event_t* next = suspended_event->next;
     free(suspended_event);
-- 
2.43.0


From cb1e8e16d84b4779a275996d52de630c66c14774 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:05:13 +0000
Subject: [PATCH 22/79] fix: suspended events keep their microstep and order
 when their mode is resumed

---
 core/modal_models/modes.c | 28 ++++++++++++++--------------
 core/reactor_common.c     |  3 ++-
 2 files changed, 16 insertions(+), 15 deletions(-)

diff --git a/core/modal_models/modes.c b/core/modal_models/modes.c
index f17ea43..62c81b3 100644
--- a/core/modal_models/modes.c
+++ b/core/modal_models/modes.c
@@ -397,18 +397,13 @@ void _lf_process_mode_changes(environment_t* env, reactor_mode_state_t* states[]
               // can be removed here)
             } else if (state->next_mode != state->current_mode &&
                        event->trigger != NULL) { // History transition to a different mode
-              // Remaining time that the event would have been waiting before mode was left
-              instant_t local_remaining_delay =
-                  event->base.tag.time -
-                  (state->next_mode->deactivation_time != 0 ? state->next_mode->deactivation_time : lf_time_start());
-              tag_t current_logical_tag = env->current_tag;
+              // Reschedule the event with the delay that remained when the mode was left (see below), which
+              // preserves the order of the events of the same trigger.
+              tag_t schedule_tag = lf_tag_add(env->current_tag, event->base.tag);
 
-              // Reschedule event with original local delay
               LF_PRINT_DEBUG("Modes: Re-enqueuing event with a suspended delay of " PRINTF_TIME
-                             " (previous TTH: " PRINTF_TIME ", Mode suspended at: " PRINTF_TIME ").",
-                             local_remaining_delay, event->base.tag.time, state->next_mode->deactivation_time);
-              tag_t schedule_tag = {.time = current_logical_tag.time + local_remaining_delay,
-                                    .microstep = (local_remaining_delay == 0 ? current_logical_tag.microstep + 1 : 0)};
+                             " (Mode suspended at: " PRINTF_TIME ").",
+                             event->base.tag.time, state->next_mode->deactivation_time);
               _lf_schedule_at_tag(env, event->trigger, schedule_tag, event->token);
             }
             // A fresh event was created by schedule (with its own reference to the token), hence, recycle old one
@@ -489,16 +484,21 @@ void _lf_process_mode_changes(environment_t* env, reactor_mode_state_t* states[]
           event_t* event = (event_t*)env->event_q->d[i + 1]; // internal queue data structure omits index 0
           if (event != NULL && event->trigger != NULL && !_lf_mode_is_active(event->trigger->mode)) {
             delayed_removal[delayed_removal_count++] = event;
-            // This will store the event including possibly those chained up in super dense time
-            _lf_add_suspended_event(event);
           }
         }
 
         // Events are removed delayed in order to allow linear iteration over the queue
-        LF_PRINT_DEBUG("Modes: Pulling %zu events from the event queue to suspend them. %d events are now suspended.",
+        LF_PRINT_DEBUG("Modes: Pulling %zu events from the event queue to suspend them. %d events are suspended already.",
                        delayed_removal_count, _lf_suspended_events_num);
         for (size_t i = 0; i < delayed_removal_count; i++) {
-          pqueue_tag_remove(env->event_q, (pqueue_tag_element_t*)(delayed_removal[i]));
+          event_t* event = delayed_removal[i];
+          pqueue_tag_remove(env->event_q, (pqueue_tag_element_t*)event);
+          // While an event is suspended, its tag is the delay that remained when the mode was left.
+          event->base.tag.time -= env->current_tag.time;
+          if (event->base.tag.time == 0) {
+            event->base.tag.microstep -= env->current_tag.microstep;
+          }
+          _lf_add_suspended_event(event);
         }
 
         free(delayed_removal);
diff --git a/core/reactor_common.c b/core/reactor_common.c
index acc9ff2..3158ce6 100644
--- a/core/reactor_common.c
+++ b/core/reactor_common.c
@@ -363,7 +363,8 @@ void _lf_initialize_timer(environment_t* env, trigger_t* timer) {
     // && (timer->offset != 0 || timer->period != 0)) {
     event_t* e = lf_get_new_event(env);
     e->trigger = timer;
-    e->base.tag = (tag_t){.time = lf_time_logical(env) + timer->offset, .microstep = 0};
+    // The tag of a suspended event is the delay that remains when its mode is entered.
+    e->base.tag = (tag_t){.time = timer->offset, .microstep = timer->offset == 0 ? 1 : 0};
     _lf_add_suspended_event(e);
     return;
   }
-- 
2.43.0


From 81ee8fb049f92b37584bcf68584166444802e4a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:05:50 +0000
Subject: [PATCH 23/79] fix: resume and start nested modes when an enclosing
 mode is entered by a history transition

---
 core/modal_models/modes.c | 68 ++++++++++++++++++++++-----------------
 1 file changed, 39 insertions(+), 29 deletions(-)

diff --git a/core/modal_models/modes.c b/core/modal_models/modes.c
index 62c81b3..b14c15f 100644
--- a/core/modal_models/modes.c
+++ b/core/modal_models/modes.c
@@ -379,34 +379,21 @@ void _lf_process_mode_changes(environment_t* env, reactor_mode_state_t* states[]
           }
         }
 
-        // Reset/Reactivate previously suspended events of next state
+        // Reset previously suspended events of next state.
+        // For a history transition, they are reactivated below, when the new active modes are known.
         _lf_suspended_event_t* suspended_event = _lf_suspended_events_head;
-        while (suspended_event != NULL) {
+        while (suspended_event != NULL && state->mode_change == reset_transition) {
           event_t* event = suspended_event->event;
           if (event != NULL && event->trigger != NULL && event->trigger->mode == state->next_mode) {
-            if (state->mode_change == reset_transition) { // Reset transition
-              if (event->trigger->is_timer) {             // Only reset timers
-                trigger_t* timer = event->trigger;
-
-                LF_PRINT_DEBUG("Modes: Re-enqueuing reset timer.");
-                // Reschedule the timer with no additional delay.
-                // This will take care of super dense time when offset is 0.
-                lf_schedule_trigger(env, timer, event->trigger->offset, NULL);
-              }
-              // No further processing; drops all events upon reset (timer event was recreated by schedule and original
-              // can be removed here)
-            } else if (state->next_mode != state->current_mode &&
-                       event->trigger != NULL) { // History transition to a different mode
-              // Reschedule the event with the delay that remained when the mode was left (see below), which
-              // preserves the order of the events of the same trigger.
-              tag_t schedule_tag = lf_tag_add(env->current_tag, event->base.tag);
-
-              LF_PRINT_DEBUG("Modes: Re-enqueuing event with a suspended delay of " PRINTF_TIME
-                             " (Mode suspended at: " PRINTF_TIME ").",
-                             event->base.tag.time, state->next_mode->deactivation_time);
-              _lf_schedule_at_tag(env, event->trigger, schedule_tag, event->token);
+            if (event->trigger->is_timer) { // Only reset timers
+              trigger_t* timer = event->trigger;
+
+              LF_PRINT_DEBUG("Modes: Re-enqueuing reset timer.");
+              // Reschedule the timer with no additional delay.
+              // This will take care of super dense time when offset is 0.
+              lf_schedule_trigger(env, timer, event->trigger->offset, NULL);
             }
-            // A fresh event was created by schedule (with its own reference to the token), hence, recycle old one
+            // The timer event was recreated by schedule and all other events are dropped
             _lf_done_using(event->token);
             lf_recycle_event(env, event);
 
@@ -439,11 +426,6 @@ void _lf_process_mode_changes(environment_t* env, reactor_mode_state_t* states[]
           // Apply transition
           state->current_mode = state->next_mode;
 
-          // Trigger startup reactions if entered first time
-          if (!(state->current_mode->flags & _LF_MODE_FLAG_MASK_HAD_STARTUP)) {
-            state->current_mode->flags |= _LF_MODE_FLAG_MASK_NEEDS_STARTUP;
-          }
-
           // Trigger reset reactions
           if (state->mode_change == reset_transition) {
             state->current_mode->flags |= _LF_MODE_FLAG_MASK_NEEDS_RESET;
@@ -463,6 +445,11 @@ void _lf_process_mode_changes(environment_t* env, reactor_mode_state_t* states[]
           // then set active flag on active mode
           state->current_mode->flags |= _LF_MODE_FLAG_MASK_ACTIVE;
 
+          // Trigger startup reactions if active for the first time (possibly because the parent was entered)
+          if (!(state->current_mode->flags & _LF_MODE_FLAG_MASK_HAD_STARTUP)) {
+            state->current_mode->flags |= _LF_MODE_FLAG_MASK_NEEDS_STARTUP;
+          }
+
           // Register execution of special triggers
           // This is not done when setting the flag because actual triggering
           // might be delayed by parent mode inactivity.
@@ -505,6 +492,29 @@ void _lf_process_mode_changes(environment_t* env, reactor_mode_state_t* states[]
       }
     }
 
+    // Reactivate previously suspended events of all modes that are active now. This includes modes of reactors
+    // without a transition whose enclosing mode was entered.
+    _lf_suspended_event_t* suspended_event = _lf_suspended_events_head;
+    while (suspended_event != NULL) {
+      event_t* event = suspended_event->event;
+      if (event != NULL && event->trigger != NULL && _lf_mode_is_active(event->trigger->mode)) {
+        // Reschedule the event with the delay that remained when the mode was left, which preserves the order of the
+        // events of the same trigger.
+        tag_t schedule_tag = lf_tag_add(env->current_tag, event->base.tag);
+        LF_PRINT_DEBUG("Modes: Re-enqueuing event with a suspended delay of " PRINTF_TIME ".", event->base.tag.time);
+        _lf_schedule_at_tag(env, event->trigger, schedule_tag, event->token);
+
+        // A fresh event was created by schedule (with its own reference to the token), hence, recycle old one
+        _lf_done_using(event->token);
+        lf_recycle_event(env, event);
+
+        // Remove suspended event and continue
+        suspended_event = _lf_remove_suspended_event(suspended_event);
+      } else {
+        suspended_event = suspended_event->next;
+      }
+    }
+
     if (env->modes->triggered_reactions_request) {
       // Insert a dummy event in the event queue for the next microstep to make
       // sure startup/reset reactions (if any) are triggered as soon as possible.
-- 
2.43.0


From b0434bee98a65c3513c56b2bc59b2223c28d1850 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:06:36 +0000
Subject: [PATCH 24/79] fix: restart each timer of a mode exactly once when the
 mode is reset

---
 core/modal_models/modes.c | 22 ++++++++--------------
 1 file changed, 8 insertions(+), 14 deletions(-)

diff --git a/core/modal_models/modes.c b/core/modal_models/modes.c
index b14c15f..a6a0c7d 100644
--- a/core/modal_models/modes.c
+++ b/core/modal_models/modes.c
@@ -367,13 +367,15 @@ void _lf_process_mode_changes(environment_t* env, reactor_mode_state_t* states[]
             }
           }
 
-          // Handle timers that have a period of 0. These timers will only trigger
-          // once and will not be on the event_q after their initial triggering.
-          // Therefore, the logic above cannot handle these timers. We need
-          // to trigger these timers manually if there is a reset transition.
+          // Restart the timers of the mode. There is not necessarily a suspended event for a timer: timers that have a
+          // period of 0 trigger only once, and events after the stop tag are never put on the event queue.
+          // The events of a mode that is active already (a mode that resets itself) are not suspended and remain on
+          // the event queue.
           for (int j = 0; j < timer_triggers_size; j++) {
             trigger_t* timer = timer_triggers[j];
-            if (timer->period == 0 && timer->mode == state->next_mode) {
+            if (timer->mode == state->next_mode && (timer->period == 0 || !_lf_mode_is_active(state->next_mode))) {
+              // Schedule the timer with no additional delay.
+              // This will take care of super dense time when offset is 0.
               lf_schedule_trigger(env, timer, timer->offset, NULL);
             }
           }
@@ -385,15 +387,7 @@ void _lf_process_mode_changes(environment_t* env, reactor_mode_state_t* states[]
         while (suspended_event != NULL && state->mode_change == reset_transition) {
           event_t* event = suspended_event->event;
           if (event != NULL && event->trigger != NULL && event->trigger->mode == state->next_mode) {
-            if (event->trigger->is_timer) { // Only reset timers
-              trigger_t* timer = event->trigger;
-
-              LF_PRINT_DEBUG("Modes: Re-enqueuing reset timer.");
-              // Reschedule the timer with no additional delay.
-              // This will take care of super dense time when offset is 0.
-              lf_schedule_trigger(env, timer, event->trigger->offset, NULL);
-            }
-            // The timer event was recreated by schedule and all other events are dropped
+            // All events of the mode are dropped (the timers have been restarted above)
             _lf_done_using(event->token);
             lf_recycle_event(env, event);
 
-- 
2.43.0


From a862af7854bc5efb692acbf83dd20dbb4f088cf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:08:21 +0000
Subject: [PATCH 25/79] fix: run the shutdown reactions of a mode that has its
 startup at the stop tag

---
 core/modal_models/modes.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/core/modal_models/modes.c b/core/modal_models/modes.c
index a6a0c7d..740ba7c 100644
--- a/core/modal_models/modes.c
+++ b/core/modal_models/modes.c
@@ -300,7 +300,9 @@ void _lf_handle_mode_shutdown_reactions(environment_t* env, reaction_t** shutdow
     for (int i = 0; i < shutdown_reactions_size; i++) {
       reaction_t* reaction = shutdown_reactions[i];
       if (reaction->mode != NULL) {
-        if (reaction->mode->flags & _LF_MODE_FLAG_MASK_HAD_STARTUP) { // if mode had startup
+        if ((reaction->mode->flags & _LF_MODE_FLAG_MASK_HAD_STARTUP) || // if mode had startup
+            (_lf_mode_is_active(reaction->mode) &&
+             (reaction->mode->flags & _LF_MODE_FLAG_MASK_NEEDS_STARTUP))) { // or has its startup at this (stop) tag
           // Release the reaction from its association with the mode.
           // This will effectively bypass the mode activity check.
           // This assumes that the reaction will never be trigger/used after shutdown.
-- 
2.43.0


From 0edec0f9986aa2d3b7f4be11101c39cb009c9656 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:46:38 +0000
Subject: [PATCH 26/79] fix: schedule an event at the first free microstep when
 its tag is taken more than once

---
 core/reactor_common.c | 24 +++++++++++++-----------
 1 file changed, 13 insertions(+), 11 deletions(-)

diff --git a/core/reactor_common.c b/core/reactor_common.c
index 3158ce6..c5b6571 100644
--- a/core/reactor_common.c
+++ b/core/reactor_common.c
@@ -539,17 +539,19 @@ trigger_handle_t _lf_schedule_at_tag(environment_t* env, trigger_t* trigger, tag
       return 0;
       break;
     default:
-      // Adding a microstep to the original
-      // intended tag.
-      tag.microstep++;
-      e->base.tag = tag;
-      if (lf_is_tag_after_stop_tag(env, (tag_t){.time = tag.time, .microstep = tag.microstep})) {
-        // Scheduling e will incur a microstep after the stop tag,
-        // which is illegal.
-        _lf_done_using(token);
-        lf_recycle_event(env, e);
-        return 0;
-      }
+      // Adding microsteps to the original intended tag
+      // until no event of this trigger has that tag.
+      do {
+        tag.microstep++;
+        e->base.tag = tag;
+        if (lf_is_tag_after_stop_tag(env, (tag_t){.time = tag.time, .microstep = tag.microstep})) {
+          // Scheduling e will incur a microstep after the stop tag,
+          // which is illegal.
+          _lf_done_using(token);
+          lf_recycle_event(env, e);
+          return 0;
+        }
+      } while (pqueue_tag_find_equal_same_tag(env->event_q, (pqueue_tag_element_t*)e) != NULL);
     }
   }
   pqueue_tag_insert(env->event_q, (pqueue_tag_element_t*)e);
-- 
2.43.0


From 8a5a383a8a8aca0ddf78435baff3f95f82963d0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:53:12 +0000
Subject: [PATCH 27/79] fix: do not report a tag past the start tag as the next
 event before the start tag is executed

---
 core/federated/federate.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/core/federated/federate.c b/core/federated/federate.c
index 9be45fd..0257b27 100644
--- a/core/federated/federate.c
+++ b/core/federated/federate.c
@@ -2373,6 +2373,9 @@ int lf_send_message(int message_type, unsigned short port, unsigned short federa
 
 tag_t lf_send_next_event_tag(environment_t* env, tag_t tag, bool wait_for_reply) {
   assert(env != GLOBAL_ENVIRONMENT);
+  // At the start, the reactions at the current tag have not been executed yet, and they are not on
+  // the event queue. In that case, the next tag is the current tag, whatever is on the event queue.
+  const bool current_tag_is_pending = lf_tag_compare(tag, env->current_tag) == 0;
   while (true) {
     if (!_fed.has_downstream && !_fed.has_upstream) {
       // This federate is not connected (except possibly by physical links)
@@ -2450,7 +2453,7 @@ tag_t lf_send_next_event_tag(environment_t* env, tag_t tag, bool wait_for_reply)
           lf_print_error("Wait error.");
         }
         // Check whether the new event on the event queue requires sending a new NET.
-        tag_t next_tag = get_next_event_tag(env);
+        tag_t next_tag = current_tag_is_pending ? env->current_tag : get_next_event_tag(env);
         if (lf_tag_compare(_fed.last_TAG, next_tag) >= 0 || lf_tag_compare(_fed.last_TAG, tag) >= 0) {
           return _fed.last_TAG;
         }
@@ -2500,7 +2503,7 @@ tag_t lf_send_next_event_tag(environment_t* env, tag_t tag, bool wait_for_reply)
     // put onto the event queue. In either case, we can just loop around.
     // The next iteration will determine whether another
     // NET should be sent or not.
-    tag = get_next_event_tag(env);
+    tag = current_tag_is_pending ? env->current_tag : get_next_event_tag(env);
   }
 }
 
-- 
2.43.0


From c3d8381c07792bcf3ab3cf57cbdeed76fee3aeb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:00:32 +0000
Subject: [PATCH 28/79] fix: let a node report at a provisionally granted tag
 as soon as it can be granted that tag

---
 core/federated/RTI/rti_common.c | 28 +++++++++++++++++++++++++++-
 1 file changed, 27 insertions(+), 1 deletion(-)

diff --git a/core/federated/RTI/rti_common.c b/core/federated/RTI/rti_common.c
index 3a1b16f..76e5594 100644
--- a/core/federated/RTI/rti_common.c
+++ b/core/federated/RTI/rti_common.c
@@ -201,7 +201,9 @@ tag_advance_grant_t tag_advance_grant_if_safe(scheduling_node_t* e) {
   //  1) The EIMT is greater than the NET we want to advance to. Grant a TAG.
   //  2) The EIMT is equal to the NET and the strict EIMT is greater than the net
   //     and the federate is part of a zero-delay cycle (ZDC).  Grant a PTAG.
-  //  3) Otherwise, grant nothing and wait for further updates.
+  //  3) A downstream node has been granted a PTAG that is earlier than the NET, and this node
+  //     can by now be granted that tag. Grant it a TAG or PTAG, as appropriate.
+  //  4) Otherwise, grant nothing and wait for further updates.
 
   if (                                                           // Scenario (1) above
       lf_tag_compare(t_d, e->next_event) > 0                     // EIMT greater than NET
@@ -233,6 +235,30 @@ tag_advance_grant_t tag_advance_grant_if_safe(scheduling_node_t* e) {
                  e->next_event.microstep);
     result.tag = e->next_event;
     result.is_provisional = true;
+  } else { // Scenario (3) above
+    // A node that has been granted a PTAG needs this node to report its outputs (or their absence) at that tag.
+    // When the PTAG was granted, it may have been too early to let this node advance to that tag.
+    for (int i = 0; i < e->num_downstream; i++) {
+      scheduling_node_t* downstream = rti_common->scheduling_nodes[e->downstream[i]];
+      tag_t ptag = downstream->last_provisionally_granted;
+      if (downstream->state == NOT_CONNECTED                         // Not waiting any more
+          || lf_tag_compare(ptag, downstream->last_granted) <= 0     // The PTAG has been overridden
+          || lf_tag_compare(ptag, downstream->completed) <= 0        // or is completed.
+          || lf_tag_compare(ptag, e->next_event) >= 0                // Handled by scenarios (1) and (2)
+          || lf_tag_compare(ptag, e->last_granted) <= 0              // The grant is redundant.
+          || (lf_tag_compare(result.tag, NEVER_TAG) != 0             // An earlier one has been found.
+              && lf_tag_compare(result.tag, ptag) <= 0)) {
+        continue;
+      }
+      if (lf_tag_compare(t_d, ptag) > 0) {
+        result.tag = ptag;
+        result.is_provisional = false;
+      } else if (lf_tag_compare(t_d, ptag) == 0 && is_in_zero_delay_cycle(e) && lf_tag_compare(t_d_strict, ptag) > 0 &&
+                 lf_tag_compare(ptag, e->last_provisionally_granted) > 0) {
+        result.tag = ptag;
+        result.is_provisional = true;
+      }
+    }
   }
   return result;
 }
-- 
2.43.0


From 37c24fa6d57e1070a13f4e56be3bb04e102e40cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:01:13 +0000
Subject: [PATCH 29/79] fix: do not take a late port absent message for the
 absence of the port at the current tag

---
 core/federated/federate.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/core/federated/federate.c b/core/federated/federate.c
index 0257b27..4f4dd0e 100644
--- a/core/federated/federate.c
+++ b/core/federated/federate.c
@@ -725,7 +725,10 @@ static int handle_port_absent_message(int* socket, int fed_id) {
   _lf_get_environments(&env);
 
   LF_MUTEX_LOCK(&env->mutex);
-  update_last_known_status_on_input_port(env, intended_tag, port_id);
+  // If the message is late, then it says nothing about the status of the port at the current tag.
+  if (lf_tag_compare(intended_tag, env->current_tag) >= 0) {
+    update_last_known_status_on_input_port(env, intended_tag, port_id);
+  }
   LF_MUTEX_UNLOCK(&env->mutex);
 
   return 0;
-- 
2.43.0


From a6ef9649735daf2d6c10af9a38ecb5152dd1d49d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:57:52 +0000
Subject: [PATCH 30/79] fix: grant a provisional tag advance only to federates
 in a zero-delay cycle

---
 core/federated/RTI/rti_remote.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/core/federated/RTI/rti_remote.c b/core/federated/RTI/rti_remote.c
index 3daaeff..a9510cc 100644
--- a/core/federated/RTI/rti_remote.c
+++ b/core/federated/RTI/rti_remote.c
@@ -265,7 +265,10 @@ void notify_provisional_tag_advance_grant(scheduling_node_t* e, tag_t tag) {
       // in which case, another will not be sent. But it may not have been already granted.
       if (lf_tag_compare(earliest, tag) > 0) {
         notify_tag_advance_grant(upstream, tag);
-      } else if (lf_tag_compare(earliest, tag) == 0 && lf_tag_compare(strict_earliest, tag) > 0) {
+      } else if (lf_tag_compare(earliest, tag) == 0 && is_in_zero_delay_cycle(upstream) &&
+                 lf_tag_compare(strict_earliest, tag) > 0) {
+        // Only a federate in a zero-delay cycle can get a PTAG. Any other federate has to wait for a TAG because,
+        // with a PTAG, it would not send the NET that the federates downstream of it are waiting for.
         notify_provisional_tag_advance_grant(upstream, tag);
       }
     }
-- 
2.43.0


From db79ab34f97ef0a1613166fca5d7392e7ddfd3b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:09:38 +0000
Subject: [PATCH 31/79] fix: report at a granted tag that precedes the next
 event in a zero-delay cycle

---
 core/federated/federate.c | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/core/federated/federate.c b/core/federated/federate.c
index 4f4dd0e..1f8e068 100644
--- a/core/federated/federate.c
+++ b/core/federated/federate.c
@@ -1067,6 +1067,15 @@ static void handle_tag_advance_grant(void) {
                    TAG.time - start_time, TAG.microstep, _fed.last_TAG.time - start_time, _fed.last_TAG.microstep);
     return;
   }
+
+  // If this federate is in a zero-delay cycle, then other federates may have a PTAG for this tag and
+  // be waiting for the outputs of this federate or their absence. If there is no event, create one.
+  if (_lf_zero_delay_cycle_action_table_size > 0 && TAG.time != FOREVER &&
+      lf_tag_compare(env->current_tag, TAG) < 0 && lf_tag_compare(TAG, get_next_event_tag(env)) < 0) {
+    event_t* dummy = _lf_create_dummy_events(env, TAG);
+    pqueue_tag_insert(env->event_q, (pqueue_tag_element_t*)dummy);
+  }
+
   // Notify everything that is blocked.
   lf_cond_broadcast(&env->event_q_changed);
 
-- 
2.43.0


From f0b7495d927c9117c0ef3a5922155cb3eae20324 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:12:13 +0000
Subject: [PATCH 32/79] fix: consider the delayed messages of federates in
 zero-delay cycles when granting a PTAG

---
 core/federated/RTI/rti_common.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/core/federated/RTI/rti_common.c b/core/federated/RTI/rti_common.c
index 76e5594..b66bc2e 100644
--- a/core/federated/RTI/rti_common.c
+++ b/core/federated/RTI/rti_common.c
@@ -127,8 +127,9 @@ tag_t eimt_strict(scheduling_node_t* e) {
   tag_t t_d = FOREVER_TAG;
   for (int i = 0; i < e->num_upstream; i++) {
     scheduling_node_t* upstream = rti_common->scheduling_nodes[e->upstream[i]];
-    // Skip this node if it is part of a zero-delay cycle.
-    if (is_in_zero_delay_cycle(upstream))
+    // Skip this node if it is part of a zero-delay cycle, unless its messages are delayed. After a PTAG, a
+    // federate waits only for the messages of connections without delay.
+    if (is_in_zero_delay_cycle(upstream) && e->upstream_delay[i] < 0)
       continue;
     // If we haven't heard from the upstream node, then assume it can send an event at the start time.
     if (lf_tag_compare(upstream->next_event, NEVER_TAG) == 0) {
-- 
2.43.0


From d5432673ea84fe918344e2591a226ba5f38de1f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:19:29 +0000
Subject: [PATCH 33/79] fix: do not wait for a stop reply from a federate that
 has left the federation

---
 core/federated/RTI/rti_remote.c | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/core/federated/RTI/rti_remote.c b/core/federated/RTI/rti_remote.c
index a9510cc..c7007c4 100644
--- a/core/federated/RTI/rti_remote.c
+++ b/core/federated/RTI/rti_remote.c
@@ -1009,6 +1009,11 @@ static void handle_federate_failed(federate_info_t* my_fed) {
   // We can now safely close the socket.
   close(my_fed->socket); //  from unistd.h
 
+  // A federate that has left will not reply to a stop request that is in progress.
+  if (rti_remote->stop_in_progress) {
+    mark_federate_requesting_stop(my_fed);
+  }
+
   // Check downstream federates to see whether they should now be granted a TAG.
   // To handle cycles, need to create a boolean array to keep
   // track of which upstream federates have been visited.
@@ -1062,6 +1067,11 @@ static void handle_federate_resign(federate_info_t* my_fed) {
   // We can now safely close the socket.
   close(my_fed->socket); //  from unistd.h
 
+  // A federate that has left will not reply to a stop request that is in progress.
+  if (rti_remote->stop_in_progress) {
+    mark_federate_requesting_stop(my_fed);
+  }
+
   // Check downstream federates to see whether they should now be granted a TAG.
   // To handle cycles, need to create a boolean array to keep
   // track of which upstream federates have been visited.
-- 
2.43.0


From ebd069cad40145f8905382cde9f833c5267ca47c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:25:39 +0000
Subject: [PATCH 34/79] fix: request a new tag advance grant for the stop tag
 once it has been agreed on

---
 core/federated/RTI/rti_remote.c  | 32 ++++++++++++++++++++++++++------
 core/federated/federate.c        | 19 +++++++++++++++++++
 core/threaded/reactor_threaded.c |  9 +++++++++
 3 files changed, 54 insertions(+), 6 deletions(-)

diff --git a/core/federated/RTI/rti_remote.c b/core/federated/RTI/rti_remote.c
index c7007c4..09469ee 100644
--- a/core/federated/RTI/rti_remote.c
+++ b/core/federated/RTI/rti_remote.c
@@ -498,6 +498,12 @@ void handle_latest_tag_confirmed(federate_info_t* fed) {
   LF_MUTEX_UNLOCK(&rti_mutex);
 }
 
+/**
+ * Boolean used to prevent the RTI from sending the
+ * MSG_TYPE_STOP_GRANTED message multiple times.
+ */
+bool stop_granted_already_sent_to_federates = false;
+
 void handle_next_event_tag(federate_info_t* fed) {
   unsigned char buffer[sizeof(int64_t) + sizeof(uint32_t)];
   read_from_socket_fail_on_error(&fed->socket, sizeof(int64_t) + sizeof(uint32_t), buffer, NULL,
@@ -515,18 +521,16 @@ void handle_next_event_tag(federate_info_t* fed) {
   }
   LF_PRINT_LOG("RTI received from federate %d the Next Event Tag (NET) " PRINTF_TAG, fed->enclave.id,
                intended_tag.time - start_time, intended_tag.microstep);
+  // Once the stop tag has been granted, a federate has an event at the stop tag until it resigns.
+  if (stop_granted_already_sent_to_federates && lf_tag_compare(intended_tag, rti_remote->base.max_stop_tag) > 0) {
+    intended_tag = rti_remote->base.max_stop_tag;
+  }
   update_federate_next_event_tag_locked(fed->enclave.id, intended_tag);
   LF_MUTEX_UNLOCK(&rti_mutex);
 }
 
 /////////////////// STOP functions ////////////////////
 
-/**
- * Boolean used to prevent the RTI from sending the
- * MSG_TYPE_STOP_GRANTED message multiple times.
- */
-bool stop_granted_already_sent_to_federates = false;
-
 /**
  * Once the RTI has seen proposed tags from all connected federates,
  * it will broadcast a MSG_TYPE_STOP_GRANTED carrying the _RTI.max_stop_tag.
@@ -545,6 +549,12 @@ static void broadcast_stop_time_to_federates_locked() {
   unsigned char outgoing_buffer[MSG_TYPE_STOP_GRANTED_LENGTH];
   ENCODE_STOP_GRANTED(outgoing_buffer, rti_remote->base.max_stop_tag.time, rti_remote->base.max_stop_tag.microstep);
 
+  // Grants for the stop tag or later tags do not account for the events at the stop tag of upstream federates.
+  tag_t last_valid_tag = rti_remote->base.max_stop_tag;
+  if (last_valid_tag.microstep-- == 0) { // Wraps around to the maximum microstep.
+    last_valid_tag.time--;
+  }
+
   // Iterate over federates and send each the message.
   for (int i = 0; i < rti_remote->base.number_of_scheduling_nodes; i++) {
     federate_info_t* fed = GET_FED_INFO(i);
@@ -555,12 +565,22 @@ static void broadcast_stop_time_to_federates_locked() {
       // Need the next_event to be no greater than the stop tag.
       fed->enclave.next_event = rti_remote->base.max_stop_tag;
     }
+    // Federates need a new grant to advance to the stop tag.
+    if (lf_tag_compare(fed->enclave.last_granted, last_valid_tag) > 0) {
+      fed->enclave.last_granted = last_valid_tag;
+    }
+    if (lf_tag_compare(fed->enclave.last_provisionally_granted, last_valid_tag) > 0) {
+      fed->enclave.last_provisionally_granted = last_valid_tag;
+    }
     if (rti_remote->base.tracing_enabled) {
       tracepoint_rti_to_federate(send_STOP_GRN, fed->enclave.id, &rti_remote->base.max_stop_tag);
     }
     write_to_socket_fail_on_error(&fed->socket, MSG_TYPE_STOP_GRANTED_LENGTH, outgoing_buffer, &rti_mutex,
                                   "RTI failed to send MSG_TYPE_STOP_GRANTED message to federate %d.", fed->enclave.id);
   }
+  for (int i = 0; i < rti_remote->base.number_of_scheduling_nodes; i++) {
+    notify_advance_grant_if_safe(rti_remote->base.scheduling_nodes[i]);
+  }
 
   LF_PRINT_LOG("RTI sent to federates MSG_TYPE_STOP_GRANTED with tag " PRINTF_TAG,
                rti_remote->base.max_stop_tag.time - start_time, rti_remote->base.max_stop_tag.microstep);
diff --git a/core/federated/federate.c b/core/federated/federate.c
index 1f8e068..7c26e0c 100644
--- a/core/federated/federate.c
+++ b/core/federated/federate.c
@@ -1404,6 +1404,25 @@ static void handle_stop_granted_message() {
       received_stop_tag.microstep++;
     }
 
+#ifdef FEDERATED_CENTRALIZED
+    // A tag may have been granted before the upstream federates had events at the stop tag. This
+    // federate can therefore only rely on grants for tags earlier than the stop tag. The RTI will
+    // send another grant.
+    tag_t last_valid_tag = received_stop_tag;
+    if (last_valid_tag.microstep-- == 0) { // Wraps around to the maximum microstep.
+      last_valid_tag.time--;
+    }
+    if (lf_tag_compare(_fed.last_TAG, last_valid_tag) > 0) {
+      _fed.last_TAG = last_valid_tag;
+      _fed.is_last_TAG_provisional = false;
+    }
+    for (size_t j = 0; j < _lf_action_table_size; j++) {
+      if (lf_tag_compare(_lf_action_table[j]->trigger->last_known_status_tag, last_valid_tag) > 0) {
+        _lf_action_table[j]->trigger->last_known_status_tag = last_valid_tag;
+      }
+    }
+#endif // FEDERATED_CENTRALIZED
+
     lf_set_stop_tag(&env[i], received_stop_tag);
     LF_PRINT_DEBUG("Setting the stop tag to " PRINTF_TAG ".", env[i].stop_tag.time - start_time,
                    env[i].stop_tag.microstep);
diff --git a/core/threaded/reactor_threaded.c b/core/threaded/reactor_threaded.c
index 5d6a1b3..868b79e 100644
--- a/core/threaded/reactor_threaded.c
+++ b/core/threaded/reactor_threaded.c
@@ -442,6 +442,15 @@ void _lf_next_locked(environment_t* env) {
     next_tag = get_next_event_tag(env);
   }
 
+#if defined FEDERATED_CENTRALIZED
+  // While waiting, a stop tag may have been agreed on. This invalidates grants for the stop tag and later tags.
+  // Return to request a new grant.
+  extern federate_instance_t _fed;
+  if (_fed.has_upstream && lf_tag_compare(_fed.last_TAG, next_tag) < 0) {
+    return;
+  }
+#endif // FEDERATED_CENTRALIZED
+
   // If the first event in the event queue has a tag greater than or equal to the
   // stop time, and the current tag matches the stop tag (meaning that we have already
   // executed microstep 0 at the timeout time), then we are done. The above code prevents the next_tag
-- 
2.43.0


From dc73e864ed86092c39d3547808887d1e642c8d0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:28:24 +0000
Subject: [PATCH 35/79] fix: do not fail when the stop reply of a federate that
 has resigned cannot be sent

---
 core/federated/federate.c | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/core/federated/federate.c b/core/federated/federate.c
index 7c26e0c..9347853 100644
--- a/core/federated/federate.c
+++ b/core/federated/federate.c
@@ -1513,9 +1513,10 @@ static void handle_stop_request_message() {
 
   // Send the current logical time to the RTI.
   LF_MUTEX_LOCK(&lf_outbound_socket_mutex);
-  write_to_socket_fail_on_error(&_fed.socket_TCP_RTI, MSG_TYPE_STOP_REQUEST_REPLY_LENGTH, outgoing_buffer,
-                                &lf_outbound_socket_mutex,
-                                "Failed to send the answer to MSG_TYPE_STOP_REQUEST to RTI.");
+  // If this federate has already resigned, then the RTI does not wait for the answer and may be gone.
+  if (write_to_socket(_fed.socket_TCP_RTI, MSG_TYPE_STOP_REQUEST_REPLY_LENGTH, outgoing_buffer)) {
+    lf_print_warning("Failed to send the answer to MSG_TYPE_STOP_REQUEST to RTI.");
+  }
   LF_MUTEX_UNLOCK(&lf_outbound_socket_mutex);
 
   LF_PRINT_DEBUG("Sent MSG_TYPE_STOP_REQUEST_REPLY to RTI with tag " PRINTF_TAG, tag_to_stop.time,
-- 
2.43.0


From 1bede60e9365f46eec8cc5296ff238a7759be310 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:31:35 +0000
Subject: [PATCH 36/79] fix: do not forward a stop request to a federate before
 its start time

---
 core/federated/RTI/rti_remote.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/core/federated/RTI/rti_remote.c b/core/federated/RTI/rti_remote.c
index 09469ee..cb41a9c 100644
--- a/core/federated/RTI/rti_remote.c
+++ b/core/federated/RTI/rti_remote.c
@@ -695,6 +695,12 @@ void handle_stop_request_message(federate_info_t* fed) {
         mark_federate_requesting_stop(f);
         continue;
       }
+      // Need to make sure that the destination federate's thread has already
+      // sent the starting MSG_TYPE_TIMESTAMP message.
+      while (f->enclave.state == PENDING) {
+        // Need to wait here.
+        lf_cond_wait(&sent_start_time);
+      }
       if (rti_remote->base.tracing_enabled) {
         tracepoint_rti_to_federate(send_STOP_REQ, f->enclave.id, &rti_remote->base.max_stop_tag);
       }
-- 
2.43.0


From 4d2d3ac59c7c6cdfb49a5bcbdf0575581099892f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:31:46 +0000
Subject: [PATCH 37/79] fix: join only the listener threads that have been
 created when terminating early

---
 core/federated/federate.c | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/core/federated/federate.c b/core/federated/federate.c
index 9347853..b4829cd 100644
--- a/core/federated/federate.c
+++ b/core/federated/federate.c
@@ -91,6 +91,12 @@ federate_instance_t _fed = {.socket_TCP_RTI = -1,
                             .last_sent_NET = {.time = NEVER, .microstep = 0u},
                             .min_delay_from_physical_action_to_federate_output = NEVER};
 
+/** Whether the thread that listens for messages from the RTI has been created. */
+static bool rti_socket_listener_created = false;
+
+/** The number of threads in _fed.inbound_socket_listeners that have been created. */
+static size_t number_of_inbound_socket_listeners = 0;
+
 federation_metadata_t federation_metadata = {
     .federation_id = "Unidentified Federation", .rti_host = NULL, .rti_port = -1, .rti_user = NULL};
 
@@ -1744,15 +1750,17 @@ void lf_terminate_execution(environment_t* env) {
   if (_fed.number_of_inbound_p2p_connections > 0 && _fed.inbound_socket_listeners != NULL) {
     LF_PRINT_LOG("Waiting for %zu threads listening for incoming messages to exit.",
                  _fed.number_of_inbound_p2p_connections);
-    for (size_t i = 0; i < _fed.number_of_inbound_p2p_connections; i++) {
+    for (size_t i = 0; i < number_of_inbound_socket_listeners; i++) {
       // Ignoring errors here.
       lf_thread_join(_fed.inbound_socket_listeners[i], NULL);
     }
   }
 
   LF_PRINT_DEBUG("Waiting for RTI's socket listener threads.");
-  // Wait for the thread listening for messages from the RTI to close.
-  lf_thread_join(_fed.RTI_socket_listener, NULL);
+  // Wait for the thread listening for messages from the RTI to close, if there is one already.
+  if (rti_socket_listener_created) {
+    lf_thread_join(_fed.RTI_socket_listener, NULL);
+  }
 
   // For abnormal termination, there is no need to free memory.
   if (_lf_normal_termination) {
@@ -2284,6 +2292,7 @@ void* lf_handle_p2p_connections_from_federates(void* env_arg) {
     }
 
     received_federates++;
+    number_of_inbound_socket_listeners = received_federates;
   }
 
   LF_PRINT_LOG("All %zu remote federates are connected.", _fed.number_of_inbound_p2p_connections);
@@ -2740,7 +2749,7 @@ void lf_synchronize_with_other_federates(void) {
   // @note Up until this point, the federate has been listening for messages
   //  from the RTI in a sequential manner in the main thread. From now on, a
   //  separate thread is created to allow for asynchronous communication.
-  lf_thread_create(&_fed.RTI_socket_listener, listen_to_rti_TCP, NULL);
+  rti_socket_listener_created = lf_thread_create(&_fed.RTI_socket_listener, listen_to_rti_TCP, NULL) == 0;
   lf_thread_t thread_id;
   if (create_clock_sync_thread(&thread_id)) {
     lf_print_warning("Failed to create thread to handle clock synchronization.");
-- 
2.43.0


From 899405ca033286beecc33b4658dedf9b3f06df38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:53:58 +0000
Subject: [PATCH 38/79] fix: recompute the cycles and minimum delays when a
 federate leaves

A federate that resigned or failed no longer has a connection, but the
upstream minimum delays and the zero-delay cycle flags computed before it
left kept it in the cycle, so that the remaining members were still granted
provisional tags and waited for port status from a federate that is gone.
---
 core/federated/RTI/rti_remote.c | 35 ++++++++++++++++++++++-----------
 1 file changed, 23 insertions(+), 12 deletions(-)

diff --git a/core/federated/RTI/rti_remote.c b/core/federated/RTI/rti_remote.c
index cb41a9c..c36f09d 100644
--- a/core/federated/RTI/rti_remote.c
+++ b/core/federated/RTI/rti_remote.c
@@ -1000,6 +1000,27 @@ void* clock_synchronization_thread(void* noargs) {
   return NULL;
 }
 
+/**
+ * Update the grants of the other federates after a federate has left the federation.
+ * Messages are no longer relayed by that federate, so the cycles that go through it no longer exist.
+ *
+ * This function assumes the caller holds the mutex.
+ *
+ * @param fed The federate that has left.
+ */
+static void notify_federates_of_departure_locked(federate_info_t* fed) {
+  for (int i = 0; i < rti_remote->base.number_of_scheduling_nodes; i++) {
+    invalidate_min_delays_upstream(rti_remote->base.scheduling_nodes[i]);
+  }
+
+  // Check downstream federates to see whether they should now be granted a TAG.
+  // To handle cycles, need to create a boolean array to keep
+  // track of which upstream federates have been visited.
+  bool* visited = (bool*)calloc(rti_remote->base.number_of_scheduling_nodes, sizeof(bool)); // Initializes to 0.
+  notify_downstream_advance_grant_if_safe(&(fed->enclave), visited);
+  free(visited);
+}
+
 /**
  * Handle MSG_TYPE_FAILED sent by a federate. This message is sent by a federate
  * that is exiting in failure.  In this case, the RTI will
@@ -1040,12 +1061,7 @@ static void handle_federate_failed(federate_info_t* my_fed) {
     mark_federate_requesting_stop(my_fed);
   }
 
-  // Check downstream federates to see whether they should now be granted a TAG.
-  // To handle cycles, need to create a boolean array to keep
-  // track of which upstream federates have been visited.
-  bool* visited = (bool*)calloc(rti_remote->base.number_of_scheduling_nodes, sizeof(bool)); // Initializes to 0.
-  notify_downstream_advance_grant_if_safe(&(my_fed->enclave), visited);
-  free(visited);
+  notify_federates_of_departure_locked(my_fed);
 
   LF_MUTEX_UNLOCK(&rti_mutex);
 }
@@ -1098,12 +1114,7 @@ static void handle_federate_resign(federate_info_t* my_fed) {
     mark_federate_requesting_stop(my_fed);
   }
 
-  // Check downstream federates to see whether they should now be granted a TAG.
-  // To handle cycles, need to create a boolean array to keep
-  // track of which upstream federates have been visited.
-  bool* visited = (bool*)calloc(rti_remote->base.number_of_scheduling_nodes, sizeof(bool)); // Initializes to 0.
-  notify_downstream_advance_grant_if_safe(&(my_fed->enclave), visited);
-  free(visited);
+  notify_federates_of_departure_locked(my_fed);
 
   LF_MUTEX_UNLOCK(&rti_mutex);
 }
-- 
2.43.0


From 9bda11abb94b7121f057017330d24ef97313be11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:55:24 +0000
Subject: [PATCH 39/79] fix: do not wait for a federate whose connection is
 lost

When the connection to a federate ended without a resignation, the RTI only
marked it as not connected. Its last next event tag kept holding back the
grants of the federates downstream of it, a stop request in progress waited
for its reply until the RTI exited, and threads waiting for it to start were
never woken up.
---
 core/federated/RTI/rti_remote.c | 48 +++++++++++++++++++++++++--------
 1 file changed, 37 insertions(+), 11 deletions(-)

diff --git a/core/federated/RTI/rti_remote.c b/core/federated/RTI/rti_remote.c
index c36f09d..97232cd 100644
--- a/core/federated/RTI/rti_remote.c
+++ b/core/federated/RTI/rti_remote.c
@@ -1119,6 +1119,40 @@ static void handle_federate_resign(federate_info_t* my_fed) {
   LF_MUTEX_UNLOCK(&rti_mutex);
 }
 
+/**
+ * Handle the loss of the connection to a federate that has neither resigned nor reported a failure.
+ * Nothing more will be heard from this federate, so the others no longer wait for it.
+ *
+ * This function assumes the caller does not hold the mutex.
+ *
+ * @param my_fed The federate whose connection is lost.
+ */
+static void handle_federate_lost(federate_info_t* my_fed) {
+  // The mutex also prevents multiple threads from closing the same socket at the same time.
+  LF_MUTEX_LOCK(&rti_mutex);
+
+  my_fed->enclave.state = NOT_CONNECTED;
+
+  // Indicate that there will no further events from this federate.
+  my_fed->enclave.next_event = FOREVER_TAG;
+
+  shutdown(my_fed->socket, SHUT_RDWR);
+  close(my_fed->socket); //  from unistd.h
+  my_fed->socket = -1;
+
+  // Other threads may be waiting for this federate to start.
+  lf_cond_broadcast(&sent_start_time);
+
+  // A federate that has left will not reply to a stop request that is in progress.
+  if (rti_remote->stop_in_progress) {
+    mark_federate_requesting_stop(my_fed);
+  }
+
+  notify_federates_of_departure_locked(my_fed);
+
+  LF_MUTEX_UNLOCK(&rti_mutex);
+}
+
 void* federate_info_thread_TCP(void* fed) {
   initialize_lf_thread_id();
   federate_info_t* my_fed = (federate_info_t*)fed;
@@ -1129,16 +1163,14 @@ void* federate_info_thread_TCP(void* fed) {
   unsigned char buffer[FED_COM_BUFFER_SIZE];
 
   // Listen for messages from the federate.
-  while (my_fed->enclave.state != NOT_CONNECTED) {
+  while (true) {
     // Read no more than one byte to get the message type.
     int read_failed = read_from_socket(my_fed->socket, 1, buffer);
     if (read_failed) {
       // Socket is closed
       lf_print_error("RTI: Socket to federate %d is closed. Exiting the thread.", my_fed->enclave.id);
-      my_fed->enclave.state = NOT_CONNECTED;
-      my_fed->socket = -1;
-      // FIXME: We need better error handling here, but do not stop execution here.
-      break;
+      handle_federate_lost(my_fed);
+      return NULL;
     }
     LF_PRINT_DEBUG("RTI: Received message type %u from federate %d.", buffer[0], my_fed->enclave.id);
     switch (buffer[0]) {
@@ -1186,12 +1218,6 @@ void* federate_info_thread_TCP(void* fed) {
       }
     }
   }
-
-  // Nothing more to do. Close the socket and exit.
-  // Prevent multiple threads from closing the same socket at the same time.
-  LF_MUTEX_LOCK(&rti_mutex);
-  close(my_fed->socket); //  from unistd.h
-  LF_MUTEX_UNLOCK(&rti_mutex);
   return NULL;
 }
 
-- 
2.43.0


From 5649b8ef1e43eb6b3c6459d114d3aa3ab06b57ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:55:24 +0000
Subject: [PATCH 40/79] fix: do not exit the RTI when a federate is lost in the
 middle of a message

The end of the connection to one federate while the RTI was reading the body
of a message terminated the RTI, and with it the federation.
---
 core/federated/RTI/rti_remote.c | 79 ++++++++++++++++++++++-----------
 1 file changed, 52 insertions(+), 27 deletions(-)

diff --git a/core/federated/RTI/rti_remote.c b/core/federated/RTI/rti_remote.c
index 97232cd..63be9e4 100644
--- a/core/federated/RTI/rti_remote.c
+++ b/core/federated/RTI/rti_remote.c
@@ -178,6 +178,25 @@ static int create_rti_server(uint16_t port, socket_type_t socket_type) {
   return socket_descriptor;
 }
 
+/**
+ * Read from the socket of a federate.
+ * A failure means that the connection to this federate is lost. It is not fatal for the RTI: the caller is
+ * expected to return to federate_info_thread_TCP(), which handles the loss.
+ *
+ * @param fed The federate to read from.
+ * @param num_bytes The number of bytes to read.
+ * @param buffer The buffer into which to read.
+ * @param description What is read, for error reports.
+ * @return 0 if the bytes have been read and nonzero otherwise.
+ */
+static int read_from_federate(federate_info_t* fed, size_t num_bytes, unsigned char* buffer, const char* description) {
+  if (read_from_socket(fed->socket, num_bytes, buffer)) {
+    lf_print_error("RTI failed to read the %s from federate %d.", description, fed->enclave.id);
+    return -1;
+  }
+  return 0;
+}
+
 void notify_tag_advance_grant(scheduling_node_t* e, tag_t tag) {
   if (e->state == NOT_CONNECTED || lf_tag_compare(tag, e->last_granted) <= 0 ||
       lf_tag_compare(tag, e->last_provisionally_granted) < 0) {
@@ -287,9 +306,9 @@ void update_federate_next_event_tag_locked(uint16_t federate_id, tag_t next_even
 void handle_port_absent_message(federate_info_t* sending_federate, unsigned char* buffer) {
   size_t message_size = sizeof(uint16_t) + sizeof(uint16_t) + sizeof(int64_t) + sizeof(uint32_t);
 
-  read_from_socket_fail_on_error(&sending_federate->socket, message_size, &(buffer[1]), NULL,
-                                 " RTI failed to read port absent message from federate %u.",
-                                 sending_federate->enclave.id);
+  if (read_from_federate(sending_federate, message_size, &(buffer[1]), "port absent message")) {
+    return;
+  }
 
   uint16_t reactor_port_id = extract_uint16(&(buffer[1]));
   uint16_t federate_id = extract_uint16(&(buffer[1 + sizeof(uint16_t)]));
@@ -345,8 +364,9 @@ void handle_port_absent_message(federate_info_t* sending_federate, unsigned char
 void handle_timed_message(federate_info_t* sending_federate, unsigned char* buffer) {
   size_t header_size = 1 + sizeof(uint16_t) + sizeof(uint16_t) + sizeof(uint32_t) + sizeof(int64_t) + sizeof(uint32_t);
   // Read the header, minus the first byte which has already been read.
-  read_from_socket_fail_on_error(&sending_federate->socket, header_size - 1, &(buffer[1]), NULL,
-                                 "RTI failed to read the timed message header from remote federate.");
+  if (read_from_federate(sending_federate, header_size - 1, &(buffer[1]), "timed message header")) {
+    return;
+  }
   // Extract the header information. of the sender
   uint16_t reactor_port_id;
   uint16_t federate_id;
@@ -374,8 +394,9 @@ void handle_timed_message(federate_info_t* sending_federate, unsigned char* buff
                sending_federate->enclave.id, federate_id, reactor_port_id, intended_tag.time - lf_time_start(),
                intended_tag.microstep);
 
-  read_from_socket_fail_on_error(&sending_federate->socket, bytes_to_read, &(buffer[header_size]), NULL,
-                                 "RTI failed to read timed message from federate %d.", federate_id);
+  if (read_from_federate(sending_federate, bytes_to_read, &(buffer[header_size]), "timed message")) {
+    return;
+  }
   size_t bytes_read = bytes_to_read + header_size;
   // Following only works for string messages.
   // LF_PRINT_DEBUG("Message received by RTI: %s.", buffer + header_size);
@@ -410,8 +431,9 @@ void handle_timed_message(federate_info_t* sending_federate, unsigned char* buff
       if (bytes_to_read > FED_COM_BUFFER_SIZE) {
         bytes_to_read = FED_COM_BUFFER_SIZE;
       }
-      read_from_socket_fail_on_error(&sending_federate->socket, bytes_to_read, buffer, NULL,
-                                     "RTI failed to clear message chunks.");
+      if (read_from_federate(sending_federate, bytes_to_read, buffer, "message chunks")) {
+        break;
+      }
       total_bytes_read += bytes_to_read;
     }
     LF_MUTEX_UNLOCK(&rti_mutex);
@@ -482,9 +504,9 @@ void handle_timed_message(federate_info_t* sending_federate, unsigned char* buff
 
 void handle_latest_tag_confirmed(federate_info_t* fed) {
   unsigned char buffer[sizeof(int64_t) + sizeof(uint32_t)];
-  read_from_socket_fail_on_error(&fed->socket, sizeof(int64_t) + sizeof(uint32_t), buffer, NULL,
-                                 "RTI failed to read the content of the logical tag complete from federate %d.",
-                                 fed->enclave.id);
+  if (read_from_federate(fed, sizeof(int64_t) + sizeof(uint32_t), buffer, "content of the logical tag complete")) {
+    return;
+  }
   tag_t completed = extract_tag(buffer);
   if (rti_remote->base.tracing_enabled) {
     tracepoint_rti_from_federate(receive_LTC, fed->enclave.id, &completed);
@@ -506,9 +528,9 @@ bool stop_granted_already_sent_to_federates = false;
 
 void handle_next_event_tag(federate_info_t* fed) {
   unsigned char buffer[sizeof(int64_t) + sizeof(uint32_t)];
-  read_from_socket_fail_on_error(&fed->socket, sizeof(int64_t) + sizeof(uint32_t), buffer, NULL,
-                                 "RTI failed to read the content of the next event tag from federate %d.",
-                                 fed->enclave.id);
+  if (read_from_federate(fed, sizeof(int64_t) + sizeof(uint32_t), buffer, "content of the next event tag")) {
+    return;
+  }
 
   // Acquire a mutex lock to ensure that this state does not change while a
   // message is in transport or being used to determine a TAG.
@@ -631,9 +653,9 @@ void handle_stop_request_message(federate_info_t* fed) {
 
   size_t bytes_to_read = MSG_TYPE_STOP_REQUEST_LENGTH - 1;
   unsigned char buffer[bytes_to_read];
-  read_from_socket_fail_on_error(&fed->socket, bytes_to_read, buffer, NULL,
-                                 "RTI failed to read the MSG_TYPE_STOP_REQUEST payload from federate %d.",
-                                 fed->enclave.id);
+  if (read_from_federate(fed, bytes_to_read, buffer, "MSG_TYPE_STOP_REQUEST payload")) {
+    return;
+  }
 
   // Extract the proposed stop tag for the federate
   tag_t proposed_stop_tag = extract_tag(buffer);
@@ -717,9 +739,9 @@ void handle_stop_request_message(federate_info_t* fed) {
 void handle_stop_request_reply(federate_info_t* fed) {
   size_t bytes_to_read = MSG_TYPE_STOP_REQUEST_REPLY_LENGTH - 1;
   unsigned char buffer_stop_time[bytes_to_read];
-  read_from_socket_fail_on_error(&fed->socket, bytes_to_read, buffer_stop_time, NULL,
-                                 "RTI failed to read the reply to MSG_TYPE_STOP_REQUEST message from federate %d.",
-                                 fed->enclave.id);
+  if (read_from_federate(fed, bytes_to_read, buffer_stop_time, "reply to the MSG_TYPE_STOP_REQUEST message")) {
+    return;
+  }
 
   tag_t federate_stop_tag = extract_tag(buffer_stop_time);
 
@@ -747,8 +769,9 @@ void handle_address_query(uint16_t fed_id) {
   // Use buffer both for reading and constructing the reply.
   // The length is what is needed for the reply.
   unsigned char buffer[1 + sizeof(int32_t)];
-  read_from_socket_fail_on_error(&fed->socket, sizeof(uint16_t), (unsigned char*)buffer, NULL,
-                                 "Failed to read address query.");
+  if (read_from_federate(fed, sizeof(uint16_t), buffer, "address query")) {
+    return;
+  }
   uint16_t remote_fed_id = extract_uint16(buffer);
 
   if (rti_remote->base.tracing_enabled) {
@@ -789,8 +812,9 @@ void handle_address_ad(uint16_t federate_id) {
   // connections to other federates
   int32_t server_port = -1;
   unsigned char buffer[sizeof(int32_t)];
-  read_from_socket_fail_on_error(&fed->socket, sizeof(int32_t), (unsigned char*)buffer, NULL,
-                                 "Error reading port data from federate %d.", federate_id);
+  if (read_from_federate(fed, sizeof(int32_t), buffer, "port data")) {
+    return;
+  }
 
   server_port = extract_int32(buffer);
 
@@ -809,8 +833,9 @@ void handle_address_ad(uint16_t federate_id) {
 void handle_timestamp(federate_info_t* my_fed) {
   unsigned char buffer[sizeof(int64_t)];
   // Read bytes from the socket. We need 8 bytes.
-  read_from_socket_fail_on_error(&my_fed->socket, sizeof(int64_t), (unsigned char*)&buffer, NULL,
-                                 "ERROR reading timestamp from federate %d.\n", my_fed->enclave.id);
+  if (read_from_federate(my_fed, sizeof(int64_t), buffer, "timestamp")) {
+    return;
+  }
 
   int64_t timestamp = swap_bytes_if_big_endian_int64(*((int64_t*)(&buffer)));
   if (rti_remote->base.tracing_enabled) {
-- 
2.43.0


From 2916c77511d65c7d2611e1376b10062d0f00859f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:55:24 +0000
Subject: [PATCH 41/79] fix: receive a message completely before forwarding it

Messages larger than the buffer of the RTI were forwarded in pieces while
they were being received. When the connection to the sender was lost in
between, the destination took whatever followed for the rest of the message.
---
 core/federated/RTI/rti_remote.c | 63 +++++++++------------------------
 1 file changed, 17 insertions(+), 46 deletions(-)

diff --git a/core/federated/RTI/rti_remote.c b/core/federated/RTI/rti_remote.c
index 63be9e4..51247eb 100644
--- a/core/federated/RTI/rti_remote.c
+++ b/core/federated/RTI/rti_remote.c
@@ -375,18 +375,14 @@ void handle_timed_message(federate_info_t* sending_federate, unsigned char* buff
   // Extract information from the header.
   extract_timed_header(&(buffer[1]), &reactor_port_id, &federate_id, &length, &intended_tag);
 
+  // Read the complete message before forwarding any of it. Otherwise, if the connection to the sending federate were
+  // lost in the middle of the message, the destination would take the messages that follow for the rest of it.
   size_t total_bytes_to_read = length + header_size;
-  size_t bytes_to_read = length;
-
-  if (FED_COM_BUFFER_SIZE < header_size + 1) {
-    lf_print_error_and_exit("Buffer size (%d) is not large enough to "
-                            "read the header plus one byte.",
-                            FED_COM_BUFFER_SIZE);
-  }
-
-  // Cut up the payload in chunks.
-  if (bytes_to_read > FED_COM_BUFFER_SIZE - header_size) {
-    bytes_to_read = FED_COM_BUFFER_SIZE - header_size;
+  unsigned char* message = buffer;
+  if (total_bytes_to_read > FED_COM_BUFFER_SIZE) {
+    message = (unsigned char*)malloc(total_bytes_to_read);
+    LF_ASSERT_NON_NULL(message);
+    memcpy(message, buffer, header_size);
   }
 
   LF_PRINT_LOG("RTI received message from federate %d for federate %u port %u with intended tag " PRINTF_TAG
@@ -394,10 +390,12 @@ void handle_timed_message(federate_info_t* sending_federate, unsigned char* buff
                sending_federate->enclave.id, federate_id, reactor_port_id, intended_tag.time - lf_time_start(),
                intended_tag.microstep);
 
-  if (read_from_federate(sending_federate, bytes_to_read, &(buffer[header_size]), "timed message")) {
+  if (read_from_federate(sending_federate, length, &(message[header_size]), "timed message")) {
+    if (message != buffer) {
+      free(message);
+    }
     return;
   }
-  size_t bytes_read = bytes_to_read + header_size;
   // Following only works for string messages.
   // LF_PRINT_DEBUG("Message received by RTI: %s.", buffer + header_size);
 
@@ -424,19 +422,10 @@ void handle_timed_message(federate_info_t* sending_federate, unsigned char* buff
                  fed->enclave.last_granted.time - start_time, fed->enclave.last_granted.microstep,
                  fed->enclave.last_provisionally_granted.time - start_time,
                  fed->enclave.last_provisionally_granted.microstep);
-    // If the message was larger than the buffer, we must empty out the remainder also.
-    size_t total_bytes_read = bytes_read;
-    while (total_bytes_read < total_bytes_to_read) {
-      bytes_to_read = total_bytes_to_read - total_bytes_read;
-      if (bytes_to_read > FED_COM_BUFFER_SIZE) {
-        bytes_to_read = FED_COM_BUFFER_SIZE;
-      }
-      if (read_from_federate(sending_federate, bytes_to_read, buffer, "message chunks")) {
-        break;
-      }
-      total_bytes_read += bytes_to_read;
-    }
     LF_MUTEX_UNLOCK(&rti_mutex);
+    if (message != buffer) {
+      free(message);
+    }
     return;
   }
 
@@ -454,28 +443,10 @@ void handle_timed_message(federate_info_t* sending_federate, unsigned char* buff
     tracepoint_rti_to_federate(send_TAGGED_MSG, federate_id, &intended_tag);
   }
 
-  write_to_socket_fail_on_error(&fed->socket, bytes_read, buffer, &rti_mutex,
+  write_to_socket_fail_on_error(&fed->socket, total_bytes_to_read, message, &rti_mutex,
                                 "RTI failed to forward message to federate %d.", federate_id);
-
-  // The message length may be longer than the buffer,
-  // in which case we have to handle it in chunks.
-  size_t total_bytes_read = bytes_read;
-  while (total_bytes_read < total_bytes_to_read) {
-    LF_PRINT_DEBUG("Forwarding message in chunks.");
-    bytes_to_read = total_bytes_to_read - total_bytes_read;
-    if (bytes_to_read > FED_COM_BUFFER_SIZE) {
-      bytes_to_read = FED_COM_BUFFER_SIZE;
-    }
-    read_from_socket_fail_on_error(&sending_federate->socket, bytes_to_read, buffer, NULL,
-                                   "RTI failed to read message chunks.");
-    total_bytes_read += bytes_to_read;
-
-    // FIXME: a mutex needs to be held for this so that other threads
-    // do not write to destination_socket and cause interleaving. However,
-    // holding the rti_mutex might be very expensive. Instead, each outgoing
-    // socket should probably have its own mutex.
-    write_to_socket_fail_on_error(&fed->socket, bytes_to_read, buffer, &rti_mutex,
-                                  "RTI failed to send message chunks.");
+  if (message != buffer) {
+    free(message);
   }
 
   // Record this in-transit message in federate's in-transit message queue.
-- 
2.43.0


From e7fd13151acaec3724ad01c3c72597c6c148a51f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:55:25 +0000
Subject: [PATCH 42/79] fix: do not exit the RTI when it cannot write to a lost
 federate

A write to a federate whose connection is lost, but whose loss has not been
handled yet, terminated the RTI, and with it the federation. When it was a
grant that could not be written, the federate was marked as not connected,
which made the thread listening to it leave without handling the loss.
---
 core/federated/RTI/rti_remote.c | 59 ++++++++++++++++++---------------
 1 file changed, 33 insertions(+), 26 deletions(-)

diff --git a/core/federated/RTI/rti_remote.c b/core/federated/RTI/rti_remote.c
index 51247eb..78edc55 100644
--- a/core/federated/RTI/rti_remote.c
+++ b/core/federated/RTI/rti_remote.c
@@ -197,6 +197,28 @@ static int read_from_federate(federate_info_t* fed, size_t num_bytes, unsigned c
   return 0;
 }
 
+/**
+ * Write to the socket of a federate.
+ * A failure means that the connection to this federate is lost. It is not fatal for the RTI: the thread that listens
+ * to the federate, federate_info_thread_TCP(), handles the loss.
+ *
+ * This function assumes the caller holds the rti_mutex lock.
+ *
+ * @param fed The federate to write to.
+ * @param num_bytes The number of bytes to write.
+ * @param buffer The bytes to write.
+ * @param description What is written, for error reports.
+ * @return 0 if the bytes have been written and nonzero otherwise.
+ */
+static int write_to_federate_locked(federate_info_t* fed, size_t num_bytes, unsigned char* buffer,
+                                    const char* description) {
+  if (write_to_socket(fed->socket, num_bytes, buffer)) {
+    lf_print_error("RTI failed to send the %s to federate %d.", description, fed->enclave.id);
+    return -1;
+  }
+  return 0;
+}
+
 void notify_tag_advance_grant(scheduling_node_t* e, tag_t tag) {
   if (e->state == NOT_CONNECTED || lf_tag_compare(tag, e->last_granted) <= 0 ||
       lf_tag_compare(tag, e->last_provisionally_granted) < 0) {
@@ -219,11 +241,8 @@ void notify_tag_advance_grant(scheduling_node_t* e, tag_t tag) {
   }
   // This function is called in notify_advance_grant_if_safe(), which is a long
   // function. During this call, the socket might close, causing the following write_to_socket
-  // to fail. Consider a failure here a soft failure and update the federate's status.
-  if (write_to_socket(((federate_info_t*)e)->socket, message_length, buffer)) {
-    lf_print_error("RTI failed to send tag advance grant to federate %d.", e->id);
-    e->state = NOT_CONNECTED;
-  } else {
+  // to fail. Consider a failure here a soft failure.
+  if (write_to_federate_locked((federate_info_t*)e, message_length, buffer, "tag advance grant") == 0) {
     e->last_granted = tag;
     LF_PRINT_LOG("RTI sent to federate %d the tag advance grant (TAG) " PRINTF_TAG ".", e->id, tag.time - start_time,
                  tag.microstep);
@@ -252,11 +271,8 @@ void notify_provisional_tag_advance_grant(scheduling_node_t* e, tag_t tag) {
   }
   // This function is called in notify_advance_grant_if_safe(), which is a long
   // function. During this call, the socket might close, causing the following write_to_socket
-  // to fail. Consider a failure here a soft failure and update the federate's status.
-  if (write_to_socket(((federate_info_t*)e)->socket, message_length, buffer)) {
-    lf_print_error("RTI failed to send tag advance grant to federate %d.", e->id);
-    e->state = NOT_CONNECTED;
-  } else {
+  // to fail. Consider a failure here a soft failure.
+  if (write_to_federate_locked((federate_info_t*)e, message_length, buffer, "tag advance grant") == 0) {
     e->last_provisionally_granted = tag;
     LF_PRINT_LOG("RTI sent to federate %d the Provisional Tag Advance Grant (PTAG) " PRINTF_TAG ".", e->id,
                  tag.time - start_time, tag.microstep);
@@ -355,8 +371,7 @@ void handle_port_absent_message(federate_info_t* sending_federate, unsigned char
   }
 
   // Forward the message.
-  write_to_socket_fail_on_error(&fed->socket, message_size + 1, buffer, &rti_mutex,
-                                "RTI failed to forward message to federate %d.", federate_id);
+  write_to_federate_locked(fed, message_size + 1, buffer, "port absent message");
 
   LF_MUTEX_UNLOCK(&rti_mutex);
 }
@@ -443,8 +458,7 @@ void handle_timed_message(federate_info_t* sending_federate, unsigned char* buff
     tracepoint_rti_to_federate(send_TAGGED_MSG, federate_id, &intended_tag);
   }
 
-  write_to_socket_fail_on_error(&fed->socket, total_bytes_to_read, message, &rti_mutex,
-                                "RTI failed to forward message to federate %d.", federate_id);
+  write_to_federate_locked(fed, total_bytes_to_read, message, "forwarded message");
   if (message != buffer) {
     free(message);
   }
@@ -568,8 +582,7 @@ static void broadcast_stop_time_to_federates_locked() {
     if (rti_remote->base.tracing_enabled) {
       tracepoint_rti_to_federate(send_STOP_GRN, fed->enclave.id, &rti_remote->base.max_stop_tag);
     }
-    write_to_socket_fail_on_error(&fed->socket, MSG_TYPE_STOP_GRANTED_LENGTH, outgoing_buffer, &rti_mutex,
-                                  "RTI failed to send MSG_TYPE_STOP_GRANTED message to federate %d.", fed->enclave.id);
+    write_to_federate_locked(fed, MSG_TYPE_STOP_GRANTED_LENGTH, outgoing_buffer, "MSG_TYPE_STOP_GRANTED message");
   }
   for (int i = 0; i < rti_remote->base.number_of_scheduling_nodes; i++) {
     notify_advance_grant_if_safe(rti_remote->base.scheduling_nodes[i]);
@@ -697,9 +710,7 @@ void handle_stop_request_message(federate_info_t* fed) {
       if (rti_remote->base.tracing_enabled) {
         tracepoint_rti_to_federate(send_STOP_REQ, f->enclave.id, &rti_remote->base.max_stop_tag);
       }
-      write_to_socket_fail_on_error(&f->socket, MSG_TYPE_STOP_REQUEST_LENGTH, stop_request_buffer, &rti_mutex,
-                                    "RTI failed to forward MSG_TYPE_STOP_REQUEST message to federate %d.",
-                                    f->enclave.id);
+      write_to_federate_locked(f, MSG_TYPE_STOP_REQUEST_LENGTH, stop_request_buffer, "MSG_TYPE_STOP_REQUEST message");
     }
   }
   LF_PRINT_LOG("RTI forwarded to federates MSG_TYPE_STOP_REQUEST with tag (" PRINTF_TIME ", %u).",
@@ -764,13 +775,10 @@ void handle_address_query(uint16_t fed_id) {
   // Send the port number (which could be -1).
   LF_MUTEX_LOCK(&rti_mutex);
   encode_int32(remote_fed->server_port, (unsigned char*)&buffer[1]);
-  write_to_socket_fail_on_error(&fed->socket, sizeof(int32_t) + 1, (unsigned char*)buffer, &rti_mutex,
-                                "Failed to write port number to socket of federate %d.", fed_id);
+  write_to_federate_locked(fed, sizeof(int32_t) + 1, buffer, "port number");
 
   // Send the server IP address to federate.
-  write_to_socket_fail_on_error(&fed->socket, sizeof(remote_fed->server_ip_addr),
-                                (unsigned char*)&remote_fed->server_ip_addr, &rti_mutex,
-                                "Failed to write ip address to socket of federate %d.", fed_id);
+  write_to_federate_locked(fed, sizeof(remote_fed->server_ip_addr), (unsigned char*)&remote_fed->server_ip_addr, "ip address");
   LF_MUTEX_UNLOCK(&rti_mutex);
 
   LF_PRINT_DEBUG("Replied to address query from federate %d with address %s:%d.", fed_id, remote_fed->server_hostname,
@@ -886,8 +894,7 @@ void send_physical_clock(unsigned char message_type, federate_info_t* fed, socke
   } else if (socket_type == TCP) {
     LF_PRINT_DEBUG("Clock sync:  RTI sending TCP message type %u.", buffer[0]);
     LF_MUTEX_LOCK(&rti_mutex);
-    write_to_socket_fail_on_error(&fed->socket, 1 + sizeof(int64_t), buffer, &rti_mutex,
-                                  "Clock sync: RTI failed to send physical time to federate %d.", fed->enclave.id);
+    write_to_federate_locked(fed, 1 + sizeof(int64_t), buffer, "physical time");
     LF_MUTEX_UNLOCK(&rti_mutex);
   }
   LF_PRINT_DEBUG("Clock sync: RTI sent PHYSICAL_TIME_SYNC_MESSAGE with timestamp " PRINTF_TIME " to federate %d.",
-- 
2.43.0


From eb0b26c5d921eeae196e14664159572add197b71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:08:18 +0000
Subject: [PATCH 43/79] fix: do not report a failure in the middle of a message

A federate that exits with an error while another worker is sending a message
wrote the failure report between the header and the payload of that message.
The destination received a corrupted payload, the RTI never saw the report,
and the federate and the RTI waited for each other forever.
---
 core/federated/federate.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/core/federated/federate.c b/core/federated/federate.c
index b4829cd..3e24bef 100644
--- a/core/federated/federate.c
+++ b/core/federated/federate.c
@@ -1550,8 +1550,11 @@ static void send_failed_signal() {
   size_t bytes_to_write = 1;
   unsigned char buffer[bytes_to_write];
   buffer[0] = MSG_TYPE_FAILED;
-  write_to_socket_fail_on_error(&_fed.socket_TCP_RTI, bytes_to_write, &(buffer[0]), NULL,
+  // Another thread may be in the middle of sending a message. This byte must not become part of that message.
+  LF_MUTEX_LOCK(&lf_outbound_socket_mutex);
+  write_to_socket_fail_on_error(&_fed.socket_TCP_RTI, bytes_to_write, &(buffer[0]), &lf_outbound_socket_mutex,
                                 "Failed to send MSG_TYPE_FAILED.");
+  LF_MUTEX_UNLOCK(&lf_outbound_socket_mutex);
   LF_PRINT_LOG("Failed.");
 }
 
@@ -1713,7 +1716,7 @@ void lf_terminate_execution(environment_t* env) {
   assert(env != GLOBAL_ENVIRONMENT);
 
   // For an abnormal termination (e.g. a SIGINT), we need to send a
-  // MSG_TYPE_FAILED message to the RTI, but we should not acquire a mutex.
+  // MSG_TYPE_FAILED message to the RTI.
   if (_fed.socket_TCP_RTI >= 0) {
     if (_lf_normal_termination) {
       tracepoint_federate_to_rti(send_RESIGN, _lf_my_fed_id, &env->current_tag);
-- 
2.43.0


From c1644f49a6985975f31d8b51570a1698ce46618e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:58:34 +0000
Subject: [PATCH 44/79] Allow TRACE_BUFFER_CAPACITY to be overridden at compile
 time

---
 trace/impl/include/trace_impl.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/trace/impl/include/trace_impl.h b/trace/impl/include/trace_impl.h
index 779a7be..da59bb9 100644
--- a/trace/impl/include/trace_impl.h
+++ b/trace/impl/include/trace_impl.h
@@ -1,7 +1,9 @@
 #include "trace.h"
 
 // FIXME: Target property should specify the capacity of the trace buffer.
+#ifndef TRACE_BUFFER_CAPACITY
 #define TRACE_BUFFER_CAPACITY 2048
+#endif
 
 /** Size of the table of trace objects. */
 #define TRACE_OBJECT_TABLE_SIZE 1024
-- 
2.43.0


From 0ddff23f23fac1295c7fddd4db36dc4c759ba04c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:58:34 +0000
Subject: [PATCH 45/79] fix: provide trace buffers for watchdog threads

---
 core/reactor_common.c       | 3 +++
 trace/impl/src/trace_impl.c | 2 +-
 2 files changed, 4 insertions(+), 1 deletion(-)

diff --git a/core/reactor_common.c b/core/reactor_common.c
index c5b6571..a6af55c 100644
--- a/core/reactor_common.c
+++ b/core/reactor_common.c
@@ -1118,6 +1118,9 @@ void initialize_global(void) {
   environment_t* envs;
   int num_envs = _lf_get_environments(&envs);
   int max_threads_tracing = envs[0].num_workers * num_envs + 1; // add 1 for the main thread
+  for (int i = 0; i < num_envs; i++) {
+    max_threads_tracing += envs[i].watchdogs_size; // each watchdog has its own thread
+  }
 #endif
 
 #if defined(FEDERATED)
diff --git a/trace/impl/src/trace_impl.c b/trace/impl/src/trace_impl.c
index f819507..23d2a3a 100644
--- a/trace/impl/src/trace_impl.c
+++ b/trace/impl/src/trace_impl.c
@@ -229,7 +229,7 @@ void lf_tracing_tracepoint(int worker, trace_record_nodeps_t* tr) {
     // Therefore we should fall back to using a mutex.
     lf_platform_mutex_lock(trace_mutex);
   }
-  if (tid > (int)trace._lf_number_of_trace_buffers) {
+  if (tid >= (int)trace._lf_number_of_trace_buffers) {
     lf_print_error_and_exit("the thread id (%d) exceeds the number of trace buffers (%zu)", tid,
                             trace._lf_number_of_trace_buffers);
   }
-- 
2.43.0


From 9ff9b2b92c059a70752a478a3e358bdf5b5df8c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:58:35 +0000
Subject: [PATCH 46/79] fix: do not change the ID of the main thread when it
 becomes a worker

---
 low_level_platform/impl/src/lf_platform_util.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/low_level_platform/impl/src/lf_platform_util.c b/low_level_platform/impl/src/lf_platform_util.c
index 212e6ea..46f70cf 100644
--- a/low_level_platform/impl/src/lf_platform_util.c
+++ b/low_level_platform/impl/src/lf_platform_util.c
@@ -21,6 +21,11 @@ static thread_local int lf_thread_id_var = -1;
 
 int lf_thread_id() { return lf_thread_id_var; }
 
-void initialize_lf_thread_id() { lf_thread_id_var = lf_atomic_fetch_add(&_lf_worker_thread_count, 1); }
+void initialize_lf_thread_id() {
+  // The main thread runs the first worker. It keeps the ID that it got when the program started.
+  if (lf_thread_id_var < 0) {
+    lf_thread_id_var = lf_atomic_fetch_add(&_lf_worker_thread_count, 1);
+  }
+}
 #endif
 #endif
-- 
2.43.0


From 74310e8bda4231d79c16596c8c2291b2951de736 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:58:35 +0000
Subject: [PATCH 47/79] fix: do not overflow the trace buffers when the trace
 file cannot be written

---
 trace/impl/src/trace_impl.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/trace/impl/src/trace_impl.c b/trace/impl/src/trace_impl.c
index 23d2a3a..d535026 100644
--- a/trace/impl/src/trace_impl.c
+++ b/trace/impl/src/trace_impl.c
@@ -98,6 +98,7 @@ static void flush_trace_locked(trace_t* trace, int worker) {
     if (!trace->_lf_trace_header_written) {
       if (write_trace_header(trace) < 0) {
         lf_print_error("Failed to write trace header. Trace file will be incomplete.");
+        trace->_lf_trace_buffer_size[worker] = 0;
         return;
       }
       trace->_lf_trace_header_written = true;
@@ -119,8 +120,9 @@ static void flush_trace_locked(trace_t* trace, int worker) {
         trace->_lf_trace_file = NULL;
       }
     }
-    trace->_lf_trace_buffer_size[worker] = 0;
   }
+  // Discard the records even if they could not be written. Otherwise, the buffer would overflow.
+  trace->_lf_trace_buffer_size[worker] = 0;
 }
 
 /**
-- 
2.43.0


From 3f9abffd30244f223e6fc6f2ac0a8c895fac4656 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:59:25 +0000
Subject: [PATCH 48/79] fix: trace calls to schedule whose event piles up in
 superdense time

---
 lib/schedule.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/lib/schedule.c b/lib/schedule.c
index 6156c83..90e054c 100644
--- a/lib/schedule.c
+++ b/lib/schedule.c
@@ -228,6 +228,7 @@ trigger_handle_t lf_schedule_trigger(environment_t* env, trigger_t* trigger, int
       }
       trigger->last_tag = intended_tag;
       pqueue_tag_insert(env->event_q, (pqueue_tag_element_t*)e);
+      tracepoint_schedule(env, trigger, e->base.tag.time - env->current_tag.time);
       return (0); // FIXME: return value
     }
     // If there are not conflicts, schedule as usual. If intended time is
-- 
2.43.0


From 4110d85d08c630cb834af7f80e06babe5dda8033 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:04:05 +0000
Subject: [PATCH 49/79] fix: do not ignore the RTI option after the clock
 synchronization options

---
 core/federated/RTI/main.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/core/federated/RTI/main.c b/core/federated/RTI/main.c
index 17d73e9..3b5a569 100644
--- a/core/federated/RTI/main.c
+++ b/core/federated/RTI/main.c
@@ -253,7 +253,8 @@ int process_args(int argc, const char* argv[]) {
         return 0;
       }
       i++;
-      i += process_clock_sync_args((argc - i), &argv[i]);
+      // The loop increments i.
+      i += process_clock_sync_args((argc - i), &argv[i]) - 1;
     } else if (strcmp(argv[i], "-a") == 0 || strcmp(argv[i], "--auth") == 0) {
 #ifndef __RTI_AUTH__
       lf_print_error("--auth requires the RTI to be built with the -DAUTH=ON option.");
-- 
2.43.0


From 34f51f9c92d84543145a71ae12844d4e313434ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:39:49 +0000
Subject: [PATCH 50/79] fix: RTI rejects a federation ID that is a proper
 prefix of its own

The comparison was limited to the received length, so that a federate with
an empty federation ID or a prefix of the RTI's was admitted.
---
 core/federated/RTI/rti_remote.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/core/federated/RTI/rti_remote.c b/core/federated/RTI/rti_remote.c
index 78edc55..209f9aa 100644
--- a/core/federated/RTI/rti_remote.c
+++ b/core/federated/RTI/rti_remote.c
@@ -1308,7 +1308,9 @@ static int32_t receive_and_check_fed_id_message(int* socket_id, struct sockaddr_
       tracepoint_rti_from_federate(receive_FED_ID, fed_id, NULL);
     }
     // Compare the received federation ID to mine.
-    if (strncmp(rti_remote->federation_id, federation_id_received, federation_id_length) != 0) {
+    // The received ID may contain null bytes or be a prefix of the federation ID, so compare the lengths as well.
+    if (federation_id_length != strnlen(rti_remote->federation_id, 255) ||
+        strncmp(rti_remote->federation_id, federation_id_received, federation_id_length) != 0) {
       // Federation IDs do not match. Send back a MSG_TYPE_REJECT message.
       lf_print_warning("Federate from another federation %s attempted to connect to RTI in federation %s.",
                        federation_id_received, rti_remote->federation_id);
-- 
2.43.0


From af5986537af286a315276b071bea3d95cffee812 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:41:05 +0000
Subject: [PATCH 51/79] fix: a client that fails the handshake no longer
 terminates the RTI

A client that closed its connection or sent an unexpected message while
joining (or authenticating) made the RTI exit or abort. Refuse only that
connection.
---
 core/federated/RTI/rti_remote.c | 54 ++++++++++++++++++++++-----------
 1 file changed, 36 insertions(+), 18 deletions(-)

diff --git a/core/federated/RTI/rti_remote.c b/core/federated/RTI/rti_remote.c
index 209f9aa..f37a61a 100644
--- a/core/federated/RTI/rti_remote.c
+++ b/core/federated/RTI/rti_remote.c
@@ -1393,9 +1393,10 @@ static int32_t receive_and_check_fed_id_message(int* socket_id, struct sockaddr_
 static int receive_connection_information(int* socket_id, uint16_t fed_id) {
   LF_PRINT_DEBUG("RTI waiting for MSG_TYPE_NEIGHBOR_STRUCTURE from federate %d.", fed_id);
   unsigned char connection_info_header[MSG_TYPE_NEIGHBOR_STRUCTURE_HEADER_SIZE];
-  read_from_socket_fail_on_error(socket_id, MSG_TYPE_NEIGHBOR_STRUCTURE_HEADER_SIZE, connection_info_header, NULL,
-                                 "RTI failed to read MSG_TYPE_NEIGHBOR_STRUCTURE message header from federate %d.",
-                                 fed_id);
+  if (read_from_socket_close_on_error(socket_id, MSG_TYPE_NEIGHBOR_STRUCTURE_HEADER_SIZE, connection_info_header)) {
+    lf_print_error("RTI failed to read MSG_TYPE_NEIGHBOR_STRUCTURE message header from federate %d.", fed_id);
+    return 0;
+  }
 
   if (connection_info_header[0] != MSG_TYPE_NEIGHBOR_STRUCTURE) {
     lf_print_error("RTI was expecting a MSG_TYPE_UDP_PORT message from federate %d. Got %u instead. "
@@ -1435,9 +1436,11 @@ static int receive_connection_information(int* socket_id, uint16_t fed_id) {
     if (connections_info_body_size > 0) {
       connections_info_body = (unsigned char*)malloc(connections_info_body_size);
       LF_ASSERT_NON_NULL(connections_info_body);
-      read_from_socket_fail_on_error(socket_id, connections_info_body_size, connections_info_body, NULL,
-                                     "RTI failed to read MSG_TYPE_NEIGHBOR_STRUCTURE message body from federate %d.",
-                                     fed_id);
+      if (read_from_socket_close_on_error(socket_id, connections_info_body_size, connections_info_body)) {
+        lf_print_error("RTI failed to read MSG_TYPE_NEIGHBOR_STRUCTURE message body from federate %d.", fed_id);
+        free(connections_info_body);
+        return 0;
+      }
       // Keep track of where we are in the buffer
       size_t message_head = 0;
       // First, read the info about upstream federates
@@ -1479,8 +1482,10 @@ static int receive_udp_message_and_set_up_clock_sync(int* socket_id, uint16_t fe
   // is doing clock synchronization, and if it is, what port to use for UDP.
   LF_PRINT_DEBUG("RTI waiting for MSG_TYPE_UDP_PORT from federate %d.", fed_id);
   unsigned char response[1 + sizeof(uint16_t)];
-  read_from_socket_fail_on_error(socket_id, 1 + sizeof(uint16_t), response, NULL,
-                                 "RTI failed to read MSG_TYPE_UDP_PORT message from federate %d.", fed_id);
+  if (read_from_socket_close_on_error(socket_id, 1 + sizeof(uint16_t), response)) {
+    lf_print_error("RTI failed to read MSG_TYPE_UDP_PORT message from federate %d.", fed_id);
+    return 0;
+  }
   if (response[0] != MSG_TYPE_UDP_PORT) {
     lf_print_error("RTI was expecting a MSG_TYPE_UDP_PORT message from federate %d. Got %u instead. "
                    "Rejecting federate.",
@@ -1506,12 +1511,12 @@ static int receive_udp_message_and_set_up_clock_sync(int* socket_id, uint16_t fe
           // Listen for reply message, which should be T3.
           size_t message_size = 1 + sizeof(int32_t);
           unsigned char buffer[message_size];
-          read_from_socket_fail_on_error(socket_id, message_size, buffer, NULL,
-                                         "Socket to federate %d unexpectedly closed.", fed_id);
+          if (read_from_socket_close_on_error(socket_id, message_size, buffer)) {
+            lf_print_error("Socket to federate %d unexpectedly closed.", fed_id);
+            return 0;
+          }
           if (buffer[0] == MSG_TYPE_CLOCK_SYNC_T3) {
-            int32_t fed_id = extract_int32(&(buffer[1]));
-            assert(fed_id > -1);
-            assert(fed_id < 65536);
+            // The payload is the federate ID, which is already known for this connection.
             LF_PRINT_DEBUG("RTI received T3 clock sync message from federate %d.", fed_id);
             handle_physical_clock_sync_message(fed, TCP);
           } else {
@@ -1558,10 +1563,19 @@ static bool authenticate_federate(int* socket) {
   // Wait for MSG_TYPE_FED_NONCE from federate.
   size_t fed_id_length = sizeof(uint16_t);
   unsigned char buffer[1 + fed_id_length + NONCE_LENGTH];
-  read_from_socket_fail_on_error(socket, 1 + fed_id_length + NONCE_LENGTH, buffer, NULL,
-                                 "Failed to read MSG_TYPE_FED_NONCE");
+  // Check the message type first because other messages may be shorter.
+  if (read_from_socket_close_on_error(socket, 1, buffer)) {
+    lf_print_error("Failed to read MSG_TYPE_FED_NONCE");
+    return false;
+  }
   if (buffer[0] != MSG_TYPE_FED_NONCE) {
-    lf_print_error_and_exit("Received unexpected response %u from the FED (see net_common.h).", buffer[0]);
+    lf_print_error("Received unexpected response %u from the FED (see net_common.h).", buffer[0]);
+    send_reject(socket, UNEXPECTED_MESSAGE);
+    return false;
+  }
+  if (read_from_socket_close_on_error(socket, fed_id_length + NONCE_LENGTH, &buffer[1])) {
+    lf_print_error("Failed to read MSG_TYPE_FED_NONCE");
+    return false;
   }
   unsigned int hmac_length = SHA256_HMAC_LENGTH;
   size_t federation_id_length = strnlen(rti_remote->federation_id, 255);
@@ -1589,9 +1603,13 @@ static bool authenticate_federate(int* socket) {
 
   // Wait for MSG_TYPE_FED_RESPONSE
   unsigned char received[1 + hmac_length];
-  read_from_socket_fail_on_error(socket, 1 + hmac_length, received, NULL, "Failed to read federate response.");
+  if (read_from_socket_close_on_error(socket, 1 + hmac_length, received)) {
+    lf_print_error("Failed to read federate response.");
+    return false;
+  }
   if (received[0] != MSG_TYPE_FED_RESPONSE) {
-    lf_print_error_and_exit("Received unexpected response %u from the federate (see net_common.h).", received[0]);
+    lf_print_error("Received unexpected response %u from the federate (see net_common.h).", received[0]);
+    send_reject(socket, UNEXPECTED_MESSAGE);
     return false;
   }
   // HMAC tag is created with MSG_TYPE_FED_RESPONSE and RTI's nonce.
-- 
2.43.0


From b8bf890053cfaf70e4c8b12b77d4ff19b03c5610 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:41:05 +0000
Subject: [PATCH 52/79] fix: RTI releases the identity of a federate that fails
 the handshake

After MSG_TYPE_ACK, a connection that broke off left the federate PENDING so
that the genuine federate was refused forever as a duplicate.
---
 core/federated/RTI/rti_remote.c | 30 ++++++++++++++++++++++++++++--
 1 file changed, 28 insertions(+), 2 deletions(-)

diff --git a/core/federated/RTI/rti_remote.c b/core/federated/RTI/rti_remote.c
index f37a61a..17e1d93 100644
--- a/core/federated/RTI/rti_remote.c
+++ b/core/federated/RTI/rti_remote.c
@@ -1248,7 +1248,8 @@ void send_reject(int* socket_id, unsigned char error_code) {
  * a MSG_TYPE_REJECT message.
  * @param socket_id Pointer to the socket on which to listen.
  * @param client_fd The socket address.
- * @return The federate ID for success or -1 for failure.
+ * @return The federate ID for success or -1 for failure. If the acknowledgment could not be sent, the socket is
+ *  closed, *socket_id is set to -1, and the federate ID is returned.
  */
 static int32_t receive_and_check_fed_id_message(int* socket_id, struct sockaddr_in* client_fd) {
   // Buffer for message ID, federate ID, and federation ID length.
@@ -1376,7 +1377,8 @@ static int32_t receive_and_check_fed_id_message(int* socket_id, struct sockaddr_
   if (write_to_socket_close_on_error(&fed->socket, 1, &ack_message)) {
     LF_MUTEX_UNLOCK(&rti_mutex);
     lf_print_error("RTI failed to write MSG_TYPE_ACK message to federate %d.", fed_id);
-    return -1;
+    *socket_id = -1; // The socket has been closed.
+    return (int32_t)fed_id;
   }
   LF_MUTEX_UNLOCK(&rti_mutex);
 
@@ -1635,6 +1637,27 @@ static bool authenticate_federate(int* socket) {
 }
 #endif
 
+/**
+ * Make the identity of a federate that has not completed the handshake available again.
+ * @param fed_id The federate ID.
+ */
+static void release_federate(uint16_t fed_id) {
+  federate_info_t* fed = GET_FED_INFO(fed_id);
+  LF_MUTEX_LOCK(&rti_mutex);
+  free(fed->enclave.upstream);
+  free(fed->enclave.upstream_delay);
+  free(fed->enclave.downstream);
+  fed->enclave.upstream = NULL;
+  fed->enclave.upstream_delay = NULL;
+  fed->enclave.downstream = NULL;
+  fed->enclave.num_upstream = 0;
+  fed->enclave.num_downstream = 0;
+  fed->clock_synchronization_enabled = true;
+  fed->socket = -1;
+  fed->enclave.state = NOT_CONNECTED;
+  LF_MUTEX_UNLOCK(&rti_mutex);
+}
+
 void lf_connect_to_federates(int socket_descriptor) {
   for (int i = 0; i < rti_remote->base.number_of_scheduling_nodes; i++) {
     // Wait for an incoming connection request.
@@ -1685,6 +1708,9 @@ void lf_connect_to_federates(int socket_descriptor) {
       lf_thread_create(&(fed->thread_id), federate_info_thread_TCP, fed);
     } else {
       // Received message was rejected. Try again.
+      if (fed_id >= 0) {
+        release_federate((uint16_t)fed_id);
+      }
       i--;
     }
   }
-- 
2.43.0


From 0d71ddc384ca28518490d55da1fc01c188dbe352 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:41:44 +0000
Subject: [PATCH 53/79] fix: RTI validates the neighbor structure that a
 federate sends

Negative or huge counts and federate IDs out of range led to accesses out
of bounds.
---
 core/federated/RTI/rti_remote.c | 22 ++++++++++++++++++++++
 1 file changed, 22 insertions(+)

diff --git a/core/federated/RTI/rti_remote.c b/core/federated/RTI/rti_remote.c
index 17e1d93..1e79fe7 100644
--- a/core/federated/RTI/rti_remote.c
+++ b/core/federated/RTI/rti_remote.c
@@ -1414,6 +1414,14 @@ static int receive_connection_information(int* socket_id, uint16_t fed_id) {
     LF_PRINT_DEBUG("RTI got %d upstreams and %d downstreams from federate %d.", fed->enclave.num_upstream,
                    fed->enclave.num_downstream, fed_id);
 
+    // There is at most one entry for each federate.
+    if (fed->enclave.num_upstream < 0 || fed->enclave.num_upstream > rti_remote->base.number_of_scheduling_nodes ||
+        fed->enclave.num_downstream < 0 || fed->enclave.num_downstream > rti_remote->base.number_of_scheduling_nodes) {
+      lf_print_error("RTI received an invalid neighbor structure from federate %d. Rejecting federate.", fed_id);
+      send_reject(socket_id, UNEXPECTED_MESSAGE);
+      return 0;
+    }
+
     // Allocate memory for the upstream and downstream pointers
     if (fed->enclave.num_upstream > 0) {
       fed->enclave.upstream = (uint16_t*)malloc(sizeof(uint16_t) * fed->enclave.num_upstream);
@@ -1460,6 +1468,20 @@ static int receive_connection_information(int* socket_id, uint16_t fed_id) {
       }
 
       free(connections_info_body);
+
+      // Every neighbor has to be a member of the federation.
+      bool valid = true;
+      for (int i = 0; i < fed->enclave.num_upstream; i++) {
+        valid = valid && fed->enclave.upstream[i] < rti_remote->base.number_of_scheduling_nodes;
+      }
+      for (int i = 0; i < fed->enclave.num_downstream; i++) {
+        valid = valid && fed->enclave.downstream[i] < rti_remote->base.number_of_scheduling_nodes;
+      }
+      if (!valid) {
+        lf_print_error("RTI received an invalid neighbor from federate %d. Rejecting federate.", fed_id);
+        send_reject(socket_id, UNEXPECTED_MESSAGE);
+        return 0;
+      }
     }
   }
   LF_PRINT_DEBUG("RTI received neighbor structure from federate %d.", fed_id);
-- 
2.43.0


From 53f2bbff378eb23338a06412d431706d5b37b990 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:42:37 +0000
Subject: [PATCH 54/79] fix: federate compares the whole federation ID of a
 connecting peer

The comparison read beyond a shorter ID and accepted a longer one that starts
with the right ID.
---
 core/federated/federate.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/core/federated/federate.c b/core/federated/federate.c
index 3e24bef..fdcd307 100644
--- a/core/federated/federate.c
+++ b/core/federated/federate.c
@@ -2236,8 +2236,8 @@ void* lf_handle_p2p_connections_from_federates(void* env_arg) {
     unsigned char federation_id_length = buffer[header_length - 1];
     char remote_federation_id[federation_id_length];
     read_failed = read_from_socket(socket_id, federation_id_length, (unsigned char*)remote_federation_id);
-    if (read_failed || (strncmp(federation_metadata.federation_id, remote_federation_id,
-                                strnlen(federation_metadata.federation_id, 255)) != 0)) {
+    if (read_failed || federation_id_length != strnlen(federation_metadata.federation_id, 255) ||
+        strncmp(federation_metadata.federation_id, remote_federation_id, federation_id_length) != 0) {
       lf_print_warning("Received invalid federation ID. Closing socket.");
       if (read_failed == 0) {
         unsigned char response[2];
-- 
2.43.0


From e1f0254d75e9f8b1c9754d8e4cd942c6403247ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:42:38 +0000
Subject: [PATCH 55/79] fix: federate rejects peers with an ID out of range or
 already connected

An ID out of range was used as an array index, and a duplicate replaced the
socket of the genuine peer and took its place.
---
 core/federated/federate.c | 36 ++++++++++++++++++++++++++++++------
 1 file changed, 30 insertions(+), 6 deletions(-)

diff --git a/core/federated/federate.c b/core/federated/federate.c
index fdcd307..330b043 100644
--- a/core/federated/federate.c
+++ b/core/federated/federate.c
@@ -2259,12 +2259,36 @@ void* lf_handle_p2p_connections_from_federates(void* env_arg) {
     // Trace the event when tracing is enabled
     tracepoint_federate_to_federate(receive_FED_ID, _lf_my_fed_id, remote_fed_id, NULL);
 
-    // Once we record the socket_id here, all future calls to close() on
-    // the socket should be done while holding the socket_mutex, and this array
-    // element should be reset to -1 during that critical section.
-    // Otherwise, there can be race condition where, during termination,
-    // two threads attempt to simultaneously close the socket.
-    _fed.sockets_for_inbound_p2p_connections[remote_fed_id] = socket_id;
+    // The ID has to be in range, and there is at most one connection from each federate.
+    unsigned char error_code = 0;
+    if (remote_fed_id >= NUMBER_OF_FEDERATES) {
+      error_code = FEDERATE_ID_OUT_OF_RANGE;
+    } else {
+      LF_MUTEX_LOCK(&socket_mutex);
+      if (_fed.sockets_for_inbound_p2p_connections[remote_fed_id] >= 0) {
+        error_code = FEDERATE_ID_IN_USE;
+      } else {
+        // Once we record the socket_id here, all future calls to close() on
+        // the socket should be done while holding the socket_mutex, and this array
+        // element should be reset to -1 during that critical section.
+        // Otherwise, there can be race condition where, during termination,
+        // two threads attempt to simultaneously close the socket.
+        _fed.sockets_for_inbound_p2p_connections[remote_fed_id] = socket_id;
+      }
+      LF_MUTEX_UNLOCK(&socket_mutex);
+    }
+    if (error_code != 0) {
+      lf_print_warning("Rejecting connection with federate ID %d. Closing socket.", remote_fed_id);
+      unsigned char response[2];
+      response[0] = MSG_TYPE_REJECT;
+      response[1] = error_code;
+      // Trace the event when tracing is enabled
+      tracepoint_federate_to_federate(send_REJECT, _lf_my_fed_id, -3, NULL);
+      // Ignore errors on this response.
+      write_to_socket(socket_id, 2, response);
+      close(socket_id);
+      continue;
+    }
 
     // Send an MSG_TYPE_ACK message.
     unsigned char response = MSG_TYPE_ACK;
-- 
2.43.0


From 503066f1d72fae25daf8af1f0859a68ad226132a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:46:23 +0000
Subject: [PATCH 56/79] fix: federate does not go on with an RTI that has not
 acknowledged it

When the last attempt before the timeout had established a connection but the
RTI had not acknowledged the federate, it continued as if it had joined.
---
 core/federated/federate.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/core/federated/federate.c b/core/federated/federate.c
index 330b043..3139f4f 100644
--- a/core/federated/federate.c
+++ b/core/federated/federate.c
@@ -1959,6 +1959,7 @@ void lf_connect_to_rti(const char* hostname, int port) {
   _fed.socket_TCP_RTI = create_real_time_tcp_socket_errexit();
 
   int result = -1;
+  bool acknowledged = false;
   struct addrinfo* res = NULL;
 
   instant_t start_connect = lf_time_physical();
@@ -2065,6 +2066,7 @@ void lf_connect_to_rti(const char* hostname, int port) {
       // Trace the event when tracing is enabled
       tracepoint_federate_from_rti(receive_ACK, _lf_my_fed_id, NULL);
       LF_PRINT_LOG("Received acknowledgment from the RTI.");
+      acknowledged = true;
       break;
     } else if (response == MSG_TYPE_RESIGN) {
       lf_print_warning("RTI on port %d resigned. Will try again", uport);
@@ -2074,7 +2076,7 @@ void lf_connect_to_rti(const char* hostname, int port) {
       continue;
     }
   }
-  if (result < 0) {
+  if (!acknowledged) {
     lf_print_error_and_exit("Failed to connect to RTI with timeout: " PRINTF_TIME, CONNECT_TIMEOUT);
   }
 
-- 
2.43.0


From 9af492212b1a2bd6eebf8c2de1a7864a2f25b29d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:52:21 +0000
Subject: [PATCH 57/79] fix: errors of accept that concern a single connection
 are not fatal

The condition of the RTI was always true, so that a timeout (100 s without a
connection attempt) or an aborted connection made it exit, and the thread that
refuses unexpected connections ended.
---
 core/federated/RTI/rti_remote.c | 10 +++++++---
 core/federated/federate.c       |  2 +-
 2 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/core/federated/RTI/rti_remote.c b/core/federated/RTI/rti_remote.c
index 1e79fe7..432a574 100644
--- a/core/federated/RTI/rti_remote.c
+++ b/core/federated/RTI/rti_remote.c
@@ -1692,7 +1692,7 @@ void lf_connect_to_federates(int socket_descriptor) {
       if (socket_id >= 0) {
         // Got a socket
         break;
-      } else if (socket_id < 0 && (errno != EAGAIN || errno != EWOULDBLOCK)) {
+      } else if (errno != EAGAIN && errno != EWOULDBLOCK && errno != EINTR && errno != ECONNABORTED) {
         lf_print_error_system_failure("RTI failed to accept the socket.");
       } else {
         // Try again
@@ -1766,10 +1766,14 @@ void* respond_to_erroneous_connections(void* nothing) {
     // The following will block until either a federate attempts to connect
     // or close(rti->socket_descriptor_TCP) is called.
     int socket_id = accept(rti_remote->socket_descriptor_TCP, &client_fd, &client_length);
-    if (socket_id < 0)
+    if (rti_remote->all_federates_exited) {
       return NULL;
+    }
 
-    if (rti_remote->all_federates_exited) {
+    if (socket_id < 0) {
+      if (errno == EAGAIN || errno == EWOULDBLOCK || errno == EINTR || errno == ECONNABORTED) {
+        continue; // The connection was aborted before it could be accepted.
+      }
       return NULL;
     }
 
diff --git a/core/federated/federate.c b/core/federated/federate.c
index 3139f4f..f940862 100644
--- a/core/federated/federate.c
+++ b/core/federated/federate.c
@@ -2202,7 +2202,7 @@ void* lf_handle_p2p_connections_from_federates(void* env_arg) {
     int socket_id = accept(_fed.server_socket, &client_fd, &client_length);
 
     if (socket_id < 0) {
-      if (errno == EAGAIN || errno == EWOULDBLOCK || errno == EINTR) {
+      if (errno == EAGAIN || errno == EWOULDBLOCK || errno == EINTR || errno == ECONNABORTED) {
         if (rti_failed())
           break;
         else
-- 
2.43.0


From 41604f8f59c35521dfc162e52e93c17a5c5e78f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:12:28 +0000
Subject: [PATCH 58/79] fix: RTI checks what has been granted after waiting for
 the start time to be sent

---
 core/federated/RTI/rti_remote.c | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/core/federated/RTI/rti_remote.c b/core/federated/RTI/rti_remote.c
index 432a574..184f4ff 100644
--- a/core/federated/RTI/rti_remote.c
+++ b/core/federated/RTI/rti_remote.c
@@ -220,16 +220,16 @@ static int write_to_federate_locked(federate_info_t* fed, size_t num_bytes, unsi
 }
 
 void notify_tag_advance_grant(scheduling_node_t* e, tag_t tag) {
-  if (e->state == NOT_CONNECTED || lf_tag_compare(tag, e->last_granted) <= 0 ||
-      lf_tag_compare(tag, e->last_provisionally_granted) < 0) {
-    return;
-  }
   // Need to make sure that the destination federate's thread has already
   // sent the starting MSG_TYPE_TIMESTAMP message.
   while (e->state == PENDING) {
-    // Need to wait here.
+    // Need to wait here. This releases the mutex, so what has been granted is checked afterwards.
     lf_cond_wait(&sent_start_time);
   }
+  if (e->state == NOT_CONNECTED || lf_tag_compare(tag, e->last_granted) <= 0 ||
+      lf_tag_compare(tag, e->last_provisionally_granted) < 0) {
+    return;
+  }
   size_t message_length = 1 + sizeof(int64_t) + sizeof(uint32_t);
   unsigned char buffer[message_length];
   buffer[0] = MSG_TYPE_TAG_ADVANCE_GRANT;
@@ -250,16 +250,16 @@ void notify_tag_advance_grant(scheduling_node_t* e, tag_t tag) {
 }
 
 void notify_provisional_tag_advance_grant(scheduling_node_t* e, tag_t tag) {
-  if (e->state == NOT_CONNECTED || lf_tag_compare(tag, e->last_granted) <= 0 ||
-      lf_tag_compare(tag, e->last_provisionally_granted) <= 0) {
-    return;
-  }
   // Need to make sure that the destination federate's thread has already
   // sent the starting MSG_TYPE_TIMESTAMP message.
   while (e->state == PENDING) {
-    // Need to wait here.
+    // Need to wait here. This releases the mutex, so what has been granted is checked afterwards.
     lf_cond_wait(&sent_start_time);
   }
+  if (e->state == NOT_CONNECTED || lf_tag_compare(tag, e->last_granted) <= 0 ||
+      lf_tag_compare(tag, e->last_provisionally_granted) <= 0) {
+    return;
+  }
   size_t message_length = 1 + sizeof(int64_t) + sizeof(uint32_t);
   unsigned char buffer[message_length];
   buffer[0] = MSG_TYPE_PROVISIONAL_TAG_ADVANCE_GRANT;
-- 
2.43.0


From 8a1db41dfdf5c9c852711a5abf7ff70a1e92b176 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:12:40 +0000
Subject: [PATCH 59/79] fix: the tag after the last microstep of a time is at
 the next time

---
 core/federated/federate.c | 10 ++++------
 core/tag.c                |  9 +++++----
 2 files changed, 9 insertions(+), 10 deletions(-)

diff --git a/core/federated/federate.c b/core/federated/federate.c
index f940862..044e6ca 100644
--- a/core/federated/federate.c
+++ b/core/federated/federate.c
@@ -272,7 +272,7 @@ static void update_last_known_status_on_input_port(environment_t* env, tag_t tag
   trigger_t* input_port_action = action_for_port(port_id)->trigger;
   int comparison = lf_tag_compare(tag, input_port_action->last_known_status_tag);
   if (comparison == 0)
-    tag.microstep++;
+    tag = lf_delay_tag(tag, 0LL);
   if (comparison >= 0) {
     LF_PRINT_LOG("Updating the last known status tag of port %d from " PRINTF_TAG " to " PRINTF_TAG ".", port_id,
                  input_port_action->last_known_status_tag.time - lf_time_start(),
@@ -1406,8 +1406,7 @@ static void handle_stop_granted_message() {
                      "tag " PRINTF_TAG ". "
                      "Stopping at the next microstep instead.",
                      env[i].current_tag.time - start_time, env[i].current_tag.microstep);
-      received_stop_tag = env[i].current_tag;
-      received_stop_tag.microstep++;
+      received_stop_tag = lf_delay_tag(env[i].current_tag, 0LL);
     }
 
 #ifdef FEDERATED_CENTRALIZED
@@ -1502,8 +1501,7 @@ static void handle_stop_request_message() {
     LF_MUTEX_LOCK(&env[i].mutex);
     if (lf_tag_compare(tag_to_stop, env[i].current_tag) <= 0) {
       // Can't stop at the requested tag. Make a counteroffer.
-      tag_to_stop = env->current_tag;
-      tag_to_stop.microstep++;
+      tag_to_stop = lf_delay_tag(env->current_tag, 0LL);
     }
     // Set a barrier to prevent the enclave from advancing past the so-far tag to stop.
     _lf_increment_tag_barrier_locked(&env[i], tag_to_stop);
@@ -2637,7 +2635,7 @@ int lf_send_stop_request_to_rti(tag_t stop_tag) {
   // Send a stop request with the specified tag to the RTI
   unsigned char buffer[MSG_TYPE_STOP_REQUEST_LENGTH];
   // Stop at the next microstep
-  stop_tag.microstep++;
+  stop_tag = lf_delay_tag(stop_tag, 0LL);
   ENCODE_STOP_REQUEST(buffer, stop_tag.time, stop_tag.microstep);
 
   LF_MUTEX_LOCK(&lf_outbound_socket_mutex);
diff --git a/core/tag.c b/core/tag.c
index c5f8f88..c5bdf6d 100644
--- a/core/tag.c
+++ b/core/tag.c
@@ -104,10 +104,11 @@ tag_t lf_delay_tag(tag_t tag, interval_t interval) {
     return FOREVER_TAG; // Overflow.
   tag_t result = tag;
   if (interval == 0LL) {
-    // Note that unsigned variables will wrap on overflow.
-    // This is probably the only reasonable thing to do with overflowing
-    // microsteps.
-    result.microstep++;
+    // A federate can be granted, and advance to, the last microstep of a time. The next tag is then
+    // at the next time.
+    if (result.microstep++ == UINT_MAX) {
+      result.time++;
+    }
   } else {
     result.time += interval;
     result.microstep = 0;
-- 
2.43.0


From efa71ee9044539494b72caf7ee97c8010a959806 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:13:05 +0000
Subject: [PATCH 60/79] fix: RTI does not forget what it granted to a federate
 without upstream federates

---
 core/federated/RTI/rti_common.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/core/federated/RTI/rti_common.c b/core/federated/RTI/rti_common.c
index b66bc2e..c6f1eba 100644
--- a/core/federated/RTI/rti_common.c
+++ b/core/federated/RTI/rti_common.c
@@ -287,8 +287,11 @@ void update_scheduling_node_next_event_tag_locked(scheduling_node_t* e, tag_t ne
   if (e->num_upstream > 0) {
     notify_advance_grant_if_safe(e);
   } else {
-    // Even though there was no grant, mark the tag as if there was.
-    e->last_granted = next_event_tag;
+    // Even though there was no grant, mark the tag as if there was. The next event can be earlier than what
+    // has been granted before if it comes from a physical action.
+    if (lf_tag_compare(next_event_tag, e->last_granted) > 0) {
+      e->last_granted = next_event_tag;
+    }
   }
   // Check downstream scheduling_nodes to see whether they should now be granted a TAG.
   // To handle cycles, need to create a boolean array to keep
-- 
2.43.0


From 55e9808508b551f0a42cebc2196e3b045a4b427d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:23:07 +0000
Subject: [PATCH 61/79] fix: RTI takes into account that a PTAG rules out
 earlier messages of the federate that has it

---
 core/federated/RTI/rti_common.c | 33 +++++++++++++++++++++++++++++++++
 1 file changed, 33 insertions(+)

diff --git a/core/federated/RTI/rti_common.c b/core/federated/RTI/rti_common.c
index c6f1eba..add3edc 100644
--- a/core/federated/RTI/rti_common.c
+++ b/core/federated/RTI/rti_common.c
@@ -119,6 +119,31 @@ tag_t earliest_future_incoming_message_tag(scheduling_node_t* e) {
   return t_d;
 }
 
+// Return the earliest tag of a message that can still come from the immediately upstream nodes of the specified
+// node, given what these nodes have been granted provisionally. A node with a PTAG has no reason to send anything
+// before that tag: at the time of the grant, neither its own events nor those of the nodes upstream of it were
+// earlier, and events that it reports to be earlier later on come from physical actions that cause no outputs.
+static tag_t earliest_message_tag_after_ptags(scheduling_node_t* e) {
+  tag_t t_d = FOREVER_TAG;
+  for (int i = 0; i < e->num_upstream; i++) {
+    scheduling_node_t* upstream = rti_common->scheduling_nodes[e->upstream[i]];
+    if (upstream->state == NOT_CONNECTED)
+      continue;
+    tag_t earliest = earliest_future_incoming_message_tag(upstream);
+    if (lf_tag_compare(upstream->next_event, earliest) < 0) {
+      earliest = upstream->next_event;
+    }
+    if (lf_tag_compare(upstream->last_provisionally_granted, earliest) > 0) {
+      earliest = upstream->last_provisionally_granted;
+    }
+    tag_t earliest_tag_from_upstream = lf_delay_tag(earliest, e->upstream_delay[i]);
+    if (lf_tag_compare(earliest_tag_from_upstream, t_d) < 0) {
+      t_d = earliest_tag_from_upstream;
+    }
+  }
+  return t_d;
+}
+
 tag_t eimt_strict(scheduling_node_t* e) {
   // Find the tag of the earliest possible incoming message from immediately upstream
   // enclaves or federates that are not part of a zero-delay cycle.
@@ -191,6 +216,10 @@ tag_advance_grant_t tag_advance_grant_if_safe(scheduling_node_t* e) {
   // Find the tag of the earliest event that may be later received from an upstream enclave
   // or federate (which includes any after delays on the connections).
   tag_t t_d = earliest_future_incoming_message_tag(e);
+  tag_t t_d_after_ptags = earliest_message_tag_after_ptags(e);
+  if (lf_tag_compare(t_d_after_ptags, t_d) > 0) {
+    t_d = t_d_after_ptags;
+  }
   // Non-ZDC version of the above. This is a tag that must be strictly greater than
   // that of the next granted PTAG.
   tag_t t_d_strict = eimt_strict(e);
@@ -276,6 +305,10 @@ void notify_downstream_advance_grant_if_safe(scheduling_node_t* e, bool visited[
 }
 
 void update_scheduling_node_next_event_tag_locked(scheduling_node_t* e, tag_t next_event_tag) {
+  // With a PTAG, the node advances to that tag by itself. Other nodes cannot expect messages from it before that.
+  if (lf_tag_compare(next_event_tag, e->last_provisionally_granted) < 0) {
+    next_event_tag = e->last_provisionally_granted;
+  }
   e->next_event = next_event_tag;
 
   LF_PRINT_DEBUG("RTI: Updated the recorded next event tag for federate/enclave %d to " PRINTF_TAG, e->id,
-- 
2.43.0


From 0520b727f6792b741551ec032edd78f49605bba4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:23:41 +0000
Subject: [PATCH 62/79] fix: RTI grants no PTAG while a federate that waits for
 its outputs may need an earlier tag

---
 core/federated/RTI/rti_common.c | 31 +++++++++++++++++++++++++++++++
 core/federated/RTI/rti_common.h |  9 +++++++++
 core/federated/RTI/rti_remote.c |  1 +
 3 files changed, 41 insertions(+)

diff --git a/core/federated/RTI/rti_common.c b/core/federated/RTI/rti_common.c
index add3edc..06767e1 100644
--- a/core/federated/RTI/rti_common.c
+++ b/core/federated/RTI/rti_common.c
@@ -178,6 +178,25 @@ tag_t eimt_strict(scheduling_node_t* e) {
   return t_d;
 }
 
+// Return true if a node that receives messages without delay from the specified node may still have to advance to a
+// tag earlier than the specified one. With a PTAG for that tag, it will wait until the specified node has reported
+// its outputs at that tag, so the specified node must not have advanced beyond it by then.
+static bool downstream_may_need_earlier_tag(scheduling_node_t* e, tag_t tag) {
+  for (int i = 0; i < e->num_downstream; i++) {
+    scheduling_node_t* downstream = rti_common->scheduling_nodes[e->downstream[i]];
+    if (downstream->state == NOT_CONNECTED || !is_in_zero_delay_cycle(downstream))
+      continue;
+    for (int j = 0; j < downstream->num_upstream; j++) {
+      if (downstream->upstream[j] == e->id && downstream->upstream_delay[j] < 0 &&
+          (lf_tag_compare(downstream->next_event, tag) < 0 ||
+           lf_tag_compare(earliest_future_incoming_message_tag(downstream), tag) < 0)) {
+        return true;
+      }
+    }
+  }
+  return false;
+}
+
 tag_advance_grant_t tag_advance_grant_if_safe(scheduling_node_t* e) {
   tag_advance_grant_t result = {.tag = NEVER_TAG, .is_provisional = false};
 
@@ -256,6 +275,7 @@ tag_advance_grant_t tag_advance_grant_if_safe(scheduling_node_t* e) {
       && lf_tag_compare(t_d_strict, e->next_event) > 0          // The strict EIMT is greater than the NET
       && lf_tag_compare(t_d, e->last_provisionally_granted) > 0 // The grant is not redundant
       && lf_tag_compare(t_d, e->last_granted) > 0               // The grant is not redundant.
+      && !downstream_may_need_earlier_tag(e, e->next_event)     // No one waits for an earlier tag.
   ) {
     // Some upstream node may send an event that has the same tag as this node's next event,
     // so we can only grant a PTAG.
@@ -304,6 +324,15 @@ void notify_downstream_advance_grant_if_safe(scheduling_node_t* e, bool visited[
   }
 }
 
+void notify_advance_grant_in_zero_delay_cycles_if_safe() {
+  for (int i = 0; i < rti_common->number_of_scheduling_nodes; i++) {
+    scheduling_node_t* node = rti_common->scheduling_nodes[i];
+    if (node->state == GRANTED && node->num_upstream > 0 && is_in_zero_delay_cycle(node)) {
+      notify_advance_grant_if_safe(node);
+    }
+  }
+}
+
 void update_scheduling_node_next_event_tag_locked(scheduling_node_t* e, tag_t next_event_tag) {
   // With a PTAG, the node advances to that tag by itself. Other nodes cannot expect messages from it before that.
   if (lf_tag_compare(next_event_tag, e->last_provisionally_granted) < 0) {
@@ -332,6 +361,8 @@ void update_scheduling_node_next_event_tag_locked(scheduling_node_t* e, tag_t ne
   bool* visited = (bool*)calloc(rti_common->number_of_scheduling_nodes, sizeof(bool)); // Initializes to 0.
   notify_downstream_advance_grant_if_safe(e, visited);
   free(visited);
+  // A grant to a federate or enclave in a zero-delay cycle may also depend on the ones downstream of it.
+  notify_advance_grant_in_zero_delay_cycles_if_safe();
 }
 
 void notify_advance_grant_if_safe(scheduling_node_t* e) {
diff --git a/core/federated/RTI/rti_common.h b/core/federated/RTI/rti_common.h
index 615ca8a..da345f4 100644
--- a/core/federated/RTI/rti_common.h
+++ b/core/federated/RTI/rti_common.h
@@ -138,6 +138,15 @@ void initialize_scheduling_node(scheduling_node_t* e, uint16_t id);
  */
 void notify_downstream_advance_grant_if_safe(scheduling_node_t* e, bool visited[]);
 
+/**
+ * For all scheduling nodes that are part of a zero-delay cycle, see whether they should now be granted a TAG or PTAG.
+ * A PTAG is withheld while a node downstream of the zero-delay cycle may still have to advance to an earlier tag,
+ * so it can become safe when the next event tag of a node that is not upstream changes.
+ *
+ * This function assumes the caller holds the RTI mutex.
+ */
+void notify_advance_grant_in_zero_delay_cycles_if_safe();
+
 /**
  * Notify a tag advance grant (TAG) message to the specified scheduling node.
  * Do not notify it if a previously sent PTAG was greater or if a
diff --git a/core/federated/RTI/rti_remote.c b/core/federated/RTI/rti_remote.c
index 184f4ff..21c35ea 100644
--- a/core/federated/RTI/rti_remote.c
+++ b/core/federated/RTI/rti_remote.c
@@ -1022,6 +1022,7 @@ static void notify_federates_of_departure_locked(federate_info_t* fed) {
   bool* visited = (bool*)calloc(rti_remote->base.number_of_scheduling_nodes, sizeof(bool)); // Initializes to 0.
   notify_downstream_advance_grant_if_safe(&(fed->enclave), visited);
   free(visited);
+  notify_advance_grant_in_zero_delay_cycles_if_safe();
 }
 
 /**
-- 
2.43.0


From d9100afff7267170361f066e374b1cd1fe581d82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:32:31 +0000
Subject: [PATCH 63/79] fix: a status that is reported for a tag at which it is
 known says nothing about the next microstep

---
 core/federated/federate.c | 2 --
 1 file changed, 2 deletions(-)

diff --git a/core/federated/federate.c b/core/federated/federate.c
index 044e6ca..0f34e53 100644
--- a/core/federated/federate.c
+++ b/core/federated/federate.c
@@ -271,8 +271,6 @@ static void update_last_known_status_on_input_port(environment_t* env, tag_t tag
     tag = env->current_tag;
   trigger_t* input_port_action = action_for_port(port_id)->trigger;
   int comparison = lf_tag_compare(tag, input_port_action->last_known_status_tag);
-  if (comparison == 0)
-    tag = lf_delay_tag(tag, 0LL);
   if (comparison >= 0) {
     LF_PRINT_LOG("Updating the last known status tag of port %d from " PRINTF_TAG " to " PRINTF_TAG ".", port_id,
                  input_port_action->last_known_status_tag.time - lf_time_start(),
-- 
2.43.0


From c2cbde44a901adfb875396441a72f16172b861a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:32:31 +0000
Subject: [PATCH 64/79] fix: RTI publishes the neighbors of a federate only
 when it knows them

---
 core/federated/RTI/rti_remote.c | 73 +++++++++++++++++++--------------
 1 file changed, 43 insertions(+), 30 deletions(-)

diff --git a/core/federated/RTI/rti_remote.c b/core/federated/RTI/rti_remote.c
index 21c35ea..9a6f50e 100644
--- a/core/federated/RTI/rti_remote.c
+++ b/core/federated/RTI/rti_remote.c
@@ -1410,39 +1410,37 @@ static int receive_connection_information(int* socket_id, uint16_t fed_id) {
   } else {
     federate_info_t* fed = GET_FED_INFO(fed_id);
     // Read the number of upstream and downstream connections
-    fed->enclave.num_upstream = extract_int32(&(connection_info_header[1]));
-    fed->enclave.num_downstream = extract_int32(&(connection_info_header[1 + sizeof(int32_t)]));
-    LF_PRINT_DEBUG("RTI got %d upstreams and %d downstreams from federate %d.", fed->enclave.num_upstream,
-                   fed->enclave.num_downstream, fed_id);
+    int32_t num_upstream = extract_int32(&(connection_info_header[1]));
+    int32_t num_downstream = extract_int32(&(connection_info_header[1 + sizeof(int32_t)]));
+    LF_PRINT_DEBUG("RTI got %d upstreams and %d downstreams from federate %d.", num_upstream,
+                   num_downstream, fed_id);
 
     // There is at most one entry for each federate.
-    if (fed->enclave.num_upstream < 0 || fed->enclave.num_upstream > rti_remote->base.number_of_scheduling_nodes ||
-        fed->enclave.num_downstream < 0 || fed->enclave.num_downstream > rti_remote->base.number_of_scheduling_nodes) {
+    if (num_upstream < 0 || num_upstream > rti_remote->base.number_of_scheduling_nodes ||
+        num_downstream < 0 || num_downstream > rti_remote->base.number_of_scheduling_nodes) {
       lf_print_error("RTI received an invalid neighbor structure from federate %d. Rejecting federate.", fed_id);
       send_reject(socket_id, UNEXPECTED_MESSAGE);
       return 0;
     }
 
     // Allocate memory for the upstream and downstream pointers
-    if (fed->enclave.num_upstream > 0) {
-      fed->enclave.upstream = (uint16_t*)malloc(sizeof(uint16_t) * fed->enclave.num_upstream);
-      LF_ASSERT_NON_NULL(fed->enclave.upstream);
+    uint16_t* upstream = NULL;
+    interval_t* upstream_delay = NULL;
+    uint16_t* downstream = NULL;
+    if (num_upstream > 0) {
+      upstream = (uint16_t*)malloc(sizeof(uint16_t) * num_upstream);
+      LF_ASSERT_NON_NULL(upstream);
       // Allocate memory for the upstream delay pointers
-      fed->enclave.upstream_delay = (interval_t*)malloc(sizeof(interval_t) * fed->enclave.num_upstream);
-      LF_ASSERT_NON_NULL(fed->enclave.upstream_delay);
-    } else {
-      fed->enclave.upstream = (uint16_t*)NULL;
-      fed->enclave.upstream_delay = (interval_t*)NULL;
+      upstream_delay = (interval_t*)malloc(sizeof(interval_t) * num_upstream);
+      LF_ASSERT_NON_NULL(upstream_delay);
     }
-    if (fed->enclave.num_downstream > 0) {
-      fed->enclave.downstream = (uint16_t*)malloc(sizeof(uint16_t) * fed->enclave.num_downstream);
-      LF_ASSERT_NON_NULL(fed->enclave.downstream);
-    } else {
-      fed->enclave.downstream = (uint16_t*)NULL;
+    if (num_downstream > 0) {
+      downstream = (uint16_t*)malloc(sizeof(uint16_t) * num_downstream);
+      LF_ASSERT_NON_NULL(downstream);
     }
 
-    size_t connections_info_body_size = ((sizeof(uint16_t) + sizeof(int64_t)) * fed->enclave.num_upstream) +
-                                        (sizeof(uint16_t) * fed->enclave.num_downstream);
+    size_t connections_info_body_size = ((sizeof(uint16_t) + sizeof(int64_t)) * num_upstream) +
+                                        (sizeof(uint16_t) * num_downstream);
     unsigned char* connections_info_body = NULL;
     if (connections_info_body_size > 0) {
       connections_info_body = (unsigned char*)malloc(connections_info_body_size);
@@ -1450,21 +1448,24 @@ static int receive_connection_information(int* socket_id, uint16_t fed_id) {
       if (read_from_socket_close_on_error(socket_id, connections_info_body_size, connections_info_body)) {
         lf_print_error("RTI failed to read MSG_TYPE_NEIGHBOR_STRUCTURE message body from federate %d.", fed_id);
         free(connections_info_body);
+        free(upstream);
+        free(upstream_delay);
+        free(downstream);
         return 0;
       }
       // Keep track of where we are in the buffer
       size_t message_head = 0;
       // First, read the info about upstream federates
-      for (int i = 0; i < fed->enclave.num_upstream; i++) {
-        fed->enclave.upstream[i] = extract_uint16(&(connections_info_body[message_head]));
+      for (int i = 0; i < num_upstream; i++) {
+        upstream[i] = extract_uint16(&(connections_info_body[message_head]));
         message_head += sizeof(uint16_t);
-        fed->enclave.upstream_delay[i] = extract_int64(&(connections_info_body[message_head]));
+        upstream_delay[i] = extract_int64(&(connections_info_body[message_head]));
         message_head += sizeof(int64_t);
       }
 
       // Next, read the info about downstream federates
-      for (int i = 0; i < fed->enclave.num_downstream; i++) {
-        fed->enclave.downstream[i] = extract_uint16(&(connections_info_body[message_head]));
+      for (int i = 0; i < num_downstream; i++) {
+        downstream[i] = extract_uint16(&(connections_info_body[message_head]));
         message_head += sizeof(uint16_t);
       }
 
@@ -1472,18 +1473,30 @@ static int receive_connection_information(int* socket_id, uint16_t fed_id) {
 
       // Every neighbor has to be a member of the federation.
       bool valid = true;
-      for (int i = 0; i < fed->enclave.num_upstream; i++) {
-        valid = valid && fed->enclave.upstream[i] < rti_remote->base.number_of_scheduling_nodes;
+      for (int i = 0; i < num_upstream; i++) {
+        valid = valid && upstream[i] < rti_remote->base.number_of_scheduling_nodes;
       }
-      for (int i = 0; i < fed->enclave.num_downstream; i++) {
-        valid = valid && fed->enclave.downstream[i] < rti_remote->base.number_of_scheduling_nodes;
+      for (int i = 0; i < num_downstream; i++) {
+        valid = valid && downstream[i] < rti_remote->base.number_of_scheduling_nodes;
       }
       if (!valid) {
         lf_print_error("RTI received an invalid neighbor from federate %d. Rejecting federate.", fed_id);
         send_reject(socket_id, UNEXPECTED_MESSAGE);
+        free(upstream);
+        free(upstream_delay);
+        free(downstream);
         return 0;
       }
     }
+
+    // Another federate may leave, and its neighbors be looked at, at any time.
+    LF_MUTEX_LOCK(&rti_mutex);
+    fed->enclave.upstream = upstream;
+    fed->enclave.upstream_delay = upstream_delay;
+    fed->enclave.downstream = downstream;
+    fed->enclave.num_upstream = num_upstream;
+    fed->enclave.num_downstream = num_downstream;
+    LF_MUTEX_UNLOCK(&rti_mutex);
   }
   LF_PRINT_DEBUG("RTI received neighbor structure from federate %d.", fed_id);
   return 1;
-- 
2.43.0


From 004c4a5f0450c11d74683137bd57a583139d794f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:01:18 +0000
Subject: [PATCH 65/79] fix: RTI clock synchronization does not begin before
 the start time

---
 core/federated/RTI/rti_remote.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/core/federated/RTI/rti_remote.c b/core/federated/RTI/rti_remote.c
index 9a6f50e..ce8b860 100644
--- a/core/federated/RTI/rti_remote.c
+++ b/core/federated/RTI/rti_remote.c
@@ -926,8 +926,8 @@ void* clock_synchronization_thread(void* noargs) {
   LF_MUTEX_UNLOCK(&rti_mutex);
 
   // Wait until the start time before starting clock synchronization.
-  // The above wait ensures that start_time has been set.
-  interval_t ns_to_wait = start_time - lf_time_physical();
+  // The above wait ensures that max_start_time is final (start_time may not have been set yet).
+  interval_t ns_to_wait = rti_remote->max_start_time + DELAY_START - lf_time_physical();
 
   if (ns_to_wait > 0LL) {
     lf_sleep(ns_to_wait);
-- 
2.43.0


From 8265ea004185920bf0a624ce8f87f9bb2cfc0863 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:01:18 +0000
Subject: [PATCH 66/79] fix: RTI does not wait for clock synchronization
 replies of federates that do not take part

---
 core/federated/RTI/rti_remote.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/core/federated/RTI/rti_remote.c b/core/federated/RTI/rti_remote.c
index ce8b860..a4dc221 100644
--- a/core/federated/RTI/rti_remote.c
+++ b/core/federated/RTI/rti_remote.c
@@ -1567,11 +1567,14 @@ static int receive_udp_message_and_set_up_clock_sync(int* socket_id, uint16_t fe
       }
       if (rti_remote->clock_sync_global_status >= clock_sync_on) {
         // If no runtime clock sync, no need to set up the UDP port.
-        if (federate_UDP_port_number > 0) {
+        if (federate_UDP_port_number > 0 && federate_UDP_port_number != UINT16_MAX) {
           // Initialize the UDP_addr field of the federate struct
           fed->UDP_addr.sin_family = AF_INET;
           fed->UDP_addr.sin_port = htons(federate_UDP_port_number);
           fed->UDP_addr.sin_addr = fed->server_ip_addr;
+        } else {
+          // The federate does not listen to clock synchronization messages at runtime.
+          fed->clock_synchronization_enabled = false;
         }
       } else {
         // Disable clock sync after initial round.
-- 
2.43.0


From 97ab6162f895b200b6f5ca1cebd081e6b0d36a40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:01:18 +0000
Subject: [PATCH 67/79] fix: a lost or malformed datagram does not stop clock
 synchronization in the RTI

---
 core/federated/RTI/rti_remote.c           |  9 +++++----
 core/federated/clock-sync.c               |  2 +-
 core/federated/network/net_util.c         | 21 +++++++++++++++++++++
 include/core/federated/network/net_util.h | 11 +++++++++++
 4 files changed, 38 insertions(+), 5 deletions(-)

diff --git a/core/federated/RTI/rti_remote.c b/core/federated/RTI/rti_remote.c
index a4dc221..ea1c953 100644
--- a/core/federated/RTI/rti_remote.c
+++ b/core/federated/RTI/rti_remote.c
@@ -949,6 +949,8 @@ void* clock_synchronization_thread(void* noargs) {
       } else if (!fed->clock_synchronization_enabled) {
         continue;
       }
+      // A round that fails does not end clock synchronization.
+      any_federates_connected = true;
       // Send the RTI's current physical time to the federate
       // Send on UDP.
       LF_PRINT_DEBUG("RTI sending T1 message to initiate clock sync round.");
@@ -963,7 +965,7 @@ void* clock_synchronization_thread(void* noargs) {
       int remaining_attempts = 5;
       while (remaining_attempts > 0) {
         remaining_attempts--;
-        int read_failed = read_from_socket(rti_remote->socket_descriptor_UDP, message_size, buffer);
+        int read_failed = read_datagram_from_socket(rti_remote->socket_descriptor_UDP, message_size, buffer);
         // If any errors occur, either discard the message or the clock sync round.
         if (!read_failed) {
           if (buffer[0] == MSG_TYPE_CLOCK_SYNC_T3) {
@@ -988,6 +990,8 @@ void* clock_synchronization_thread(void* noargs) {
                              buffer[0], MSG_TYPE_CLOCK_SYNC_T3, fed->enclave.id);
             continue;
           }
+        } else if (read_failed > 0) {
+          lf_print_warning("Clock sync: UDP message of unexpected size. Discarding message.");
         } else {
           lf_print_warning("Clock sync: Read from UDP socket failed: %s. "
                            "Skipping clock sync round for federate %d.",
@@ -995,9 +999,6 @@ void* clock_synchronization_thread(void* noargs) {
           remaining_attempts = -1;
         }
       }
-      if (remaining_attempts > 0) {
-        any_federates_connected = true;
-      }
     }
   }
   return NULL;
diff --git a/core/federated/clock-sync.c b/core/federated/clock-sync.c
index b18efb6..3e042a0 100644
--- a/core/federated/clock-sync.c
+++ b/core/federated/clock-sync.c
@@ -344,7 +344,7 @@ void handle_T4_clock_sync_message(unsigned char* buffer, int socket, instant_t r
   if (socket == _lf_rti_socket_UDP) {
     // Read the coded probe message.
     // We can reuse the same buffer.
-    int read_failed = read_from_socket(socket, 1 + sizeof(instant_t), buffer);
+    int read_failed = read_datagram_from_socket(socket, 1 + sizeof(instant_t), buffer);
 
     instant_t r5 = lf_time_physical();
 
diff --git a/core/federated/network/net_util.c b/core/federated/network/net_util.c
index 61d4804..48ca022 100644
--- a/core/federated/network/net_util.c
+++ b/core/federated/network/net_util.c
@@ -116,6 +116,27 @@ int read_from_socket(int socket, size_t num_bytes, unsigned char* buffer) {
   return 0;
 }
 
+int read_datagram_from_socket(int socket, size_t num_bytes, unsigned char* buffer) {
+  if (socket < 0) {
+    errno = EBADF;
+    return -1;
+  }
+  // Leave room for one more byte in order to recognize a datagram that is too long.
+  unsigned char datagram[num_bytes + 1];
+  ssize_t bytes_read;
+  do {
+    bytes_read = recv(socket, datagram, num_bytes + 1, 0);
+  } while (bytes_read < 0 && errno == EINTR);
+  if (bytes_read < 0) {
+    return -1;
+  }
+  if (bytes_read != (ssize_t)num_bytes) {
+    return 1;
+  }
+  memcpy(buffer, datagram, num_bytes);
+  return 0;
+}
+
 int read_from_socket_close_on_error(int* socket, size_t num_bytes, unsigned char* buffer) {
   assert(socket);
   int read_failed = read_from_socket(*socket, num_bytes, buffer);
diff --git a/include/core/federated/network/net_util.h b/include/core/federated/network/net_util.h
index 24b4782..1e205f6 100644
--- a/include/core/federated/network/net_util.h
+++ b/include/core/federated/network/net_util.h
@@ -95,6 +95,17 @@ int create_real_time_tcp_socket_errexit();
  */
 int read_from_socket(int socket, size_t num_bytes, unsigned char* buffer);
 
+/**
+ * Read one datagram from the specified socket into the specified buffer.
+ * In contrast to read_from_socket, this does not try again when no datagram arrives within
+ * the timeout of the socket, and bytes of different datagrams are never combined.
+ * @param socket The socket ID.
+ * @param num_bytes The number of bytes of the expected datagram.
+ * @param buffer The buffer into which to put the bytes.
+ * @return 0 for success, 1 if the datagram has another size, and -1 for an error or timeout.
+ */
+int read_datagram_from_socket(int socket, size_t num_bytes, unsigned char* buffer);
+
 /**
  * Read the specified number of bytes to the specified socket using read_from_socket
  * and close the socket if an error occurs. If an error occurs, this will change the
-- 
2.43.0


From 26a8cedcf97462f52ab6b406761e283c744c058b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:01:18 +0000
Subject: [PATCH 68/79] fix: a malformed datagram or a stale errno does not end
 clock synchronization in a federate

---
 core/federated/clock-sync.c | 33 +++++++++++++++++----------------
 1 file changed, 17 insertions(+), 16 deletions(-)

diff --git a/core/federated/clock-sync.c b/core/federated/clock-sync.c
index 3e042a0..c8852ca 100644
--- a/core/federated/clock-sync.c
+++ b/core/federated/clock-sync.c
@@ -456,31 +456,32 @@ void* listen_to_rti_UDP_thread(void* args) {
   while (1) {
     struct sockaddr_in RTI_UDP_addr;
     socklen_t RTI_UDP_addr_length = sizeof(RTI_UDP_addr);
-    ssize_t bytes_read = 0;
-    // Read from the UDP socket
+    ssize_t bytes_read;
+    // Read one datagram from the UDP socket
     do {
-      ssize_t bytes = recvfrom(_lf_rti_socket_UDP,                // The UDP socket
-                               &buffer[bytes_read],               // The buffer to read into
-                               message_size - (size_t)bytes_read, // Number of bytes to read
-                               MSG_WAITALL,                       // Read the entire datagram
-                               (struct sockaddr*)&RTI_UDP_addr,   // Record the RTI's address
-                               &RTI_UDP_addr_length);             // The RTI's address length
-      // Try reading again if errno indicates the need to try again and there are more
-      // bytes to read.
-      if (bytes > 0) {
-        bytes_read += bytes;
-      }
-    } while ((errno == EAGAIN || errno == EWOULDBLOCK) && bytes_read < (ssize_t)message_size);
+      bytes_read = recvfrom(_lf_rti_socket_UDP,              // The UDP socket
+                            buffer,                          // The buffer to read into
+                            message_size,                    // Number of bytes to read
+                            0,                               // No flags
+                            (struct sockaddr*)&RTI_UDP_addr, // Record the RTI's address
+                            &RTI_UDP_addr_length);           // The RTI's address length
+      // Try reading again if errno indicates the need to try again.
+    } while (bytes_read < 0 && (errno == EAGAIN || errno == EWOULDBLOCK || errno == EINTR));
 
     // Get local physical time before doing anything else.
     instant_t receive_time = lf_time_physical();
 
-    if (bytes_read < (ssize_t)message_size) {
-      // Either the socket has closed or the RTI has sent EOF.
+    if (bytes_read < 0) {
+      // The socket has closed.
       // Exit the thread to halt clock synchronization.
       lf_print_error("Clock sync: UDP socket to RTI is broken: %s. Clock sync is now disabled.", strerror(errno));
       break;
     }
+    if (bytes_read < (ssize_t)message_size) {
+      // This is not a clock synchronization message.
+      lf_print_warning("Clock sync: Received a UDP message that is too short. Discarding the message.");
+      continue;
+    }
     LF_PRINT_DEBUG("Clock sync: Received UDP message %u from RTI on port %u.", buffer[0], ntohs(RTI_UDP_addr.sin_port));
 
     // Handle the message
-- 
2.43.0


From b2aa48e98a15a4252ddad7daf9c65f6d37058f17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:01:18 +0000
Subject: [PATCH 69/79] fix: RTI waits for its clock synchronization thread
 before it frees the federates

---
 core/federated/RTI/rti_remote.c | 31 ++++++++++++++++++++++++++++---
 core/federated/RTI/rti_remote.h |  3 +++
 2 files changed, 31 insertions(+), 3 deletions(-)

diff --git a/core/federated/RTI/rti_remote.c b/core/federated/RTI/rti_remote.c
index ea1c953..0c3f6b0 100644
--- a/core/federated/RTI/rti_remote.c
+++ b/core/federated/RTI/rti_remote.c
@@ -27,6 +27,7 @@
  */
 
 #include "rti_remote.h"
+#include "clock.h"
 #include "net_util.h"
 #include <string.h>
 
@@ -915,6 +916,18 @@ void handle_physical_clock_sync_message(federate_info_t* my_fed, socket_type_t s
   LF_MUTEX_UNLOCK(&rti_mutex);
 }
 
+/**
+ * Wait for the specified time, or until all federates have exited.
+ */
+static void wait_unless_all_federates_exited(interval_t duration) {
+  LF_MUTEX_LOCK(&rti_mutex);
+  instant_t wakeup_time = lf_time_add(lf_time_physical(), duration);
+  while (!rti_remote->all_federates_exited && lf_time_physical() < wakeup_time) {
+    lf_clock_cond_timedwait(&received_start_times, wakeup_time);
+  }
+  LF_MUTEX_UNLOCK(&rti_mutex);
+}
+
 void* clock_synchronization_thread(void* noargs) {
   initialize_lf_thread_id();
   // Wait until all federates have been notified of the start time.
@@ -930,14 +943,17 @@ void* clock_synchronization_thread(void* noargs) {
   interval_t ns_to_wait = rti_remote->max_start_time + DELAY_START - lf_time_physical();
 
   if (ns_to_wait > 0LL) {
-    lf_sleep(ns_to_wait);
+    wait_unless_all_federates_exited(ns_to_wait);
   }
 
   // Initiate a clock synchronization every rti->clock_sync_period_ns
   bool any_federates_connected = true;
   while (any_federates_connected) {
     // Sleep
-    lf_sleep(rti_remote->clock_sync_period_ns); // Can be interrupted
+    wait_unless_all_federates_exited(rti_remote->clock_sync_period_ns);
+    if (rti_remote->all_federates_exited) {
+      break;
+    }
     any_federates_connected = false;
     for (int fed_id = 0; fed_id < rti_remote->base.number_of_scheduling_nodes; fed_id++) {
       federate_info_t* fed = GET_FED_INFO(fed_id);
@@ -1770,7 +1786,8 @@ void lf_connect_to_federates(int socket_descriptor) {
       }
     }
     if (rti_remote->final_port_UDP != UINT16_MAX && clock_sync_enabled) {
-      lf_thread_create(&rti_remote->clock_thread, clock_synchronization_thread, NULL);
+      rti_remote->clock_thread_created =
+          lf_thread_create(&rti_remote->clock_thread, clock_synchronization_thread, NULL) == 0;
     }
   }
 }
@@ -1858,7 +1875,15 @@ void wait_for_federates(int socket_descriptor) {
     lf_print("RTI: Federate %d thread exited.", fed->enclave.id);
   }
 
+  LF_MUTEX_LOCK(&rti_mutex);
   rti_remote->all_federates_exited = true;
+  lf_cond_broadcast(&received_start_times);
+  LF_MUTEX_UNLOCK(&rti_mutex);
+
+  // The clock synchronization thread uses the information on the federates, which is going to be freed.
+  if (rti_remote->clock_thread_created) {
+    lf_thread_join(rti_remote->clock_thread, &thread_exit_status);
+  }
 
   // Shutdown and close the socket that is listening for incoming connections
   // so that the accept() call in respond_to_erroneous_connections returns.
diff --git a/core/federated/RTI/rti_remote.h b/core/federated/RTI/rti_remote.h
index 8d3012b..6b906ac 100644
--- a/core/federated/RTI/rti_remote.h
+++ b/core/federated/RTI/rti_remote.h
@@ -134,6 +134,9 @@ typedef struct rti_remote_t {
   /* Thread performing PTP clock sync sessions periodically. */
   lf_thread_t clock_thread;
 
+  // Boolean indicating that the clock synchronization thread has been created.
+  bool clock_thread_created;
+
   /**
    * Indicates whether clock sync is globally on for the federation. Federates
    * can still selectively disable clock synchronization if they wanted to.
-- 
2.43.0


From 079b5c71031cc82dfc5138970432d25bb4dd2d37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:03:06 +0000
Subject: [PATCH 70/79] fix: RTI discards clock synchronization replies of
 earlier rounds

---
 core/federated/RTI/rti_remote.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/core/federated/RTI/rti_remote.c b/core/federated/RTI/rti_remote.c
index 0c3f6b0..33bbd0e 100644
--- a/core/federated/RTI/rti_remote.c
+++ b/core/federated/RTI/rti_remote.c
@@ -967,14 +967,18 @@ void* clock_synchronization_thread(void* noargs) {
       }
       // A round that fails does not end clock synchronization.
       any_federates_connected = true;
+      size_t message_size = 1 + sizeof(int32_t);
+      unsigned char buffer[message_size];
+      // Discard replies that belong to earlier rounds (for example duplicated datagrams).
+      // A reply must not be mistaken for the reply to the message that is sent next.
+      while (recv(rti_remote->socket_descriptor_UDP, buffer, message_size, MSG_DONTWAIT) > 0) {
+      }
       // Send the RTI's current physical time to the federate
       // Send on UDP.
       LF_PRINT_DEBUG("RTI sending T1 message to initiate clock sync round.");
       send_physical_clock(MSG_TYPE_CLOCK_SYNC_T1, fed, UDP);
 
       // Listen for reply message, which should be T3.
-      size_t message_size = 1 + sizeof(int32_t);
-      unsigned char buffer[message_size];
       // Maximum number of messages that we discard before giving up on this cycle.
       // If the T3 message from this federate does not arrive and we keep receiving
       // other messages, then give up on this federate and move to the next federate.
-- 
2.43.0


From 20db988544aaa5f8d8d626826d2f24e060bdf465 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:05:55 +0000
Subject: [PATCH 71/79] fix: clock synchronization does not measure with a
 clock that stands still

---
 core/federated/clock-sync.c | 22 +++++++++++++++++-----
 1 file changed, 17 insertions(+), 5 deletions(-)

diff --git a/core/federated/clock-sync.c b/core/federated/clock-sync.c
index c8852ca..2030647 100644
--- a/core/federated/clock-sync.c
+++ b/core/federated/clock-sync.c
@@ -84,6 +84,18 @@ static void adjust_lf_clock_sync_offset(interval_t adjustment) {
   lf_atomic_fetch_add64(&_lf_clock_sync_offset, adjustment);
 }
 
+/**
+ * Read the physical clock including the clock synchronization offset.
+ * In contrast to lf_time_physical(), the result is not forced to be monotonic. After the clock has been
+ * set back, lf_time_physical() stands still, and measurements that use it would set the clock back too far.
+ */
+static instant_t read_synchronized_clock(void) {
+  instant_t now;
+  LF_ASSERTN(_lf_clock_gettime(&now), "Failed to read physical clock.");
+  clock_sync_add_offset(&now);
+  return now;
+}
+
 #ifdef _LF_CLOCK_SYNC_COLLECT_STATS
 
 #include <math.h> // For sqrtl()
@@ -220,7 +232,7 @@ void synchronize_initial_physical_clock_with_rti(int* rti_socket_TCP) {
                                    _lf_my_fed_id);
 
     // Get local physical time before doing anything else.
-    instant_t receive_time = lf_time_physical();
+    instant_t receive_time = read_synchronized_clock();
 
     // Check that this is the T1 message.
     if (buffer[0] != MSG_TYPE_CLOCK_SYNC_T1) {
@@ -289,7 +301,7 @@ int handle_T1_clock_sync_message(unsigned char* buffer, int socket, instant_t t2
   // Measure the time _after_ the write on the assumption that the read
   // from the socket, which occurs before this function is called, takes
   // about the same amount of time as the write of the reply.
-  _lf_rti_socket_stat.local_delay = lf_time_physical() - t2;
+  _lf_rti_socket_stat.local_delay = read_synchronized_clock() - t2;
   return 0;
 }
 
@@ -346,7 +358,7 @@ void handle_T4_clock_sync_message(unsigned char* buffer, int socket, instant_t r
     // We can reuse the same buffer.
     int read_failed = read_datagram_from_socket(socket, 1 + sizeof(instant_t), buffer);
 
-    instant_t r5 = lf_time_physical();
+    instant_t r5 = read_synchronized_clock();
 
     if (read_failed || buffer[0] != MSG_TYPE_CLOCK_SYNC_CODED_PROBE) {
       lf_print_warning("Clock sync: Did not get the expected coded probe message from the RTI. "
@@ -377,7 +389,7 @@ void handle_T4_clock_sync_message(unsigned char* buffer, int socket, instant_t r
     }
     // Apply a jitter attenuator to the estimated clock error to prevent
     // large jumps in the underlying clock.
-    // Note that estimated_clock_error is calculated using lf_time_physical() which includes
+    // Note that estimated_clock_error is calculated using read_synchronized_clock() which includes
     // the clock sync adjustment.
     adjustment = estimated_clock_error / _LF_CLOCK_SYNC_ATTENUATION;
   } else {
@@ -469,7 +481,7 @@ void* listen_to_rti_UDP_thread(void* args) {
     } while (bytes_read < 0 && (errno == EAGAIN || errno == EWOULDBLOCK || errno == EINTR));
 
     // Get local physical time before doing anything else.
-    instant_t receive_time = lf_time_physical();
+    instant_t receive_time = read_synchronized_clock();
 
     if (bytes_read < 0) {
       // The socket has closed.
-- 
2.43.0


From e2c2660177270391f66c0b183803419460b188d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:33:25 +0000
Subject: [PATCH 72/79] fix: STP violation handled in a directly executed
 reaction is not passed to downstream reactions

---
 core/reactor_common.c | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/core/reactor_common.c b/core/reactor_common.c
index a6af55c..7c941a9 100644
--- a/core/reactor_common.c
+++ b/core/reactor_common.c
@@ -840,13 +840,15 @@ void schedule_output_reactions(environment_t* env, reaction_t* reaction, int wor
         LF_PRINT_LOG("Invoke tardiness handler.");
         _lf_invoke_violation_handler(downstream_to_execute_now, handler);
 
+        // Reset the tardiness because it has been dealt with in the
+        // STP handler. This has to precede scheduling the output reactions because
+        // downstream reactions inherit the tardiness.
+        downstream_to_execute_now->is_STP_violated = false;
+
         // If the reaction produced outputs, put the resulting
         // triggered reactions into the queue or execute them directly if possible.
         schedule_output_reactions(env, downstream_to_execute_now, worker);
 
-        // Reset the tardiness because it has been dealt with in the
-        // STP handler
-        downstream_to_execute_now->is_STP_violated = false;
         LF_PRINT_DEBUG("Reset reaction's is_STP_violated field to false: %s", downstream_to_execute_now->name);
       }
     }
-- 
2.43.0


From b4ad457ded81f8175f92597d6486ab795c97a27d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:33:25 +0000
Subject: [PATCH 73/79] fix: STP violation of a reaction is not erased by
 another upstream reaction

---
 core/reactor_common.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/core/reactor_common.c b/core/reactor_common.c
index 7c941a9..9dfa934 100644
--- a/core/reactor_common.c
+++ b/core/reactor_common.c
@@ -760,8 +760,9 @@ void schedule_output_reactions(environment_t* env, reaction_t* reaction, int wor
           for (int k = 0; k < trigger->number_of_reactions; k++) {
             reaction_t* downstream_reaction = trigger->reactions[k];
 #ifdef FEDERATED_DECENTRALIZED // Only pass down tardiness for federated LF programs
-            // Set the is_STP_violated for the downstream reaction
-            if (downstream_reaction != NULL) {
+            // Set the is_STP_violated for the downstream reaction. A violation that
+            // the downstream reaction has from another trigger remains.
+            if (downstream_reaction != NULL && inherited_STP_violation) {
               downstream_reaction->is_STP_violated = inherited_STP_violation;
               LF_PRINT_DEBUG("Passing is_STP_violated of %d to the downstream reaction: %s",
                              downstream_reaction->is_STP_violated, downstream_reaction->name);
-- 
2.43.0


From 4bfd7c66565aae8a7a53c043af53140bf7de0872 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:34:24 +0000
Subject: [PATCH 74/79] fix: intended tag of the trigger is not modified while
 reactions may read it

---
 core/federated/federate.c     | 25 ++++++++++---------------
 core/reactor_common.c         | 13 ++++++++++++-
 include/core/reactor_common.h | 15 +++++++++++++++
 3 files changed, 37 insertions(+), 16 deletions(-)

diff --git a/core/federated/federate.c b/core/federated/federate.c
index 0f34e53..a3f7671 100644
--- a/core/federated/federate.c
+++ b/core/federated/federate.c
@@ -365,13 +365,6 @@ static trigger_handle_t schedule_message_received_from_network_locked(environmen
   // in the future relative to the tag of this
   // federate. By default, assume it is not.
   bool message_tag_is_in_the_future = lf_tag_compare(tag, env->current_tag) > 0;
-  // Assign the intended tag temporarily to restore later.
-  tag_t previous_intended_tag = trigger->intended_tag;
-  trigger->intended_tag = tag;
-
-  // Calculate the extra_delay required to be passed
-  // to the schedule function.
-  interval_t extra_delay = tag.time - env->current_tag.time;
   if (!message_tag_is_in_the_future && env->execution_started) {
 #ifdef FEDERATED_CENTRALIZED
     // If the coordination is centralized, receiving a message
@@ -384,21 +377,23 @@ static trigger_handle_t schedule_message_received_from_network_locked(environmen
         "Centralized coordination should not have these types of messages.",
         env->current_tag.time - start_time, env->current_tag.microstep, tag.time - start_time, tag.microstep);
 #else
-    // Set the delay back to 0
-    extra_delay = 0LL;
-    LF_PRINT_LOG("Calling schedule with 0 delay and intended tag " PRINTF_TAG ".",
-                 trigger->intended_tag.time - start_time, trigger->intended_tag.microstep);
-    return_value = lf_schedule_trigger(env, trigger, extra_delay, token);
+    // The message is late. Schedule it one microstep later than the current tag, or, if there is already an
+    // event for the same trigger at that tag, after that event. The intended tag is passed along rather than
+    // assigned to the trigger because reactions that are now executing may read the one of the trigger.
+    LF_PRINT_LOG("Scheduling one microstep later with intended tag " PRINTF_TAG ".", tag.time - start_time,
+                 tag.microstep);
+    tag_t next_tag = env->current_tag;
+    next_tag.microstep++;
+    return_value = _lf_schedule_at_tag_with_intended_tag(env, trigger, next_tag, tag, token);
 #endif
   } else {
     // In case the message is in the future, call
     // _lf_schedule_at_tag() so that the microstep is respected.
     LF_PRINT_LOG("Received a message that is (" PRINTF_TIME " nanoseconds, " PRINTF_MICROSTEP " microsteps) "
                  "in the future.",
-                 extra_delay, tag.microstep - env->current_tag.microstep);
-    return_value = _lf_schedule_at_tag(env, trigger, tag, token);
+                 tag.time - env->current_tag.time, tag.microstep - env->current_tag.microstep);
+    return_value = _lf_schedule_at_tag_with_intended_tag(env, trigger, tag, tag, token);
   }
-  trigger->intended_tag = previous_intended_tag;
   // Notify the main thread in case it is waiting for physical time to elapse.
   LF_PRINT_DEBUG("Broadcasting notification that event queue changed.");
   lf_cond_broadcast(&env->event_q_changed);
diff --git a/core/reactor_common.c b/core/reactor_common.c
index 9dfa934..03a1166 100644
--- a/core/reactor_common.c
+++ b/core/reactor_common.c
@@ -480,6 +480,17 @@ void lf_replace_token(event_t* event, lf_token_t* token) {
 }
 
 trigger_handle_t _lf_schedule_at_tag(environment_t* env, trigger_t* trigger, tag_t tag, lf_token_t* token) {
+#ifdef FEDERATED_DECENTRALIZED
+  tag_t intended_tag = trigger->intended_tag;
+#else
+  tag_t intended_tag = tag;
+#endif
+  return _lf_schedule_at_tag_with_intended_tag(env, trigger, tag, intended_tag, token);
+}
+
+trigger_handle_t _lf_schedule_at_tag_with_intended_tag(environment_t* env, trigger_t* trigger, tag_t tag,
+                                                       tag_t intended_tag, lf_token_t* token) {
+  (void)intended_tag; // Used only with decentralized coordination.
   assert(env != GLOBAL_ENVIRONMENT);
   tag_t current_logical_tag = env->current_tag;
 
@@ -520,7 +531,7 @@ trigger_handle_t _lf_schedule_at_tag(environment_t* env, trigger_t* trigger, tag
 
 #ifdef FEDERATED_DECENTRALIZED
   // Set the intended tag
-  e->intended_tag = trigger->intended_tag;
+  e->intended_tag = intended_tag;
 #endif
 
   event_t* found = (event_t*)pqueue_tag_find_equal_same_tag(env->event_q, (pqueue_tag_element_t*)e);
diff --git a/include/core/reactor_common.h b/include/core/reactor_common.h
index e9d28ba..0e22688 100644
--- a/include/core/reactor_common.h
+++ b/include/core/reactor_common.h
@@ -234,6 +234,21 @@ event_t* _lf_create_dummy_events(environment_t* env, tag_t tag);
  */
 trigger_handle_t _lf_schedule_at_tag(environment_t* env, trigger_t* trigger, tag_t tag, lf_token_t* token);
 
+/**
+ * @brief Schedule an event at a specific tag (time, microstep) that carries the specified intended tag.
+ *
+ * This is the same as _lf_schedule_at_tag except that the intended tag of the event, which matters only for
+ * decentralized coordination, is the specified one rather than the intended tag of the trigger.
+ *
+ * @param env Environment in which we are executing.
+ * @param trigger The trigger to be invoked at a later logical time.
+ * @param tag Logical tag of the event
+ * @param intended_tag The intended tag of the event.
+ * @param token The token wrapping the payload or NULL for no payload.
+ */
+trigger_handle_t _lf_schedule_at_tag_with_intended_tag(environment_t* env, trigger_t* trigger, tag_t tag,
+                                                       tag_t intended_tag, lf_token_t* token);
+
 /**
  * @brief Insert reactions triggered by trigger to the reaction queue.
  * @param env Environment in which we are executing.
-- 
2.43.0


From 510f12d755cb0785ee627cafb4deb68948b40e41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:35:08 +0000
Subject: [PATCH 75/79] fix: federate waits for the thread that sets ports
 absent before it frees the environment

---
 core/federated/federate.c         | 28 +++++++++++++++++++++++-----
 include/core/federated/federate.h |  6 ++++++
 2 files changed, 29 insertions(+), 5 deletions(-)

diff --git a/core/federated/federate.c b/core/federated/federate.c
index a3f7671..85c0ff4 100644
--- a/core/federated/federate.c
+++ b/core/federated/federate.c
@@ -1149,7 +1149,7 @@ static void* update_ports_from_staa_offsets(void* args) {
   environment_t* env;
   _lf_get_environments(&env);
   LF_MUTEX_LOCK(&env->mutex);
-  while (1) {
+  while (!_fed.staaSetter_exit) {
     LF_PRINT_DEBUG("**** (update thread) starting");
     tag_t tag_when_started_waiting = lf_tag(env);
     for (size_t i = 0; i < staa_lst_size; ++i) {
@@ -1175,7 +1175,7 @@ static void* update_ports_from_staa_offsets(void* args) {
       if (wait_time < 5 * MIN_SLEEP_DURATION) {
         wait_until_time += 5 * MIN_SLEEP_DURATION;
       }
-      while (a_port_is_unknown(staa_elem)) {
+      while (!_fed.staaSetter_exit && a_port_is_unknown(staa_elem)) {
         LF_PRINT_DEBUG("**** (update thread) waiting until: " PRINTF_TIME, wait_until_time - lf_time_start());
         if (wait_until(wait_until_time, &lf_port_status_changed)) {
           // Specified timeout time was reached.
@@ -1212,7 +1212,7 @@ static void* update_ports_from_staa_offsets(void* args) {
         break;
     }
     // If the tag has advanced, start over.
-    if (lf_tag_compare(lf_tag(env), tag_when_started_waiting) != 0)
+    if (_fed.staaSetter_exit || lf_tag_compare(lf_tag(env), tag_when_started_waiting) != 0)
       continue;
 
     // At this point, the current tag is the same as when we started waiting
@@ -1248,7 +1248,7 @@ static void* update_ports_from_staa_offsets(void* args) {
     }
 
     // Wait until we progress to a new tag.
-    while (lf_tag_compare(lf_tag(env), tag_when_started_waiting) == 0) {
+    while (!_fed.staaSetter_exit && lf_tag_compare(lf_tag(env), tag_when_started_waiting) == 0) {
       // The following will release the env->mutex while waiting.
       LF_PRINT_DEBUG("**** (update thread) Waiting for tags to not match: " PRINTF_TAG ", " PRINTF_TAG,
                      lf_tag(env).time - lf_time_start(), lf_tag(env).microstep,
@@ -1261,6 +1261,7 @@ static void* update_ports_from_staa_offsets(void* args) {
                    tag_when_started_waiting.time - lf_time_start(), tag_when_started_waiting.microstep);
   }
   LF_MUTEX_UNLOCK(&env->mutex);
+  return NULL;
 }
 #endif // FEDERATED_DECENTRALIZED
 
@@ -1756,6 +1757,21 @@ void lf_terminate_execution(environment_t* env) {
     lf_thread_join(_fed.RTI_socket_listener, NULL);
   }
 
+#ifdef FEDERATED_DECENTRALIZED
+  // Wait for the thread that sets ports absent to exit because it uses the environment, which will be freed.
+  // For abnormal termination, there is no need for this (and the current thread may hold the mutex).
+  if (_lf_normal_termination && _fed.staaSetter_created) {
+    environment_t* top_level_env;
+    _lf_get_environments(&top_level_env);
+    LF_MUTEX_LOCK(&top_level_env->mutex);
+    _fed.staaSetter_exit = true;
+    lf_cond_broadcast(&lf_port_status_changed);
+    LF_MUTEX_UNLOCK(&top_level_env->mutex);
+    lf_thread_join(_fed.staaSetter, NULL);
+    _fed.staaSetter_created = false;
+  }
+#endif // FEDERATED_DECENTRALIZED
+
   // For abnormal termination, there is no need to free memory.
   if (_lf_normal_termination) {
     LF_PRINT_DEBUG("Freeing memory occupied by the federate.");
@@ -2738,7 +2754,9 @@ int lf_send_tagged_message(environment_t* env, interval_t additional_delay, int
 void lf_set_federation_id(const char* fid) { federation_metadata.federation_id = fid; }
 
 #ifdef FEDERATED_DECENTRALIZED
-void lf_spawn_staa_thread() { lf_thread_create(&_fed.staaSetter, update_ports_from_staa_offsets, NULL); }
+void lf_spawn_staa_thread() {
+  _fed.staaSetter_created = lf_thread_create(&_fed.staaSetter, update_ports_from_staa_offsets, NULL) == 0;
+}
 #endif // FEDERATED_DECENTRALIZED
 
 void lf_stall_advance_level_federation_locked(size_t level) {
diff --git a/include/core/federated/federate.h b/include/core/federated/federate.h
index 50c59da..bacebd4 100644
--- a/include/core/federated/federate.h
+++ b/include/core/federated/federate.h
@@ -182,6 +182,12 @@ typedef struct federate_instance_t {
    * aren't already known.
    */
   lf_thread_t staaSetter;
+
+  /** Whether the above thread has been created. */
+  bool staaSetter_created;
+
+  /** Set to true, while holding the environment mutex, to make the above thread exit. */
+  bool staaSetter_exit;
 #endif
 } federate_instance_t;
 
-- 
2.43.0


From fb97134dc787f85d3443dd0f06ca0fd533c1fc68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:38:52 +0000
Subject: [PATCH 76/79] fix: RTI does not grant tag advances after a stop
 request to federates with decentralized coordination

---
 core/federated/RTI/rti_remote.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/core/federated/RTI/rti_remote.c b/core/federated/RTI/rti_remote.c
index 33bbd0e..5a9644f 100644
--- a/core/federated/RTI/rti_remote.c
+++ b/core/federated/RTI/rti_remote.c
@@ -586,7 +586,12 @@ static void broadcast_stop_time_to_federates_locked() {
     write_to_federate_locked(fed, MSG_TYPE_STOP_GRANTED_LENGTH, outgoing_buffer, "MSG_TYPE_STOP_GRANTED message");
   }
   for (int i = 0; i < rti_remote->base.number_of_scheduling_nodes; i++) {
-    notify_advance_grant_if_safe(rti_remote->base.scheduling_nodes[i]);
+    // Federates that have not sent a next event tag, in particular those with decentralized coordination, do not
+    // wait for a grant.
+    scheduling_node_t* node = rti_remote->base.scheduling_nodes[i];
+    if (lf_tag_compare(node->next_event, NEVER_TAG) > 0) {
+      notify_advance_grant_if_safe(node);
+    }
   }
 
   LF_PRINT_LOG("RTI sent to federates MSG_TYPE_STOP_GRANTED with tag " PRINTF_TAG,
-- 
2.43.0


From 669e5fae4d1e041ca34ed684a965cb3617c27684 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:56:18 +0000
Subject: [PATCH 77/79] fix: federate with a zero STA offset waits for a
 message with the start tag that is being received

---
 core/threaded/reactor_threaded.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/core/threaded/reactor_threaded.c b/core/threaded/reactor_threaded.c
index 868b79e..e64e758 100644
--- a/core/threaded/reactor_threaded.c
+++ b/core/threaded/reactor_threaded.c
@@ -607,8 +607,9 @@ void _lf_initialize_start_tag(environment_t* env) {
 #if defined FEDERATED_DECENTRALIZED
   // If we have a non-zero STA offset, then we need to allow messages to arrive
   // at the start time.  To avoid spurious STP violations, we temporarily
-  // set the current time back by the STA offset.
-  env->current_tag.time -= lf_fed_STA_offset;
+  // set the current time back by the STA offset, or by one nanosecond if the STA offset is zero
+  // so that a message with the start tag that is being received raises a barrier at the start tag.
+  env->current_tag.time -= (lf_fed_STA_offset > 0) ? lf_fed_STA_offset : 1;
 #else
   // For other than federated decentralized execution, there is no lf_fed_STA_offset variable defined.
   // To use uniform code below, we define it here as a local variable.
-- 
2.43.0


From 8946c70790c3677f7c1b6f05dfea74f9cc8062c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:02:06 +0000
Subject: [PATCH 78/79] fix: message that is too late for the stop tag does not
 discard other messages for the stop tag

---
 core/federated/federate.c | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/core/federated/federate.c b/core/federated/federate.c
index 85c0ff4..ad55ff9 100644
--- a/core/federated/federate.c
+++ b/core/federated/federate.c
@@ -660,11 +660,10 @@ static int handle_tagged_message(int* socket, int fed_id) {
     if (lf_tag_compare(env->current_tag, env->stop_tag) >= 0 && env->execution_started) {
       lf_print_error("Received message too late. Already at stop tag.\n"
                      "    Current tag is " PRINTF_TAG " and intended tag is " PRINTF_TAG ".\n"
-                     "    Discarding message and closing the socket.",
+                     "    Discarding message.",
                      env->current_tag.time - start_time, env->current_tag.microstep, intended_tag.time - start_time,
                      intended_tag.microstep);
-      // Close socket, reading any incoming data and discarding it.
-      close_inbound_socket(fed_id, 1);
+      // Do not close the socket because the next message may be for a port that is not yet known at the stop tag.
     } else {
       // Need to use intended_tag here, not actual_tag, so that STP violations are detected.
       // It will become actual_tag (that is when the reactions will be invoked).
-- 
2.43.0


From 59e29927814404e4e9ce48e886563ea2d76a2b50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:12:24 +0000
Subject: [PATCH 79/79] fix: port is not known beyond the start tag when a
 message with the start tag arrives before execution starts

---
 core/federated/federate.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/core/federated/federate.c b/core/federated/federate.c
index ad55ff9..0223a29 100644
--- a/core/federated/federate.c
+++ b/core/federated/federate.c
@@ -639,7 +639,8 @@ static int handle_tagged_message(int* socket, int fed_id) {
 #ifdef FEDERATED_DECENTRALIZED
     // For tardy messages in decentralized coordination, we need to figure out what the actual tag will be.
     // (Centralized coordination errors out with tardy messages).
-    if (lf_tag_compare(intended_tag, env->current_tag) <= 0) {
+    // A message with the start tag is not tardy as long as the execution of the start tag has not begun.
+    if (lf_tag_compare(intended_tag, env->current_tag) <= 0 && env->execution_started) {
       // Message is tardy.
       actual_tag = env->current_tag;
       actual_tag.microstep++;
-- 
2.43.0

