From 3b22998a99b02db6a7612b760540526d2cea2cdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:57:43 +0000
Subject: [PATCH 01/47] fix: cleanup functions may register further cleanup
 functions

The list was walked while its entries were being freed, so a cleanup
function that registered another one (directly, or by using the error API
for the first time) inserted into released memory and the new function
could be lost.
---
 src/libcork/posix/process.c | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/libcork/posix/process.c b/src/libcork/posix/process.c
index fbafc9c..ba53e5c 100644
--- a/src/libcork/posix/process.c
+++ b/src/libcork/posix/process.c
@@ -56,10 +56,8 @@ static struct cork_dllist  cleanup_entries = CORK_DLLIST_INIT(cleanup_entries);
 static bool  cleanup_registered = false;
 
 static void
-cork_cleanup_call_one(struct cork_dllist_item *item, void *user_data)
+cork_cleanup_call_one(struct cork_cleanup_entry *entry)
 {
-    struct cork_cleanup_entry  *entry =
-        cork_container_of(item, struct cork_cleanup_entry, item);
     cork_cleanup_function  function = entry->function;
     DEBUG("Call cleanup function [%d] %s\n", entry->priority, entry->name);
     /* We need to free the entry before calling the entry's function, since one
@@ -73,7 +71,15 @@ cork_cleanup_call_one(struct cork_dllist_item *item, void *user_data)
 static void
 cork_cleanup_call_all(void)
 {
-    cork_dllist_map(&cleanup_entries, cork_cleanup_call_one, NULL);
+    /* A cleanup function might register further cleanup functions, so each
+     * entry has to be taken out of the list before we free and call it. */
+    while (!cork_dllist_is_empty(&cleanup_entries)) {
+        struct cork_dllist_item  *item = cork_dllist_start(&cleanup_entries);
+        struct cork_cleanup_entry  *entry =
+            cork_container_of(item, struct cork_cleanup_entry, item);
+        cork_dllist_remove(item);
+        cork_cleanup_call_one(entry);
+    }
 }
 
 static void
-- 
2.43.0


From 1f6b02017a7613c79437665e32551cd762b062bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:58:11 +0000
Subject: [PATCH 02/47] fix: release error conditions after all other cleanup
 functions

The storage of every thread's error condition was released by a cleanup
function of priority 0, so that cleanup functions with a higher priority
value that used the error API (or anything that sets an error) touched
released memory.
---
 src/libcork/core/error.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/libcork/core/error.c b/src/libcork/core/error.c
index 1d16206..92a9262 100644
--- a/src/libcork/core/error.c
+++ b/src/libcork/core/error.c
@@ -9,6 +9,7 @@
 
 #include <assert.h>
 #include <errno.h>
+#include <limits.h>
 #include <stdarg.h>
 #include <string.h>
 
@@ -72,7 +73,9 @@ cork_error_list_done(void)
 static void
 cork_error_list_init(void)
 {
-    cork_cleanup_at_exit(0, cork_error_list_done);
+    /* Any other cleanup function might use the error API, so ours has to be
+     * called last. */
+    cork_cleanup_at_exit(INT_MAX, cork_error_list_done);
 }
 
 
-- 
2.43.0


From c6eb4f517bc05e240f779e210ba32c781c899165 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:00:10 +0000
Subject: [PATCH 03/47] fix: serialise the registration of cleanup functions

Two threads registering at the same time (the error API registers
implicitly when first used in any thread) could corrupt or lose entries
of the unprotected list.
---
 src/libcork/posix/process.c | 25 +++++++++++++++++++++++++
 1 file changed, 25 insertions(+)

diff --git a/src/libcork/posix/process.c b/src/libcork/posix/process.c
index ba53e5c..07be52a 100644
--- a/src/libcork/posix/process.c
+++ b/src/libcork/posix/process.c
@@ -7,11 +7,14 @@
  * ----------------------------------------------------------------------
  */
 
+#include <assert.h>
 #include <stdlib.h>
 
 #include "libcork/core.h"
 #include "libcork/ds.h"
 #include "libcork/os/process.h"
+#include "libcork/threads/atomics.h"
+#include "libcork/threads/basics.h"
 #include "libcork/helpers/errors.h"
 
 
@@ -54,6 +57,22 @@ cork_cleanup_entry_free(struct cork_cleanup_entry *self)
 
 static struct cork_dllist  cleanup_entries = CORK_DLLIST_INIT(cleanup_entries);
 static bool  cleanup_registered = false;
+static volatile int  cleanup_lock = 0;
+
+/* Any thread can register a cleanup function at any time; the error API, for
+ * instance, does so the first time that any thread uses it. */
+static void
+cork_cleanup_lock(void)
+{
+    while (cork_int_cas(&cleanup_lock, 0, 1) != 0) { cork_pause(); }
+}
+
+static void
+cork_cleanup_unlock(void)
+{
+    CORK_ATTR_UNUSED int  prior = cork_int_cas(&cleanup_lock, 1, 0);
+    assert(prior == 1);
+}
 
 static void
 cork_cleanup_call_one(struct cork_cleanup_entry *entry)
@@ -73,13 +92,17 @@ cork_cleanup_call_all(void)
 {
     /* A cleanup function might register further cleanup functions, so each
      * entry has to be taken out of the list before we free and call it. */
+    cork_cleanup_lock();
     while (!cork_dllist_is_empty(&cleanup_entries)) {
         struct cork_dllist_item  *item = cork_dllist_start(&cleanup_entries);
         struct cork_cleanup_entry  *entry =
             cork_container_of(item, struct cork_cleanup_entry, item);
         cork_dllist_remove(item);
+        cork_cleanup_unlock();
         cork_cleanup_call_one(entry);
+        cork_cleanup_lock();
     }
+    cork_cleanup_unlock();
 }
 
 static void
@@ -118,5 +141,7 @@ cork_cleanup_at_exit_named(const char *name, int priority,
     struct cork_cleanup_entry  *entry =
         cork_cleanup_entry_new(name, priority, function);
     DEBUG("Register cleanup function [%d] %s\n", priority, name);
+    cork_cleanup_lock();
     cork_cleanup_entry_add(entry);
+    cork_cleanup_unlock();
 }
-- 
2.43.0


From 3f3fbe7b440eb2d1f4beeb644fc55a9cb0fdcd59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:05:02 +0000
Subject: [PATCH 04/47] fix: count references to managed buffers atomically

The count was changed with plain increments and decrements, so threads
that reference, slice or drop the same buffer at the same time could
release it too early, twice, or never.
---
 src/libcork/ds/managed-buffer.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/libcork/ds/managed-buffer.c b/src/libcork/ds/managed-buffer.c
index 295413a..7fe2474 100644
--- a/src/libcork/ds/managed-buffer.c
+++ b/src/libcork/ds/managed-buffer.c
@@ -14,6 +14,7 @@
 #include "libcork/core/types.h"
 #include "libcork/ds/managed-buffer.h"
 #include "libcork/ds/slice.h"
+#include "libcork/threads/atomics.h"
 #include "libcork/helpers/errors.h"
 
 
@@ -140,7 +141,7 @@ cork_managed_buffer_ref(struct cork_managed_buffer *self)
           self->buf, self->size, old_count + 1);
     */
 
-    self->ref_count++;
+    cork_int_atomic_add(&self->ref_count, 1);
     return self;
 }
 
@@ -154,7 +155,7 @@ cork_managed_buffer_unref(struct cork_managed_buffer *self)
           self->buf, self->size, old_count - 1);
     */
 
-    if (--self->ref_count == 0) {
+    if (cork_int_atomic_sub(&self->ref_count, 1) == 0) {
         cork_managed_buffer_free(self);
     }
 }
-- 
2.43.0


From 7427ae7890248bfd95df71752edd908bb783264e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:24:47 +0000
Subject: [PATCH 05/47] fix: removing a variable from an environment freed it
 twice

The hash table already frees a deleted value; and if there was no such
variable, an uninitialised pointer was freed.
---
 src/libcork/posix/env.c | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/src/libcork/posix/env.c b/src/libcork/posix/env.c
index 6426f68..b79dffd 100644
--- a/src/libcork/posix/env.c
+++ b/src/libcork/posix/env.c
@@ -170,11 +170,8 @@ cork_env_remove(struct cork_env *env, const char *name)
     if (env == NULL) {
         unsetenv(name);
     } else {
-        void  *old_var;
-        cork_hash_table_delete(env->variables, (void *) name, NULL, &old_var);
-        if (old_var != NULL) {
-            cork_env_var_free(old_var);
-        }
+        /* The hash table frees the variable for us. */
+        cork_hash_table_delete(env->variables, (void *) name, NULL, NULL);
     }
 }
 
-- 
2.43.0


From a53a7f27f80a1280ac6f265397cc55f4ffe980fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:25:14 +0000
Subject: [PATCH 06/47] fix: printf-style additions to the current environment
 crashed

cork_env_add_printf and cork_env_add_vprintf formatted into a buffer of
the environment object, which is NULL for the current process.
---
 src/libcork/posix/env.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/libcork/posix/env.c b/src/libcork/posix/env.c
index b79dffd..4c222cd 100644
--- a/src/libcork/posix/env.c
+++ b/src/libcork/posix/env.c
@@ -150,8 +150,10 @@ void
 cork_env_add_vprintf(struct cork_env *env, const char *name,
                      const char *format, va_list args)
 {
-    cork_buffer_vprintf(&env->buffer, format, args);
-    cork_env_add_internal(env, name, env->buffer.buf);
+    struct cork_buffer  value = CORK_BUFFER_INIT();
+    cork_buffer_vprintf(&value, format, args);
+    cork_env_add_internal(env, name, value.buf);
+    cork_buffer_done(&value);
 }
 
 void
-- 
2.43.0


From 2893ee724304964901033b6eeb38a60bb1271c77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:50:59 +0000
Subject: [PATCH 07/47] fix: give files created by a path consumer defined
 permissions

---
 src/libcork/ds/file-stream.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/libcork/ds/file-stream.c b/src/libcork/ds/file-stream.c
index e56aeb1..333c9f0 100644
--- a/src/libcork/ds/file-stream.c
+++ b/src/libcork/ds/file-stream.c
@@ -204,7 +204,7 @@ cork_file_from_path_consumer_new(const char *path, int flags)
     int  fd;
     struct cork_fd_consumer  *self;
 
-    rpi_check_posix(fd = open(path, flags));
+    rpi_check_posix(fd = open(path, flags, 0666));
     self = cork_new(struct cork_fd_consumer);
     self->parent.data = cork_fd_consumer__data;
     self->parent.eof = cork_fd_consumer__eof_close;
-- 
2.43.0


From e00721a2801b25d80a95ca2c785839b6ecc5493b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:51:32 +0000
Subject: [PATCH 08/47] fix: an interrupted write made a descriptor consumer
 step back one byte

---
 src/libcork/ds/file-stream.c | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/libcork/ds/file-stream.c b/src/libcork/ds/file-stream.c
index 333c9f0..6010d69 100644
--- a/src/libcork/ds/file-stream.c
+++ b/src/libcork/ds/file-stream.c
@@ -155,9 +155,11 @@ cork_fd_consumer__data(struct cork_stream_consumer *vself,
 
     while (bytes_left > 0) {
         ssize_t  rc = write(self->fd, buf, bytes_left);
-        if (rc == -1 && errno != EINTR) {
-            cork_system_error_set();
-            return -1;
+        if (rc == -1) {
+            if (errno != EINTR) {
+                cork_system_error_set();
+                return -1;
+            }
         } else {
             bytes_left -= rc;
             buf += rc;
-- 
2.43.0


From 68453d16be3b5e8b1657fbb6ed2d27277dcd8468 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:52:24 +0000
Subject: [PATCH 09/47] fix: close the file of a path consumer that is freed
 before the end of the stream

---
 src/libcork/ds/file-stream.c | 21 ++++++++++++++++++---
 1 file changed, 18 insertions(+), 3 deletions(-)

diff --git a/src/libcork/ds/file-stream.c b/src/libcork/ds/file-stream.c
index 6010d69..fcd42b3 100644
--- a/src/libcork/ds/file-stream.c
+++ b/src/libcork/ds/file-stream.c
@@ -172,10 +172,12 @@ cork_fd_consumer__data(struct cork_stream_consumer *vself,
 static int
 cork_fd_consumer__eof_close(struct cork_stream_consumer *vself)
 {
-    int  rc;
+    int  fd;
     struct cork_fd_consumer  *self =
         cork_container_of(vself, struct cork_fd_consumer, parent);
-    rii_check_posix(rc = close(self->fd));
+    fd = self->fd;
+    self->fd = -1;
+    rii_check_posix(close(fd));
     return 0;
 }
 
@@ -187,6 +189,19 @@ cork_fd_consumer__free(struct cork_stream_consumer *vself)
     cork_delete(struct cork_fd_consumer, self);
 }
 
+static void
+cork_fd_consumer__free_close(struct cork_stream_consumer *vself)
+{
+    struct cork_fd_consumer  *self =
+        cork_container_of(vself, struct cork_fd_consumer, parent);
+    /* If the stream didn't make it to the end, then we still have to close the
+     * file that we opened. */
+    if (self->fd != -1) {
+        close(self->fd);
+    }
+    cork_delete(struct cork_fd_consumer, self);
+}
+
 struct cork_stream_consumer *
 cork_fd_consumer_new(int fd)
 {
@@ -210,7 +225,7 @@ cork_file_from_path_consumer_new(const char *path, int flags)
     self = cork_new(struct cork_fd_consumer);
     self->parent.data = cork_fd_consumer__data;
     self->parent.eof = cork_fd_consumer__eof_close;
-    self->parent.free = cork_fd_consumer__free;
+    self->parent.free = cork_fd_consumer__free_close;
     self->fd = fd;
     return &self->parent;
 }
-- 
2.43.0


From 93542d289620739fa58d5d313f9bd662d44303d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:57:56 +0000
Subject: [PATCH 10/47] fix: making a path absolute in the root directory
 doubled the slash

---
 src/libcork/posix/files.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/libcork/posix/files.c b/src/libcork/posix/files.c
index ea638a9..5fe2efa 100644
--- a/src/libcork/posix/files.c
+++ b/src/libcork/posix/files.c
@@ -159,7 +159,9 @@ cork_path_set_absolute(struct cork_path *path)
     ep_check_posix(getcwd(buf.buf, PATH_MAX));
     buf.size = strlen(buf.buf);
 #endif
-    cork_buffer_append(&buf, "/", 1);
+    if (cork_buffer_char(&buf, buf.size - 1) != '/') {
+        cork_buffer_append(&buf, "/", 1);
+    }
     cork_buffer_append_copy(&buf, &path->given);
     cork_buffer_done(&path->given);
     path->given = buf;
-- 
2.43.0


From ac49057ba91659df39afde06e6d92779b473b926 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:58:55 +0000
Subject: [PATCH 11/47] fix: a failed current-directory query left the path
 object with undefined contents

---
 src/libcork/posix/files.c | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/src/libcork/posix/files.c b/src/libcork/posix/files.c
index 5fe2efa..d5d8beb 100644
--- a/src/libcork/posix/files.c
+++ b/src/libcork/posix/files.c
@@ -114,12 +114,23 @@ cork_path_set_cwd(struct cork_path *path)
     rip_check_posix(dirname);
     cork_buffer_set(&path->given, dirname, strlen(dirname));
     free(dirname);
+    return 0;
 #else
-    cork_buffer_ensure_size(&path->given, PATH_MAX);
-    rip_check_posix(getcwd(path->given.buf, PATH_MAX));
-    path->given.size = strlen(path->given.buf);
-#endif
+    /* If getcwd fails, then the contents of its buffer are undefined, so we
+     * can't let it write directly into path. */
+    struct cork_buffer  buf;
+    cork_buffer_init(&buf);
+    cork_buffer_ensure_size(&buf, PATH_MAX);
+    ep_check_posix(getcwd(buf.buf, PATH_MAX));
+    buf.size = strlen(buf.buf);
+    cork_buffer_done(&path->given);
+    path->given = buf;
     return 0;
+
+error:
+    cork_buffer_done(&buf);
+    return -1;
+#endif
 }
 
 struct cork_path *
-- 
2.43.0


From cc612a86ee0233d1891b7892c6844dd340979433 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:11:18 +0000
Subject: [PATCH 12/47] fix: permissive mkdir failed if somebody else created
 the directory meanwhile

---
 src/libcork/posix/files.c | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/src/libcork/posix/files.c b/src/libcork/posix/files.c
index d5d8beb..0d78967 100644
--- a/src/libcork/posix/files.c
+++ b/src/libcork/posix/files.c
@@ -631,7 +631,20 @@ cork_file_mkdir_one(struct cork_file *file, cork_file_mode mode,
 
     /* Create the directory already! */
     DEBUG("  Creating %s\n", cork_path_get(file->path));
-    rii_check_posix(mkdir(cork_path_get(file->path), mode));
+    if (mkdir(cork_path_get(file->path), mode) == -1) {
+        int  err = errno;
+        if (err == EEXIST && (flags & CORK_FILE_PERMISSIVE)) {
+            /* Someone else might have created the directory since we checked
+             * for it; that's only a problem if it isn't a directory. */
+            cork_file_reset(file);
+            rii_check(cork_file_stat(file));
+            if (file->type == CORK_FILE_DIRECTORY) {
+                return 0;
+            }
+        }
+        cork_system_error_set_explicit(err);
+        return -1;
+    }
     return 0;
 }
 
-- 
2.43.0


From b4ad5c6a212dafb9e9d051bc65e7b7e75bada7a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:11:42 +0000
Subject: [PATCH 13/47] fix: mkdir relied on and left behind outdated knowledge
 about the file

---
 src/libcork/posix/files.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/libcork/posix/files.c b/src/libcork/posix/files.c
index 0d78967..5fc65f2 100644
--- a/src/libcork/posix/files.c
+++ b/src/libcork/posix/files.c
@@ -592,7 +592,9 @@ cork_file_mkdir_one(struct cork_file *file, cork_file_mode mode,
 {
     DEBUG("mkdir %s\n", cork_path_get(file->path));
 
-    /* First check if the directory already exists. */
+    /* First check if the directory already exists.  (What we might have learned
+     * about the file earlier doesn't have to be true anymore.) */
+    cork_file_reset(file);
     rii_check(cork_file_stat(file));
     if (file->type == CORK_FILE_DIRECTORY) {
         DEBUG("  Already exists!\n");
@@ -645,6 +647,9 @@ cork_file_mkdir_one(struct cork_file *file, cork_file_mode mode,
         cork_system_error_set_explicit(err);
         return -1;
     }
+
+    /* The directory isn't missing anymore. */
+    cork_file_reset(file);
     return 0;
 }
 
-- 
2.43.0


From 1b0c91a176da380734ca7047e857d44c41480b60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:12:43 +0000
Subject: [PATCH 14/47] fix: recursive mkdir of a path with a trailing slash
 failed with EEXIST

---
 src/libcork/posix/files.c | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/libcork/posix/files.c b/src/libcork/posix/files.c
index 5fc65f2..d801258 100644
--- a/src/libcork/posix/files.c
+++ b/src/libcork/posix/files.c
@@ -613,7 +613,14 @@ cork_file_mkdir_one(struct cork_file *file, cork_file_mode mode,
     /* If the caller asked for a recursive mkdir, then make sure the parent
      * directory exists. */
     if (flags & CORK_FILE_RECURSIVE) {
-        struct cork_path  *parent = cork_path_dirname(file->path);
+        struct cork_path  *parent = cork_path_clone(file->path);
+        while (cork_path_size(parent) > 1 &&
+               cork_buffer_char
+                   (&parent->given, cork_path_size(parent) - 1) == '/') {
+            /* The parent of "a/b/" is "a", not "a/b". */
+            cork_path_truncate(parent, cork_path_size(parent) - 1);
+        }
+        cork_path_set_dirname(parent);
         DEBUG("  Checking parent %s\n", cork_path_get(parent));
         if (parent->given.size == 0) {
             /* There is no parent; we're either at the filesystem root (for an
-- 
2.43.0


From d279a3a0c41afac6a8b6e6970bdf9572ea1b57f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:19:06 +0000
Subject: [PATCH 15/47] fix: a failed unlink was reported without an error
 condition

---
 src/libcork/posix/files.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/libcork/posix/files.c b/src/libcork/posix/files.c
index d801258..b310f61 100644
--- a/src/libcork/posix/files.c
+++ b/src/libcork/posix/files.c
@@ -699,7 +699,7 @@ cork_file_remove(struct cork_file *file, unsigned int flags)
         rii_check_posix(rmdir(cork_path_get(file->path)));
         return 0;
     } else {
-        rii_check(unlink(cork_path_get(file->path)));
+        rii_check_posix(unlink(cork_path_get(file->path)));
         return 0;
     }
 }
-- 
2.43.0


From 4429c3202c988c482a29115d37a71bd5d832cf99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:19:34 +0000
Subject: [PATCH 16/47] fix: removing a symbolic link removed what it points at
 or failed

---
 src/libcork/posix/files.c | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/libcork/posix/files.c b/src/libcork/posix/files.c
index b310f61..4d26f1b 100644
--- a/src/libcork/posix/files.c
+++ b/src/libcork/posix/files.c
@@ -678,17 +678,23 @@ cork_file_remove_iterator(struct cork_file *file, const char *rel_name,
 int
 cork_file_remove(struct cork_file *file, unsigned int flags)
 {
+    struct stat  info;
+
     DEBUG("rm %s\n", cork_path_get(file->path));
-    rii_check(cork_file_stat(file));
 
-    if (file->type == CORK_FILE_MISSING) {
-        if (flags & CORK_FILE_PERMISSIVE) {
+    /* Look at the entry itself; if it's a symbolic link, then that's what we
+     * have to remove, not what it points at. */
+    if (lstat(cork_path_get(file->path), &info) == -1) {
+        if (errno != ENOENT && errno != ENOTDIR) {
+            cork_system_error_set();
+            return -1;
+        } else if (flags & CORK_FILE_PERMISSIVE) {
             return 0;
         } else {
             cork_system_error_set_explicit(ENOENT);
             return -1;
         }
-    } else if (file->type == CORK_FILE_DIRECTORY) {
+    } else if (S_ISDIR(info.st_mode)) {
         if (flags & CORK_FILE_RECURSIVE) {
             /* The user asked that we delete the contents of the directory
              * first. */
-- 
2.43.0


From 94bc5626f6305df7fdf43f1f110423f9e7808d12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:19:58 +0000
Subject: [PATCH 17/47] fix: a file object claimed that the file exists after
 having removed it

---
 src/libcork/posix/files.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/libcork/posix/files.c b/src/libcork/posix/files.c
index 4d26f1b..3e0b4a6 100644
--- a/src/libcork/posix/files.c
+++ b/src/libcork/posix/files.c
@@ -681,6 +681,8 @@ cork_file_remove(struct cork_file *file, unsigned int flags)
     struct stat  info;
 
     DEBUG("rm %s\n", cork_path_get(file->path));
+    /* What we might know about the file won't be true anymore. */
+    cork_file_reset(file);
 
     /* Look at the entry itself; if it's a symbolic link, then that's what we
      * have to remove, not what it points at. */
-- 
2.43.0


From 099b91bc5efd7b8d6c45fad7475a27472a0b7750 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:20:43 +0000
Subject: [PATCH 18/47] fix: permissive removal failed if an entry disappeared
 meanwhile

---
 src/libcork/posix/files.c | 31 +++++++++++++++++++++++++++----
 1 file changed, 27 insertions(+), 4 deletions(-)

diff --git a/src/libcork/posix/files.c b/src/libcork/posix/files.c
index 3e0b4a6..b046bd4 100644
--- a/src/libcork/posix/files.c
+++ b/src/libcork/posix/files.c
@@ -667,6 +667,18 @@ cork_file_mkdir(struct cork_file *file, cork_file_mode mode,
     return cork_file_mkdir_one(file, mode, flags);
 }
 
+/* Called when a system call that removes or opens an entry has failed.  In
+ * permissive mode, it's fine if the entry has disappeared in the meantime. */
+static int
+cork_file_remove_failed(unsigned int flags)
+{
+    if (errno == ENOENT && (flags & CORK_FILE_PERMISSIVE)) {
+        return 0;
+    }
+    cork_system_error_set();
+    return -1;
+}
+
 static int
 cork_file_remove_iterator(struct cork_file *file, const char *rel_name,
                           void *user_data)
@@ -700,14 +712,25 @@ cork_file_remove(struct cork_file *file, unsigned int flags)
         if (flags & CORK_FILE_RECURSIVE) {
             /* The user asked that we delete the contents of the directory
              * first. */
-            rii_check(cork_file_iterate_directory
-                      (file, cork_file_remove_iterator, &flags));
+            if (cork_file_iterate_directory
+                    (file, cork_file_remove_iterator, &flags) != 0) {
+                if (cork_error_code() != ENOENT ||
+                    !(flags & CORK_FILE_PERMISSIVE)) {
+                    return -1;
+                }
+                /* The directory itself is already gone. */
+                cork_error_clear();
+            }
         }
 
-        rii_check_posix(rmdir(cork_path_get(file->path)));
+        if (rmdir(cork_path_get(file->path)) == -1) {
+            return cork_file_remove_failed(flags);
+        }
         return 0;
     } else {
-        rii_check_posix(unlink(cork_path_get(file->path)));
+        if (unlink(cork_path_get(file->path)) == -1) {
+            return cork_file_remove_failed(flags);
+        }
         return 0;
     }
 }
-- 
2.43.0


From 4fcad83ee0a015d3264dcc7aa96bbfe3ac3ee91e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:21:18 +0000
Subject: [PATCH 19/47] fix: directories with unresolvable links couldn't be
 iterated or removed

---
 src/libcork/posix/files.c | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/src/libcork/posix/files.c b/src/libcork/posix/files.c
index b046bd4..3350e8a 100644
--- a/src/libcork/posix/files.c
+++ b/src/libcork/posix/files.c
@@ -550,9 +550,6 @@ cork_file_iterate_directory(struct cork_file *file,
         }
 
         cork_path_append(child_path, entry->d_name);
-        ei_check(cork_file_stat(&child_file));
-
-        /* If the entry is a subdirectory, recurse into it. */
         ei_check(iterator(&child_file, entry->d_name, user_data));
 
         /* Remove this entry name from the path buffer. */
-- 
2.43.0


From 8706bedd614cccae5aad96492ed16046b945e2af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:37:53 +0000
Subject: [PATCH 20/47] fix: walking the root directory or an empty path read
 before the path buffer

---
 src/libcork/posix/directory-walker.c | 28 ++++++++++++++++++----------
 1 file changed, 18 insertions(+), 10 deletions(-)

diff --git a/src/libcork/posix/directory-walker.c b/src/libcork/posix/directory-walker.c
index 74aab13..ee679a5 100644
--- a/src/libcork/posix/directory-walker.c
+++ b/src/libcork/posix/directory-walker.c
@@ -30,11 +30,16 @@ cork_walk_one_directory(struct cork_dir_walker *w, struct cork_buffer *path,
 {
     DIR  *dir = NULL;
     struct dirent  *entry;
+    size_t  orig_path_size;
     size_t  dir_path_size;
 
     rip_check_posix(dir = opendir(path->buf));
 
-    cork_buffer_append(path, "/", 1);
+    orig_path_size = path->size;
+    if (path->size > 0 && cork_buffer_char(path, path->size - 1) != '/') {
+        /* Only the root directory's path ends in a '/'. */
+        cork_buffer_append(path, "/", 1);
+    }
     dir_path_size = path->size;
     errno = 0;
     while ((entry = readdir(dir)) != NULL) {
@@ -89,7 +94,7 @@ cork_walk_one_directory(struct cork_dir_walker *w, struct cork_buffer *path,
     }
 
     /* Remove the trailing '/' from the path buffer. */
-    cork_buffer_truncate(path, dir_path_size - 1);
+    cork_buffer_truncate(path, orig_path_size);
     rii_check_posix(closedir(dir));
     return 0;
 
@@ -104,18 +109,21 @@ int
 cork_walk_directory(const char *path, struct cork_dir_walker *w)
 {
     int  rc;
-    char  *p;
+    size_t  root_path_size;
     struct cork_buffer  buf = CORK_BUFFER_INIT();
 
     /* Seed the buffer with the directory's path, ensuring that there's no
-     * trailing '/' */
-    cork_buffer_append_string(&buf, path);
-    p = buf.buf;
-    while (p[buf.size-1] == '/') {
-        buf.size--;
-        p[buf.size] = '\0';
+     * trailing '/' (except for the root directory, which consists of nothing
+     * else). */
+    cork_buffer_set_string(&buf, path);
+    while (buf.size > 1 && cork_buffer_char(&buf, buf.size - 1) == '/') {
+        cork_buffer_truncate(&buf, buf.size - 1);
+    }
+    root_path_size = buf.size;
+    if (buf.size > 0 && cork_buffer_char(&buf, buf.size - 1) != '/') {
+        root_path_size++;
     }
-    rc = cork_walk_one_directory(w, &buf, buf.size + 1);
+    rc = cork_walk_one_directory(w, &buf, root_path_size);
     cork_buffer_done(&buf);
     return rc;
 }
-- 
2.43.0


From 25f946235a192ba2bd3da65385624ed5af0ac116 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:38:58 +0000
Subject: [PATCH 21/47] fix: return the result of the callback that stops a
 directory traversal

---
 src/libcork/posix/directory-walker.c | 32 ++++++++++++++++++++--------
 src/libcork/posix/files.c            | 11 ++++++++--
 2 files changed, 32 insertions(+), 11 deletions(-)

diff --git a/src/libcork/posix/directory-walker.c b/src/libcork/posix/directory-walker.c
index ee679a5..503a50a 100644
--- a/src/libcork/posix/directory-walker.c
+++ b/src/libcork/posix/directory-walker.c
@@ -28,6 +28,7 @@ static int
 cork_walk_one_directory(struct cork_dir_walker *w, struct cork_buffer *path,
                         size_t root_path_size)
 {
+    int  rc = -1;
     DIR  *dir = NULL;
     struct dirent  *entry;
     size_t  orig_path_size;
@@ -57,21 +58,34 @@ cork_walk_one_directory(struct cork_dir_walker *w, struct cork_buffer *path,
 
         /* If the entry is a subdirectory, recurse into it. */
         if (S_ISDIR(info.st_mode)) {
-            int  rc = cork_dir_walker_enter_directory
+            rc = cork_dir_walker_enter_directory
                 (w, path->buf, path->buf + root_path_size,
                  path->buf + dir_path_size);
             if (rc != CORK_SKIP_DIRECTORY) {
-                ei_check(cork_walk_one_directory(w, path, root_path_size));
-                ei_check(cork_dir_walker_leave_directory
-                         (w, path->buf, path->buf + root_path_size,
-                          path->buf + dir_path_size));
+                if (rc == 0) {
+                    rc = cork_walk_one_directory(w, path, root_path_size);
+                }
+                if (rc == 0) {
+                    rc = cork_dir_walker_leave_directory
+                        (w, path->buf, path->buf + root_path_size,
+                         path->buf + dir_path_size);
+                }
+                if (rc != 0) {
+                    goto error;
+                }
             }
         } else if (S_ISREG(info.st_mode)) {
-            ei_check(cork_dir_walker_file
-                     (w, path->buf, path->buf + root_path_size,
-                      path->buf + dir_path_size));
+            rc = cork_dir_walker_file
+                (w, path->buf, path->buf + root_path_size,
+                 path->buf + dir_path_size);
+            if (rc != 0) {
+                goto error;
+            }
         }
 
+        /* Anything else that fails below isn't the walker's result. */
+        rc = -1;
+
         /* Remove this entry name from the path buffer. */
         cork_buffer_truncate(path, dir_path_size);
 
@@ -102,7 +116,7 @@ error:
     if (dir != NULL) {
         rii_check_posix(closedir(dir));
     }
-    return -1;
+    return rc;
 }
 
 int
diff --git a/src/libcork/posix/files.c b/src/libcork/posix/files.c
index 3350e8a..97be849 100644
--- a/src/libcork/posix/files.c
+++ b/src/libcork/posix/files.c
@@ -530,6 +530,7 @@ cork_file_iterate_directory(struct cork_file *file,
                             cork_file_directory_iterator iterator,
                             void *user_data)
 {
+    int  rc = -1;
     DIR  *dir = NULL;
     struct dirent  *entry;
     size_t  dir_path_size;
@@ -550,7 +551,13 @@ cork_file_iterate_directory(struct cork_file *file,
         }
 
         cork_path_append(child_path, entry->d_name);
-        ei_check(iterator(&child_file, entry->d_name, user_data));
+        rc = iterator(&child_file, entry->d_name, user_data);
+        if (rc != 0) {
+            goto error;
+        }
+
+        /* Anything else that fails below isn't the iterator's result. */
+        rc = -1;
 
         /* Remove this entry name from the path buffer. */
         cork_path_truncate(child_path, dir_path_size);
@@ -580,7 +587,7 @@ cork_file_iterate_directory(struct cork_file *file,
 error:
     cork_file_done(&child_file);
     rii_check_posix(closedir(dir));
-    return -1;
+    return rc;
 }
 
 static int
-- 
2.43.0


From 6b85f055d3d0f0ca4d9b775e7a4516c87ee2e2ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:54:30 +0000
Subject: [PATCH 22/47] fix: reading from subprocesses blocked

O_NONBLOCK is a file status flag, not a file descriptor flag, so the read
ends of the pipes were blocking after all.  Draining waited for the child,
and a child that filled its stderr pipe while the parent was blocked on its
stdout deadlocked both.
---
 src/libcork/posix/subprocess.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/libcork/posix/subprocess.c b/src/libcork/posix/subprocess.c
index b1d23a5..6d7de01 100644
--- a/src/libcork/posix/subprocess.c
+++ b/src/libcork/posix/subprocess.c
@@ -134,9 +134,9 @@ cork_read_pipe_open(struct cork_read_pipe *p)
         rii_check_posix(pipe(p->fds));
         DEBUG("[read]   Got read=%d write=%d\n", p->fds[0], p->fds[1]);
         DEBUG("[read]   Setting non-blocking flag on read pipe\n");
-        ei_check_posix(flags = fcntl(p->fds[0], F_GETFD));
+        ei_check_posix(flags = fcntl(p->fds[0], F_GETFL));
         flags |= O_NONBLOCK;
-        ei_check_posix(fcntl(p->fds[0], F_SETFD, flags));
+        ei_check_posix(fcntl(p->fds[0], F_SETFL, flags));
     }
 
     p->first = true;
-- 
2.43.0


From 17ac406fee7e1d7e91785cc9d81ca12ddc5debfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:55:04 +0000
Subject: [PATCH 23/47] fix: a subprocess that was killed by a signal reported
 exit status 0

---
 src/libcork/posix/subprocess.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/libcork/posix/subprocess.c b/src/libcork/posix/subprocess.c
index 6d7de01..6aed033 100644
--- a/src/libcork/posix/subprocess.c
+++ b/src/libcork/posix/subprocess.c
@@ -467,7 +467,10 @@ cork_subprocess_reap(struct cork_subprocess *self, int flags, bool *progress)
         *progress = true;
         self->pid = 0;
         if (self->exit_code != NULL) {
-            *self->exit_code = WEXITSTATUS(status);
+            /* Like the shell, report a child that was killed by a signal with a
+             * status that can't be mistaken for a success. */
+            *self->exit_code = WIFSIGNALED(status)?
+                128 + WTERMSIG(status): WEXITSTATUS(status);
         }
     }
     return 0;
-- 
2.43.0


From e4472116168f0c893dffef2fe41ac19b8cdaa878 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:02:48 +0000
Subject: [PATCH 24/47] fix: draining a subprocess returned an undefined
 progress flag

---
 src/libcork/posix/subprocess.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/libcork/posix/subprocess.c b/src/libcork/posix/subprocess.c
index 6aed033..57c5ae2 100644
--- a/src/libcork/posix/subprocess.c
+++ b/src/libcork/posix/subprocess.c
@@ -552,7 +552,7 @@ cork_subprocess_drain_(struct cork_subprocess *self, bool *progress)
 bool
 cork_subprocess_drain(struct cork_subprocess *self)
 {
-    bool  progress;
+    bool  progress = false;
     cork_subprocess_drain_(self, &progress);
     return progress;
 }
-- 
2.43.0


From 59533b38afad639183c01a3d462b13cd83dd0766 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:16:48 +0000
Subject: [PATCH 25/47] fix: a pipe end whose close failed was closed again
 later

By then the descriptor number could belong to somebody else.
---
 src/libcork/posix/subprocess.c | 27 ++++++++++++++++-----------
 1 file changed, 16 insertions(+), 11 deletions(-)

diff --git a/src/libcork/posix/subprocess.c b/src/libcork/posix/subprocess.c
index 57c5ae2..65bbc12 100644
--- a/src/libcork/posix/subprocess.c
+++ b/src/libcork/posix/subprocess.c
@@ -74,6 +74,17 @@ cork_subprocess_group_add(struct cork_subprocess_group *group,
  * Pipes (parent reads)
  */
 
+static int
+cork_pipe_close_end(int *fd)
+{
+    /* close() releases the descriptor even if it reports an error, so make sure
+     * that we never try to close it again; someone else might own it then. */
+    int  closing = *fd;
+    *fd = -1;
+    rii_check_posix(close(closing));
+    return 0;
+}
+
 struct cork_read_pipe {
     struct cork_stream_consumer  *consumer;
     int  fds[2];
@@ -93,8 +104,7 @@ cork_read_pipe_close_read(struct cork_read_pipe *p)
 {
     if (p->fds[0] != -1) {
         DEBUG("Closing read pipe %d\n", p->fds[0]);
-        rii_check_posix(close(p->fds[0]));
-        p->fds[0] = -1;
+        rii_check(cork_pipe_close_end(&p->fds[0]));
     }
     return 0;
 }
@@ -104,8 +114,7 @@ cork_read_pipe_close_write(struct cork_read_pipe *p)
 {
     if (p->fds[1] != -1) {
         DEBUG("Closing write pipe %d\n", p->fds[1]);
-        rii_check_posix(close(p->fds[1]));
-        p->fds[1] = -1;
+        rii_check(cork_pipe_close_end(&p->fds[1]));
     }
     return 0;
 }
@@ -186,9 +195,7 @@ cork_read_pipe_read(struct cork_read_pipe *p, char *buf, bool *progress)
             DEBUG("[read]   End of stream\n");
             *progress = true;
             rii_check(cork_stream_consumer_eof(p->consumer));
-            rii_check_posix(close(p->fds[0]));
-            p->fds[0] = -1;
-            return 0;
+            return cork_read_pipe_close_read(p);
         } else {
             DEBUG("[read]   Got %zd bytes\n", bytes_read);
             *progress = true;
@@ -220,8 +227,7 @@ cork_write_pipe_close_read(struct cork_write_pipe *p)
 {
     if (p->fds[0] != -1) {
         DEBUG("[write] Closing read pipe %d\n", p->fds[0]);
-        rii_check_posix(close(p->fds[0]));
-        p->fds[0] = -1;
+        rii_check(cork_pipe_close_end(&p->fds[0]));
     }
     return 0;
 }
@@ -231,8 +237,7 @@ cork_write_pipe_close_write(struct cork_write_pipe *p)
 {
     if (p->fds[1] != -1) {
         DEBUG("[write] Closing write pipe %d\n", p->fds[1]);
-        rii_check_posix(close(p->fds[1]));
-        p->fds[1] = -1;
+        rii_check(cork_pipe_close_end(&p->fds[1]));
     }
     return 0;
 }
-- 
2.43.0


From af88fa53331978257169f15120ae275ed9438584 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:17:25 +0000
Subject: [PATCH 26/47] fix: a subprocess that couldn't be forked kept its
 pipes

Waiting for it never ended, since nobody would ever close the write ends of
its output pipes.
---
 src/libcork/posix/subprocess.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/libcork/posix/subprocess.c b/src/libcork/posix/subprocess.c
index 65bbc12..b550b14 100644
--- a/src/libcork/posix/subprocess.c
+++ b/src/libcork/posix/subprocess.c
@@ -450,6 +450,9 @@ cork_subprocess_start(struct cork_subprocess *self)
     } else if (pid < 0) {
         /* Error forking */
         cork_system_error_set();
+        cork_write_pipe_close(&self->stdin_pipe);
+        cork_read_pipe_close(&self->stdout_pipe);
+        cork_read_pipe_close(&self->stderr_pipe);
         return -1;
     } else {
         /* Parent process */
-- 
2.43.0


From ad8be4c7b18ba36bb7de022b9cea3c6846bc6e54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:18:41 +0000
Subject: [PATCH 27/47] fix: a failing close hid why a subprocess couldn't be
 started

The cleanup after a failure replaced the error condition, and a successful
start could leave one behind.
---
 src/libcork/posix/subprocess.c | 53 +++++++++++++++-------------------
 1 file changed, 23 insertions(+), 30 deletions(-)

diff --git a/src/libcork/posix/subprocess.c b/src/libcork/posix/subprocess.c
index b550b14..500428c 100644
--- a/src/libcork/posix/subprocess.c
+++ b/src/libcork/posix/subprocess.c
@@ -85,6 +85,19 @@ cork_pipe_close_end(int *fd)
     return 0;
 }
 
+/* For when a failure to close has no consequence, and mustn't hide the error
+ * (or the success) that we're about to report. */
+static void
+cork_pipe_discard_end(int *fd)
+{
+    if (*fd != -1) {
+        int  closing = *fd;
+        *fd = -1;
+        DEBUG("Discarding pipe %d\n", closing);
+        close(closing);
+    }
+}
+
 struct cork_read_pipe {
     struct cork_stream_consumer  *consumer;
     int  fds[2];
@@ -109,21 +122,11 @@ cork_read_pipe_close_read(struct cork_read_pipe *p)
     return 0;
 }
 
-static int
-cork_read_pipe_close_write(struct cork_read_pipe *p)
-{
-    if (p->fds[1] != -1) {
-        DEBUG("Closing write pipe %d\n", p->fds[1]);
-        rii_check(cork_pipe_close_end(&p->fds[1]));
-    }
-    return 0;
-}
-
 static void
 cork_read_pipe_close(struct cork_read_pipe *p)
 {
-    cork_read_pipe_close_read(p);
-    cork_read_pipe_close_write(p);
+    cork_pipe_discard_end(&p->fds[0]);
+    cork_pipe_discard_end(&p->fds[1]);
 }
 
 static void
@@ -222,16 +225,6 @@ struct cork_write_pipe {
     int  fds[2];
 };
 
-static int
-cork_write_pipe_close_read(struct cork_write_pipe *p)
-{
-    if (p->fds[0] != -1) {
-        DEBUG("[write] Closing read pipe %d\n", p->fds[0]);
-        rii_check(cork_pipe_close_end(&p->fds[0]));
-    }
-    return 0;
-}
-
 static int
 cork_write_pipe_close_write(struct cork_write_pipe *p)
 {
@@ -278,8 +271,8 @@ cork_write_pipe_init(struct cork_write_pipe *p)
 static void
 cork_write_pipe_close(struct cork_write_pipe *p)
 {
-    cork_write_pipe_close_read(p);
-    cork_write_pipe_close_write(p);
+    cork_pipe_discard_end(&p->fds[0]);
+    cork_pipe_discard_end(&p->fds[1]);
 }
 
 static void
@@ -422,11 +415,11 @@ cork_subprocess_start(struct cork_subprocess *self)
 
         /* Close the parent's end of the pipes */
         DEBUG("[child] ");
-        cork_write_pipe_close_write(&self->stdin_pipe);
+        cork_pipe_discard_end(&self->stdin_pipe.fds[1]);
         DEBUG("[child] ");
-        cork_read_pipe_close_read(&self->stdout_pipe);
+        cork_pipe_discard_end(&self->stdout_pipe.fds[0]);
         DEBUG("[child] ");
-        cork_read_pipe_close_read(&self->stderr_pipe);
+        cork_pipe_discard_end(&self->stderr_pipe.fds[0]);
 
         /* Bind the stdout and stderr pipes */
         if (cork_write_pipe_dup(&self->stdin_pipe, STDIN_FILENO) == -1) {
@@ -458,9 +451,9 @@ cork_subprocess_start(struct cork_subprocess *self)
         /* Parent process */
         DEBUG("  Child PID=%d\n", (int) pid);
         self->pid = pid;
-        cork_write_pipe_close_read(&self->stdin_pipe);
-        cork_read_pipe_close_write(&self->stdout_pipe);
-        cork_read_pipe_close_write(&self->stderr_pipe);
+        cork_pipe_discard_end(&self->stdin_pipe.fds[0]);
+        cork_pipe_discard_end(&self->stdout_pipe.fds[1]);
+        cork_pipe_discard_end(&self->stderr_pipe.fds[1]);
         return 0;
     }
 }
-- 
2.43.0


From fdeaf38117cb8082ea0336a5b6afdfd5fed43704 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:21:12 +0000
Subject: [PATCH 28/47] fix: part of the data sent to a subprocess was lost
 after a short write

---
 src/libcork/posix/subprocess.c | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/libcork/posix/subprocess.c b/src/libcork/posix/subprocess.c
index 500428c..8f15957 100644
--- a/src/libcork/posix/subprocess.c
+++ b/src/libcork/posix/subprocess.c
@@ -241,7 +241,14 @@ cork_write_pipe__data(struct cork_stream_consumer *consumer,
 {
     struct cork_write_pipe  *p =
         cork_container_of(consumer, struct cork_write_pipe, consumer);
-    rii_check_posix(write(p->fds[1], buf, size));
+    const char  *curr = buf;
+    while (size > 0) {
+        /* A signal can interrupt a write after part of the data was written. */
+        ssize_t  bytes_written;
+        rii_check_posix(bytes_written = write(p->fds[1], curr, size));
+        curr += bytes_written;
+        size -= bytes_written;
+    }
     return 0;
 }
 
-- 
2.43.0


From a69bfe8416af2b91959fc8ee972f19d5058097a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:22:52 +0000
Subject: [PATCH 29/47] fix: subprocesses inherited the pipes of other
 subprocesses

A child process kept the parent's ends of the pipes of every subprocess that
was started before it, so those didn't see the end of their stdin before the
later ones had ended too.
---
 src/libcork/posix/subprocess.c | 67 +++++++++++++++++++++++++++++++---
 1 file changed, 61 insertions(+), 6 deletions(-)

diff --git a/src/libcork/posix/subprocess.c b/src/libcork/posix/subprocess.c
index 8f15957..f14f5f1 100644
--- a/src/libcork/posix/subprocess.c
+++ b/src/libcork/posix/subprocess.c
@@ -10,6 +10,7 @@
 #include <assert.h>
 #include <errno.h>
 #include <fcntl.h>
+#include <pthread.h>
 #include <signal.h>
 #include <sys/select.h>
 #include <sys/wait.h>
@@ -74,19 +75,35 @@ cork_subprocess_group_add(struct cork_subprocess_group *group,
  * Pipes (parent reads)
  */
 
+/* A new child process inherits the parent's ends of the pipes of every other
+ * subprocess, and has to get rid of them: as long as it has the write end of
+ * somebody's stdin, for instance, that other child won't see the end of its
+ * input.  So we keep track of all of the subprocesses, and make sure that
+ * nobody opens or closes pipes while another thread forks. */
+static struct cork_dllist  all_subprocesses =
+    CORK_DLLIST_INIT(all_subprocesses);
+static pthread_mutex_t  pipe_mutex = PTHREAD_MUTEX_INITIALIZER;
+
 static int
 cork_pipe_close_end(int *fd)
 {
     /* close() releases the descriptor even if it reports an error, so make sure
      * that we never try to close it again; someone else might own it then. */
-    int  closing = *fd;
+    int  rc;
+    int  close_errno;
+    pthread_mutex_lock(&pipe_mutex);
+    rc = close(*fd);
+    close_errno = errno;
     *fd = -1;
-    rii_check_posix(close(closing));
-    return 0;
+    pthread_mutex_unlock(&pipe_mutex);
+    if (rc == -1) {
+        cork_system_error_set_explicit(close_errno);
+    }
+    return rc;
 }
 
 /* For when a failure to close has no consequence, and mustn't hide the error
- * (or the success) that we're about to report. */
+ * (or the success) that we're about to report.  You must hold the pipe_mutex. */
 static void
 cork_pipe_discard_end(int *fd)
 {
@@ -312,6 +329,7 @@ cork_write_pipe_dup(struct cork_write_pipe *p, int fd)
  */
 
 struct cork_subprocess {
+    struct cork_dllist_item  item;
     pid_t  pid;
     struct cork_write_pipe  stdin_pipe;
     struct cork_read_pipe  stdout_pipe;
@@ -339,6 +357,9 @@ cork_subprocess_new(void *user_data, cork_free_f free_user_data,
     self->free_user_data = free_user_data;
     self->run = run;
     self->exit_code = exit_code;
+    pthread_mutex_lock(&pipe_mutex);
+    cork_dllist_add(&all_subprocesses, &self->item);
+    pthread_mutex_unlock(&pipe_mutex);
     return self;
 }
 
@@ -346,9 +367,12 @@ void
 cork_subprocess_free(struct cork_subprocess *self)
 {
     cork_free_user_data(self);
+    pthread_mutex_lock(&pipe_mutex);
     cork_write_pipe_done(&self->stdin_pipe);
     cork_read_pipe_done(&self->stdout_pipe);
     cork_read_pipe_done(&self->stderr_pipe);
+    cork_dllist_remove(&self->item);
+    pthread_mutex_unlock(&pipe_mutex);
     cork_delete(struct cork_subprocess, self);
 }
 
@@ -394,8 +418,27 @@ cork_subprocess_new_exec(struct cork_exec *exec,
  * Running subprocesses
  */
 
-int
-cork_subprocess_start(struct cork_subprocess *self)
+/* Called in a new child process */
+static void
+cork_subprocess_close_others(struct cork_subprocess *self)
+{
+    struct cork_dllist_item  *curr;
+    struct cork_dllist_item  *next;
+    struct cork_subprocess  *other;
+    cork_dllist_foreach
+        (&all_subprocesses, curr, next, struct cork_subprocess, other, item) {
+        if (other != self) {
+            cork_pipe_discard_end(&other->stdin_pipe.fds[1]);
+            cork_pipe_discard_end(&other->stdout_pipe.fds[0]);
+            cork_pipe_discard_end(&other->stderr_pipe.fds[0]);
+        }
+    }
+}
+
+/* You must hold the pipe_mutex.  In the child process it's been released when
+ * we call the run method. */
+static int
+cork_subprocess_start_(struct cork_subprocess *self)
 {
     pid_t  pid;
 
@@ -427,6 +470,8 @@ cork_subprocess_start(struct cork_subprocess *self)
         cork_pipe_discard_end(&self->stdout_pipe.fds[0]);
         DEBUG("[child] ");
         cork_pipe_discard_end(&self->stderr_pipe.fds[0]);
+        cork_subprocess_close_others(self);
+        pthread_mutex_unlock(&pipe_mutex);
 
         /* Bind the stdout and stderr pipes */
         if (cork_write_pipe_dup(&self->stdin_pipe, STDIN_FILENO) == -1) {
@@ -465,6 +510,16 @@ cork_subprocess_start(struct cork_subprocess *self)
     }
 }
 
+int
+cork_subprocess_start(struct cork_subprocess *self)
+{
+    int  rc;
+    pthread_mutex_lock(&pipe_mutex);
+    rc = cork_subprocess_start_(self);
+    pthread_mutex_unlock(&pipe_mutex);
+    return rc;
+}
+
 static int
 cork_subprocess_reap(struct cork_subprocess *self, int flags, bool *progress)
 {
-- 
2.43.0


From 05be15d4eaf326b38986eb7620887675e92a95e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:24:04 +0000
Subject: [PATCH 30/47] fix: a child process kept extra descriptors of its own
 pipes

The descriptors that were duplicated onto the standard streams stayed open
as well, so that closing a standard stream didn't close the pipe.
---
 src/libcork/posix/subprocess.c | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/libcork/posix/subprocess.c b/src/libcork/posix/subprocess.c
index f14f5f1..eb0128e 100644
--- a/src/libcork/posix/subprocess.c
+++ b/src/libcork/posix/subprocess.c
@@ -179,8 +179,9 @@ error:
 static int
 cork_read_pipe_dup(struct cork_read_pipe *p, int fd)
 {
-    if (p->fds[1] != -1) {
+    if (p->fds[1] != -1 && p->fds[1] != fd) {
         rii_check_posix(dup2(p->fds[1], fd));
+        cork_pipe_discard_end(&p->fds[1]);
     }
     return 0;
 }
@@ -317,8 +318,9 @@ cork_write_pipe_open(struct cork_write_pipe *p)
 static int
 cork_write_pipe_dup(struct cork_write_pipe *p, int fd)
 {
-    if (p->fds[0] != -1) {
+    if (p->fds[0] != -1 && p->fds[0] != fd) {
         rii_check_posix(dup2(p->fds[0], fd));
+        cork_pipe_discard_end(&p->fds[0]);
     }
     return 0;
 }
@@ -471,7 +473,6 @@ cork_subprocess_start_(struct cork_subprocess *self)
         DEBUG("[child] ");
         cork_pipe_discard_end(&self->stderr_pipe.fds[0]);
         cork_subprocess_close_others(self);
-        pthread_mutex_unlock(&pipe_mutex);
 
         /* Bind the stdout and stderr pipes */
         if (cork_write_pipe_dup(&self->stdin_pipe, STDIN_FILENO) == -1) {
@@ -484,6 +485,8 @@ cork_subprocess_start_(struct cork_subprocess *self)
             _exit(EXIT_FAILURE);
         }
 
+        pthread_mutex_unlock(&pipe_mutex);
+
         /* Run the subprocess */
         rc = self->run(self->user_data);
         if (CORK_LIKELY(rc == 0)) {
-- 
2.43.0


From c67caf0b6074e0f312f5ed554190e9b248e3a450 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:31:44 +0000
Subject: [PATCH 31/47] fix: subprocesses were left running when collecting
 their output failed

---
 src/libcork/posix/subprocess.c | 75 +++++++++++++++++++++++++++++-----
 1 file changed, 64 insertions(+), 11 deletions(-)

diff --git a/src/libcork/posix/subprocess.c b/src/libcork/posix/subprocess.c
index eb0128e..0c2d8d8 100644
--- a/src/libcork/posix/subprocess.c
+++ b/src/libcork/posix/subprocess.c
@@ -523,6 +523,18 @@ cork_subprocess_start(struct cork_subprocess *self)
     return rc;
 }
 
+static void
+cork_subprocess_reaped(struct cork_subprocess *self, int status)
+{
+    self->pid = 0;
+    if (self->exit_code != NULL) {
+        /* Like the shell, report a child that was killed by a signal with a
+         * status that can't be mistaken for a success. */
+        *self->exit_code = WIFSIGNALED(status)?
+            128 + WTERMSIG(status): WEXITSTATUS(status);
+    }
+}
+
 static int
 cork_subprocess_reap(struct cork_subprocess *self, int flags, bool *progress)
 {
@@ -531,17 +543,34 @@ cork_subprocess_reap(struct cork_subprocess *self, int flags, bool *progress)
     rii_check_posix(pid = waitpid(self->pid, &status, flags));
     if (pid == self->pid) {
         *progress = true;
-        self->pid = 0;
-        if (self->exit_code != NULL) {
-            /* Like the shell, report a child that was killed by a signal with a
-             * status that can't be mistaken for a success. */
-            *self->exit_code = WIFSIGNALED(status)?
-                128 + WTERMSIG(status): WEXITSTATUS(status);
-        }
+        cork_subprocess_reaped(self, status);
     }
     return 0;
 }
 
+/* Called when we can't collect a subprocess's output anymore.  Nothing in here
+ * touches the error condition, since that describes why. */
+static void
+cork_subprocess_give_up(struct cork_subprocess *self)
+{
+    if (self->pid > 0) {
+        int  pid;
+        int  status;
+        DEBUG("Terminating child process %d\n", (int) self->pid);
+        kill(self->pid, SIGTERM);
+        do {
+            pid = waitpid(self->pid, &status, 0);
+        } while (pid == -1 && errno == EINTR);
+        if (pid == self->pid) {
+            cork_subprocess_reaped(self, status);
+        }
+    }
+    pthread_mutex_lock(&pipe_mutex);
+    cork_read_pipe_close(&self->stdout_pipe);
+    cork_read_pipe_close(&self->stderr_pipe);
+    pthread_mutex_unlock(&pipe_mutex);
+}
+
 int
 cork_subprocess_abort(struct cork_subprocess *self)
 {
@@ -619,7 +648,10 @@ bool
 cork_subprocess_drain(struct cork_subprocess *self)
 {
     bool  progress = false;
-    cork_subprocess_drain_(self, &progress);
+    if (cork_subprocess_drain_(self, &progress) == -1) {
+        cork_subprocess_give_up(self);
+        return false;
+    }
     return progress;
 }
 
@@ -630,12 +662,16 @@ cork_subprocess_wait(struct cork_subprocess *self)
     bool  progress;
     while (!cork_subprocess_is_finished(self)) {
         progress = false;
-        rii_check(cork_subprocess_drain_(self, &progress));
+        ei_check(cork_subprocess_drain_(self, &progress));
         if (!progress) {
             cork_subprocess_yield(&spin_count);
         }
     }
     return 0;
+
+error:
+    cork_subprocess_give_up(self);
+    return -1;
 }
 
 
@@ -654,6 +690,16 @@ cork_subprocess_group_terminate(struct cork_subprocess_group *group)
     return 0;
 }
 
+static void
+cork_subprocess_group_give_up(struct cork_subprocess_group *group)
+{
+    size_t  i;
+    for (i = 0; i < cork_array_size(&group->subprocesses); i++) {
+        struct cork_subprocess  *sub = cork_array_at(&group->subprocesses, i);
+        cork_subprocess_give_up(sub);
+    }
+}
+
 int
 cork_subprocess_group_start(struct cork_subprocess_group *group)
 {
@@ -710,7 +756,10 @@ bool
 cork_subprocess_group_drain(struct cork_subprocess_group *group)
 {
     bool  progress = false;
-    cork_subprocess_group_drain_(group, &progress);
+    if (cork_subprocess_group_drain_(group, &progress) == -1) {
+        cork_subprocess_group_give_up(group);
+        return false;
+    }
     return progress;
 }
 
@@ -722,10 +771,14 @@ cork_subprocess_group_wait(struct cork_subprocess_group *group)
     DEBUG("Waiting for subprocess group to finish\n");
     while (!cork_subprocess_group_is_finished(group)) {
         progress = false;
-        rii_check(cork_subprocess_group_drain_(group, &progress));
+        ei_check(cork_subprocess_group_drain_(group, &progress));
         if (!progress) {
             cork_subprocess_yield(&spin_count);
         }
     }
     return 0;
+
+error:
+    cork_subprocess_group_give_up(group);
+    return -1;
 }
-- 
2.43.0


From d55dac58ef32ab4c1b61b5c55c6d364f98275117 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:39:56 +0000
Subject: [PATCH 32/47] fix: the garbage collector visited objects that it had
 already freed

---
 src/libcork/core/gc.c | 32 ++++++++++++++++++++++++++++----
 1 file changed, 28 insertions(+), 4 deletions(-)

diff --git a/src/libcork/core/gc.c b/src/libcork/core/gc.c
index f26ae7b..99a06ff 100644
--- a/src/libcork/core/gc.c
+++ b/src/libcork/core/gc.c
@@ -44,6 +44,8 @@ struct cork_gc {
     size_t  root_count;
     /* The possible roots of garbage cycles */
     struct cork_gc_header  *roots[ROOTS_SIZE];
+    /* The garbage found by the current collection */
+    struct cork_gc_header  *garbage;
 };
 
 cork_tls(struct cork_gc, cork_gc);
@@ -67,6 +69,9 @@ struct cork_gc_header {
 
     /* The garbage collection interface for this object. */
     struct cork_gc_obj_iface  *iface;
+
+    /* The next object in the list of garbage. */
+    struct cork_gc_header  *next;
 };
 
 /*
@@ -278,6 +283,26 @@ cork_gc_mark_gray_step(struct cork_gc *gc, void *obj, void *ud)
     }
 }
 
+/* We can only free garbage once the collection is done with the object graph;
+ * until then there might be other references that lead us to this object. */
+static void
+cork_gc_add_garbage(struct cork_gc *gc, struct cork_gc_header *header)
+{
+    header->next = gc->garbage;
+    gc->garbage = header;
+}
+
+static void
+cork_gc_free_garbage(struct cork_gc *gc)
+{
+    while (gc->garbage != NULL) {
+        struct cork_gc_header  *header = gc->garbage;
+        gc->garbage = header->next;
+        DEBUG("  Freeing %p\n", header);
+        cork_gc_free(header);
+    }
+}
+
 static void
 cork_gc_mark_roots(struct cork_gc *gc)
 {
@@ -297,8 +322,7 @@ cork_gc_mark_roots(struct cork_gc *gc)
             gc->roots[i] = NULL;
             if (cork_gc_get_color(header) == GC_BLACK &&
                 cork_gc_get_ref_count(header) == 0) {
-                DEBUG("  Freeing %p\n", header);
-                cork_gc_free(header);
+                cork_gc_add_garbage(gc, header);
             }
         }
     }
@@ -373,8 +397,7 @@ cork_gc_collect_white(struct cork_gc *gc, void *obj, void *ud)
             DEBUG("  Releasing %p\n", obj);
             cork_gc_set_color(header, GC_BLACK);
             cork_gc_recurse(gc, header, cork_gc_collect_white);
-            DEBUG("  Freeing %p\n", header);
-            cork_gc_free(header);
+            cork_gc_add_garbage(gc, header);
         }
     }
 }
@@ -403,4 +426,5 @@ cork_gc_collect_cycles(struct cork_gc *gc)
     cork_gc_mark_roots(gc);
     cork_gc_scan_roots(gc);
     cork_gc_collect_roots(gc);
+    cork_gc_free_garbage(gc);
 }
-- 
2.43.0


From 53d285b1ea2a92bb15a8b79178cc1f2d4549fe11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:40:50 +0000
Subject: [PATCH 33/47] fix: garbage collection in the middle of a release
 corrupted the object graph

---
 src/libcork/core/gc.c | 82 ++++++++++++++++++++++++-------------------
 1 file changed, 45 insertions(+), 37 deletions(-)

diff --git a/src/libcork/core/gc.c b/src/libcork/core/gc.c
index 99a06ff..03f3558 100644
--- a/src/libcork/core/gc.c
+++ b/src/libcork/core/gc.c
@@ -33,6 +33,7 @@
  * GC context life cycle
  */
 
+/* The number of possible roots that causes us to look for garbage cycles */
 #define ROOTS_SIZE  1024
 
 /* An internal structure allocated with every garbage-collected object. */
@@ -40,10 +41,12 @@ struct cork_gc_header;
 
 /* A garbage collector context. */
 struct cork_gc {
-    /* The number of used entries in roots. */
+    /* The number of elements in roots. */
     size_t  root_count;
     /* The possible roots of garbage cycles */
-    struct cork_gc_header  *roots[ROOTS_SIZE];
+    struct cork_gc_header  *roots;
+    /* Whether we're currently releasing or collecting objects */
+    bool  busy;
     /* The garbage found by the current collection */
     struct cork_gc_header  *garbage;
 };
@@ -70,7 +73,7 @@ struct cork_gc_header {
     /* The garbage collection interface for this object. */
     struct cork_gc_obj_iface  *iface;
 
-    /* The next object in the list of garbage. */
+    /* The next object in the list of possible roots or garbage. */
     struct cork_gc_header  *next;
 };
 
@@ -162,7 +165,11 @@ cork_gc_init(void)
 void
 cork_gc_done(void)
 {
-    cork_gc_collect_cycles(cork_gc_get());
+    struct cork_gc  *gc = cork_gc_get();
+    /* The objects that we free might have released other ones. */
+    do {
+        cork_gc_collect_cycles(gc);
+    } while (gc->root_count > 0);
 }
 
 void *
@@ -211,11 +218,13 @@ cork_gc_possible_root(struct cork_gc *gc, struct cork_gc_header *header)
         DEBUG("  Possible garbage cycle root\n");
         cork_gc_set_color(header, GC_PURPLE);
         if (!cork_gc_get_buffered(header)) {
+            /* We don't look for garbage cycles yet, even if there are a lot of
+             * possible roots by now, since we might be in the middle of
+             * releasing an object that refers to this one. */
             cork_gc_set_buffered(header, true);
-            if (gc->root_count >= ROOTS_SIZE) {
-                cork_gc_collect_cycles(gc);
-            }
-            gc->roots[gc->root_count++] = header;
+            header->next = gc->roots;
+            gc->roots = header;
+            gc->root_count++;
         }
     } else {
         DEBUG("  Already marked as possible garbage cycle root\n");
@@ -244,15 +253,16 @@ cork_gc_decref(void *obj)
 {
     if (obj != NULL) {
         struct cork_gc  *gc = cork_gc_get();
-        struct cork_gc_header  *header = cork_gc_get_header(obj);
-        cork_gc_dec_ref_count(header);
-        DEBUG("Decrementing %p -> %d\n",
-              obj, cork_gc_get_ref_count(header));
-        if (cork_gc_get_ref_count(header) == 0) {
-            DEBUG("  Releasing %p\n", header);
-            cork_gc_release(gc, header);
+        if (gc->busy) {
+            /* We've been called by a free method */
+            cork_gc_decref_step(gc, obj, NULL);
         } else {
-            cork_gc_possible_root(gc, header);
+            gc->busy = true;
+            cork_gc_decref_step(gc, obj, NULL);
+            gc->busy = false;
+            if (gc->root_count >= ROOTS_SIZE) {
+                cork_gc_collect_cycles(gc);
+            }
         }
     }
 }
@@ -306,20 +316,22 @@ cork_gc_free_garbage(struct cork_gc *gc)
 static void
 cork_gc_mark_roots(struct cork_gc *gc)
 {
-    size_t  i;
-    for (i = 0; i < gc->root_count; i++) {
-        struct cork_gc_header  *header = gc->roots[i];
+    struct cork_gc_header  **curr = &gc->roots;
+    while (*curr != NULL) {
+        struct cork_gc_header  *header = *curr;
         if (cork_gc_get_color(header) == GC_PURPLE) {
             DEBUG("  Checking possible garbage cycle root %p\n",
                   cork_gc_get_object(header));
             DEBUG("    cork_gc_mark_gray(%p)\n",
                   cork_gc_get_object(header));
             cork_gc_mark_gray(gc, header);
+            curr = &header->next;
         } else {
             DEBUG("  Possible garbage cycle root %p already checked\n",
                   cork_gc_get_object(header));
             cork_gc_set_buffered(header, false);
-            gc->roots[i] = NULL;
+            *curr = header->next;
+            gc->root_count--;
             if (cork_gc_get_color(header) == GC_BLACK &&
                 cork_gc_get_ref_count(header) == 0) {
                 cork_gc_add_garbage(gc, header);
@@ -378,12 +390,9 @@ cork_gc_scan(struct cork_gc *gc, void *obj, void *ud)
 static void
 cork_gc_scan_roots(struct cork_gc *gc)
 {
-    size_t  i;
-    for (i = 0; i < gc->root_count; i++) {
-        if (gc->roots[i] != NULL) {
-            void  *obj = cork_gc_get_object(gc->roots[i]);
-            cork_gc_scan(gc, obj, NULL);
-        }
+    struct cork_gc_header  *header;
+    for (header = gc->roots; header != NULL; header = header->next) {
+        cork_gc_scan(gc, cork_gc_get_object(header), NULL);
     }
 }
 
@@ -405,26 +414,25 @@ cork_gc_collect_white(struct cork_gc *gc, void *obj, void *ud)
 static void
 cork_gc_collect_roots(struct cork_gc *gc)
 {
-    size_t  i;
-    for (i = 0; i < gc->root_count; i++) {
-        if (gc->roots[i] != NULL) {
-            struct cork_gc_header  *header = gc->roots[i];
-            void  *obj = cork_gc_get_object(header);
-            cork_gc_set_buffered(header, false);
-            DEBUG("Collecting cycles from garbage root %p\n", obj);
-            cork_gc_collect_white(gc, obj, NULL);
-            gc->roots[i] = NULL;
-        }
+    while (gc->roots != NULL) {
+        struct cork_gc_header  *header = gc->roots;
+        void  *obj = cork_gc_get_object(header);
+        gc->roots = header->next;
+        gc->root_count--;
+        cork_gc_set_buffered(header, false);
+        DEBUG("Collecting cycles from garbage root %p\n", obj);
+        cork_gc_collect_white(gc, obj, NULL);
     }
-    gc->root_count = 0;
 }
 
 static void
 cork_gc_collect_cycles(struct cork_gc *gc)
 {
     DEBUG("Collecting garbage cycles\n");
+    gc->busy = true;
     cork_gc_mark_roots(gc);
     cork_gc_scan_roots(gc);
     cork_gc_collect_roots(gc);
     cork_gc_free_garbage(gc);
+    gc->busy = false;
 }
-- 
2.43.0


From a8f788e6c5720cb08066bd5b72d6381397462114 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:47:13 +0000
Subject: [PATCH 34/47] fix: allocating or freeing an array of zero-size
 elements divided by zero

---
 include/libcork/core/allocator.h | 2 +-
 src/libcork/core/allocator.c     | 4 +++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/libcork/core/allocator.h b/include/libcork/core/allocator.h
index 01a9e92..60951cb 100644
--- a/include/libcork/core/allocator.h
+++ b/include/libcork/core/allocator.h
@@ -177,7 +177,7 @@ void
 cork_alloc_cfree(const struct cork_alloc *alloc, void *ptr,
                  size_t count, size_t size)
 {
-    assert(count < (SIZE_MAX / size));
+    assert(size == 0 || count <= (SIZE_MAX / size));
     return alloc->free(alloc, ptr, count * size);
 }
 
diff --git a/src/libcork/core/allocator.c b/src/libcork/core/allocator.c
index 8a70b3b..3d3a9c6 100644
--- a/src/libcork/core/allocator.c
+++ b/src/libcork/core/allocator.c
@@ -65,7 +65,9 @@ cork_alloc__default_xcalloc(const struct cork_alloc *alloc,
                             size_t count, size_t size)
 {
     void  *result;
-    assert(count < (SIZE_MAX / size));
+    if (CORK_UNLIKELY(size != 0 && count > (SIZE_MAX / size))) {
+        return NULL;
+    }
     result = cork_alloc_xmalloc(alloc, count * size);
     if (result != NULL) {
         memset(result, 0, count * size);
-- 
2.43.0


From e98a904d7e8976304cafa126c4e50c6733acbcc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:47:49 +0000
Subject: [PATCH 35/47] fix: the debugging allocator dereferenced a failed
 allocation

---
 src/libcork/core/allocator.c | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/libcork/core/allocator.c b/src/libcork/core/allocator.c
index 3d3a9c6..6e1efaf 100644
--- a/src/libcork/core/allocator.c
+++ b/src/libcork/core/allocator.c
@@ -395,7 +395,14 @@ static void *
 cork_debug_alloc__xmalloc(const struct cork_alloc *alloc, size_t size)
 {
     size_t  real_size = size + sizeof(size_t);
-    size_t  *base = cork_alloc_xmalloc(alloc->parent, real_size);
+    size_t  *base;
+    if (CORK_UNLIKELY(real_size < size)) {
+        return NULL;
+    }
+    base = cork_alloc_xmalloc(alloc->parent, real_size);
+    if (CORK_UNLIKELY(base == NULL)) {
+        return NULL;
+    }
     *base = size;
     return base + 1;
 }
-- 
2.43.0


From 6c9f57701ec9eea559b7ae5d500bd25c6cc2550b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:48:26 +0000
Subject: [PATCH 36/47] fix: reallocating to 0 bytes freed the block and then
 reported a failure

---
 src/libcork/core/allocator.c | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/libcork/core/allocator.c b/src/libcork/core/allocator.c
index 6e1efaf..8c2dbc2 100644
--- a/src/libcork/core/allocator.c
+++ b/src/libcork/core/allocator.c
@@ -309,6 +309,10 @@ cork_stdlib_alloc__malloc(const struct cork_alloc *alloc, size_t size)
     return result;
 }
 
+/* When asked for 0 bytes, realloc might free the old block and return NULL, which
+ * would be indistinguishable from a failure. */
+#define nonzero_size(size)  (((size) == 0)? 1: (size))
+
 static void *
 cork_stdlib_alloc__realloc(const struct cork_alloc *alloc, void *ptr,
                            size_t old_size, size_t new_size)
@@ -318,13 +322,13 @@ cork_stdlib_alloc__realloc(const struct cork_alloc *alloc, void *ptr,
      * cleanliness makes me do it anyway. */
 
 #if CORK_HAVE_REALLOCF
-    void  *result = reallocf(ptr, new_size);
+    void  *result = reallocf(ptr, nonzero_size(new_size));
     if (result == NULL) {
         abort();
     }
     return result;
 #else
-    void  *result = realloc(ptr, new_size);
+    void  *result = realloc(ptr, nonzero_size(new_size));
     if (result == NULL) {
         free(ptr);
         abort();
@@ -350,7 +354,7 @@ static void *
 cork_stdlib_alloc__xrealloc(const struct cork_alloc *alloc, void *ptr,
                             size_t old_size, size_t new_size)
 {
-    return realloc(ptr, new_size);
+    return realloc(ptr, nonzero_size(new_size));
 }
 
 static void
-- 
2.43.0


From 2751d5ffd38efa5beae6d8b6be4c9b0e0efbc09c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:49:00 +0000
Subject: [PATCH 37/47] fix: a failing xreallocf freed a block that doesn't
 exist

---
 include/libcork/core/allocator.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/libcork/core/allocator.h b/include/libcork/core/allocator.h
index 60951cb..7bf9419 100644
--- a/include/libcork/core/allocator.h
+++ b/include/libcork/core/allocator.h
@@ -158,7 +158,9 @@ cork_alloc_xreallocf(const struct cork_alloc *alloc, void *ptr,
 {
     void  *result = alloc->xrealloc(alloc, ptr, old_size, new_size);
     if (result == NULL) {
-        alloc->free(alloc, ptr, old_size);
+        if (ptr != NULL) {
+            alloc->free(alloc, ptr, old_size);
+        }
         return NULL;
     } else {
         return result;
-- 
2.43.0


From aad6f399573917901d276eb10d1ca442e8ff2358 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:02:35 +0000
Subject: [PATCH 38/47] fix: a hash table didn't release its user data

cork_hash_table_set_user_data promises that the table frees the user data when it
is destroyed.
---
 src/libcork/ds/hash-table.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/libcork/ds/hash-table.c b/src/libcork/ds/hash-table.c
index 6fec797..662c554 100644
--- a/src/libcork/ds/hash-table.c
+++ b/src/libcork/ds/hash-table.c
@@ -194,6 +194,7 @@ cork_hash_table_free(struct cork_hash_table *table)
 {
     cork_hash_table_clear(table);
     cork_cfree(table->bins, table->bin_count, sizeof(struct cork_dllist));
+    cork_free_user_data(table);
     cork_delete(struct cork_hash_table, table);
 }
 
-- 
2.43.0


From 397c702f4b31bbd067a938767cdd6064a3cabb78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:04:32 +0000
Subject: [PATCH 39/47] fix: slices of impossible ranges were granted if offset
 plus length overflowed

---
 src/libcork/ds/managed-buffer.c | 2 +-
 src/libcork/ds/slice.c          | 6 +++---
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/libcork/ds/managed-buffer.c b/src/libcork/ds/managed-buffer.c
index 7fe2474..e29f916 100644
--- a/src/libcork/ds/managed-buffer.c
+++ b/src/libcork/ds/managed-buffer.c
@@ -198,7 +198,7 @@ cork_managed_buffer_slice(struct cork_slice *dest,
 {
     if ((buffer != NULL) &&
         (offset <= buffer->size) &&
-        ((offset + length) <= buffer->size)) {
+        (length <= buffer->size - offset)) {
         /*
         DEBUG("Slicing [%p:%zu] at %zu:%zu, gives <%p:%zu>",
               buffer->buf, buffer->size,
diff --git a/src/libcork/ds/slice.c b/src/libcork/ds/slice.c
index 395130a..fbf18bf 100644
--- a/src/libcork/ds/slice.c
+++ b/src/libcork/ds/slice.c
@@ -51,7 +51,7 @@ cork_slice_copy(struct cork_slice *dest, const struct cork_slice *slice,
 {
     if ((slice != NULL) &&
         (offset <= slice->size) &&
-        ((offset + length) <= slice->size)) {
+        (length <= slice->size - offset)) {
         /*
         DEBUG("Slicing <%p:%zu> at %zu:%zu, gives <%p:%zu>",
               slice->buf, slice->size,
@@ -96,7 +96,7 @@ cork_slice_light_copy(struct cork_slice *dest, const struct cork_slice *slice,
 {
     if ((slice != NULL) &&
         (offset <= slice->size) &&
-        ((offset + length) <= slice->size)) {
+        (length <= slice->size - offset)) {
         /*
         DEBUG("Slicing <%p:%zu> at %zu:%zu, gives <%p:%zu>",
               slice->buf, slice->size,
@@ -140,7 +140,7 @@ cork_slice_slice(struct cork_slice *slice, size_t offset, size_t length)
 {
     if ((slice != NULL) &&
         (offset <= slice->size) &&
-        ((offset + length) <= slice->size)) {
+        (length <= slice->size - offset)) {
         /*
         DEBUG("Slicing <%p:%zu> at %zu:%zu, gives <%p:%zu>",
               slice->buf, slice->size,
-- 
2.43.0


From 289c53de91ae7348b752a7bd9004098a63ce2291 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:34:13 +0000
Subject: [PATCH 40/47] fix: cloning a cleared environment dereferenced a null
 pointer

---
 src/libcork/posix/env.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/libcork/posix/env.c b/src/libcork/posix/env.c
index 4c222cd..743104c 100644
--- a/src/libcork/posix/env.c
+++ b/src/libcork/posix/env.c
@@ -100,6 +100,11 @@ cork_env_clone_current(void)
     char  **curr;
     struct cork_env  *env = cork_env_new();
 
+    /* There is no array at all once the environment has been cleared. */
+    if (environ == NULL) {
+        return env;
+    }
+
     for (curr = environ; *curr != NULL; curr++) {
         const char  *entry = *curr;
         const char  *equal;
-- 
2.43.0


From ff240eb65b12811384f077c51ad3663d4af147dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:05:31 +0000
Subject: [PATCH 41/47] fix: a subprocess could wait forever for a thread that
 it doesn't have

If one thread started a subprocess while another one was initializing the
error conditions, the child never got to report its own failure, and never
ended: it spun waiting for the other thread, which doesn't exist there.
---
 src/libcork/posix/subprocess.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/libcork/posix/subprocess.c b/src/libcork/posix/subprocess.c
index 0c2d8d8..6bac5ac 100644
--- a/src/libcork/posix/subprocess.c
+++ b/src/libcork/posix/subprocess.c
@@ -517,6 +517,11 @@ int
 cork_subprocess_start(struct cork_subprocess *self)
 {
     int  rc;
+    /* The child might have to report an error.  If another thread was just
+     * initializing the error conditions during the fork, the child would wait
+     * forever for a thread that it doesn't have, so make sure that they are
+     * available beforehand. */
+    (void) cork_error_occurred();
     pthread_mutex_lock(&pipe_mutex);
     rc = cork_subprocess_start_(self);
     pthread_mutex_unlock(&pipe_mutex);
-- 
2.43.0


From 493eb505775d74825cef890e2e2029cea80ef25b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:43:11 +0000
Subject: [PATCH 42/47] fix: calls that close something were repeated when a
 signal interrupted them

---
 include/libcork/helpers/posix.h      | 12 ++++++++++++
 src/libcork/ds/file-stream.c         |  6 +++---
 src/libcork/posix/directory-walker.c |  4 ++--
 src/libcork/posix/files.c            |  4 ++--
 src/libcork/posix/subprocess.c       |  5 +++--
 5 files changed, 22 insertions(+), 9 deletions(-)

diff --git a/include/libcork/helpers/posix.h b/include/libcork/helpers/posix.h
index e4131cd..ab88b67 100644
--- a/include/libcork/helpers/posix.h
+++ b/include/libcork/helpers/posix.h
@@ -79,6 +79,18 @@
 #define rii_check_posix(call) xi_check_posix(call, return -1)
 #define rpi_check_posix(call) xi_check_posix(call, return NULL)
 
+/* For calls like close() and closedir(), which release what they're given even
+ * if they are interrupted by a signal.  They mustn't be called a second time; by
+ * then someone else might own the descriptor. */
+#define rii_check_posix_close(call) \
+    do { \
+        if ((call) == -1 && errno != EINTR) { \
+            cork_system_error_set(); \
+            CORK_PRINT_ERROR(); \
+            return -1; \
+        } \
+    } while (0)
+
 #define ep_check_posix(call)  xp_check_posix(call, goto error)
 #define rip_check_posix(call) xp_check_posix(call, return -1)
 #define rpp_check_posix(call) xp_check_posix(call, return NULL)
diff --git a/src/libcork/ds/file-stream.c b/src/libcork/ds/file-stream.c
index fcd42b3..5de452f 100644
--- a/src/libcork/ds/file-stream.c
+++ b/src/libcork/ds/file-stream.c
@@ -77,11 +77,11 @@ cork_consume_file_from_path(struct cork_stream_consumer *consumer,
     int  fd;
     rii_check_posix(fd = open(path, flags));
     ei_check(cork_consume_fd(consumer, fd));
-    rii_check_posix(close(fd));
+    rii_check_posix_close(close(fd));
     return 0;
 
 error:
-    rii_check_posix(close(fd));
+    rii_check_posix_close(close(fd));
     return -1;
 }
 
@@ -177,7 +177,7 @@ cork_fd_consumer__eof_close(struct cork_stream_consumer *vself)
         cork_container_of(vself, struct cork_fd_consumer, parent);
     fd = self->fd;
     self->fd = -1;
-    rii_check_posix(close(fd));
+    rii_check_posix_close(close(fd));
     return 0;
 }
 
diff --git a/src/libcork/posix/directory-walker.c b/src/libcork/posix/directory-walker.c
index 503a50a..eb7d93f 100644
--- a/src/libcork/posix/directory-walker.c
+++ b/src/libcork/posix/directory-walker.c
@@ -109,12 +109,12 @@ cork_walk_one_directory(struct cork_dir_walker *w, struct cork_buffer *path,
 
     /* Remove the trailing '/' from the path buffer. */
     cork_buffer_truncate(path, orig_path_size);
-    rii_check_posix(closedir(dir));
+    rii_check_posix_close(closedir(dir));
     return 0;
 
 error:
     if (dir != NULL) {
-        rii_check_posix(closedir(dir));
+        rii_check_posix_close(closedir(dir));
     }
     return rc;
 }
diff --git a/src/libcork/posix/files.c b/src/libcork/posix/files.c
index 97be849..a15cfde 100644
--- a/src/libcork/posix/files.c
+++ b/src/libcork/posix/files.c
@@ -581,12 +581,12 @@ cork_file_iterate_directory(struct cork_file *file,
     }
 
     cork_file_done(&child_file);
-    rii_check_posix(closedir(dir));
+    rii_check_posix_close(closedir(dir));
     return 0;
 
 error:
     cork_file_done(&child_file);
-    rii_check_posix(closedir(dir));
+    rii_check_posix_close(closedir(dir));
     return rc;
 }
 
diff --git a/src/libcork/posix/subprocess.c b/src/libcork/posix/subprocess.c
index 6bac5ac..7dfa106 100644
--- a/src/libcork/posix/subprocess.c
+++ b/src/libcork/posix/subprocess.c
@@ -96,10 +96,11 @@ cork_pipe_close_end(int *fd)
     close_errno = errno;
     *fd = -1;
     pthread_mutex_unlock(&pipe_mutex);
-    if (rc == -1) {
+    if (rc == -1 && close_errno != EINTR) {
         cork_system_error_set_explicit(close_errno);
+        return -1;
     }
-    return rc;
+    return 0;
 }
 
 /* For when a failure to close has no consequence, and mustn't hide the error
-- 
2.43.0


From 8d1e946ffb256eb62c792ecac14464a024fdf81e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:43:41 +0000
Subject: [PATCH 43/47] fix: a failure to close replaced the failure or
 callback result to be reported

---
 src/libcork/ds/file-stream.c         | 2 +-
 src/libcork/posix/directory-walker.c | 2 +-
 src/libcork/posix/files.c            | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/libcork/ds/file-stream.c b/src/libcork/ds/file-stream.c
index 5de452f..0075961 100644
--- a/src/libcork/ds/file-stream.c
+++ b/src/libcork/ds/file-stream.c
@@ -81,7 +81,7 @@ cork_consume_file_from_path(struct cork_stream_consumer *consumer,
     return 0;
 
 error:
-    rii_check_posix_close(close(fd));
+    close(fd);
     return -1;
 }
 
diff --git a/src/libcork/posix/directory-walker.c b/src/libcork/posix/directory-walker.c
index eb7d93f..38c20fc 100644
--- a/src/libcork/posix/directory-walker.c
+++ b/src/libcork/posix/directory-walker.c
@@ -114,7 +114,7 @@ cork_walk_one_directory(struct cork_dir_walker *w, struct cork_buffer *path,
 
 error:
     if (dir != NULL) {
-        rii_check_posix_close(closedir(dir));
+        closedir(dir);
     }
     return rc;
 }
diff --git a/src/libcork/posix/files.c b/src/libcork/posix/files.c
index a15cfde..2b5f277 100644
--- a/src/libcork/posix/files.c
+++ b/src/libcork/posix/files.c
@@ -586,7 +586,7 @@ cork_file_iterate_directory(struct cork_file *file,
 
 error:
     cork_file_done(&child_file);
-    rii_check_posix_close(closedir(dir));
+    closedir(dir);
     return rc;
 }
 
-- 
2.43.0


From cb179b1bc27f341c2021fa69ea1b609ff75f0596 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:51:06 +0000
Subject: [PATCH 44/47] fix: failing to create or store a thread-local variable
 went unnoticed

---
 include/libcork/threads/basics.h | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/include/libcork/threads/basics.h b/include/libcork/threads/basics.h
index a356786..7ac69ba 100644
--- a/include/libcork/threads/basics.h
+++ b/include/libcork/threads/basics.h
@@ -165,6 +165,7 @@ NAME##_get(void) \
 #include <pthread.h>
 
 #include <libcork/core/allocator.h>
+#include <libcork/core/error.h>
 
 #define cork_tls_with_alloc(TYPE, NAME, allocate, deallocate) \
 static pthread_key_t  NAME##__tls_key; \
@@ -179,9 +180,9 @@ NAME##__tls_destroy(void *self) \
 static void \
 NAME##__create_key(void) \
 { \
-    CORK_ATTR_UNUSED int  rc; \
-    rc = pthread_key_create(&NAME##__tls_key, &NAME##__tls_destroy); \
-    assert(rc == 0); \
+    if (pthread_key_create(&NAME##__tls_key, &NAME##__tls_destroy) != 0) { \
+        cork_abort("%s", "Cannot create thread-local variable " #NAME); \
+    } \
 } \
 \
 static TYPE * \
@@ -192,7 +193,9 @@ NAME##_get(void) \
     self = pthread_getspecific(NAME##__tls_key); \
     if (CORK_UNLIKELY(self == NULL)) { \
         self = allocate(); \
-        pthread_setspecific(NAME##__tls_key, self); \
+        if (pthread_setspecific(NAME##__tls_key, self) != 0) { \
+            cork_abort("%s", "Cannot allocate thread-local variable " #NAME); \
+        } \
     } \
     return self; \
 }
-- 
2.43.0


From 5c71bd92e3716ee36941d05a7d374a06c1decebf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:20:00 +0000
Subject: [PATCH 45/47] fix: a variable that could not be set for lack of
 memory went missing silently

---
 src/libcork/posix/env.c | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/src/libcork/posix/env.c b/src/libcork/posix/env.c
index 743104c..247ea4d 100644
--- a/src/libcork/posix/env.c
+++ b/src/libcork/posix/env.c
@@ -7,6 +7,7 @@
  * ----------------------------------------------------------------------
  */
 
+#include <errno.h>
 #include <stdlib.h>
 #include <string.h>
 #include <unistd.h>
@@ -76,11 +77,21 @@ cork_env_new(void)
     return env;
 }
 
+static void
+cork_env_set_current(const char *name, const char *value, bool overwrite)
+{
+    /* Names that can't be part of an environment are ignored, but running out
+     * of memory is treated like everywhere else. */
+    if (setenv(name, value, overwrite) == -1 && errno == ENOMEM) {
+        cork_abort("Cannot set environment variable %s", name);
+    }
+}
+
 static void
 cork_env_add_internal(struct cork_env *env, const char *name, const char *value)
 {
     if (env == NULL) {
-        setenv(name, value, true);
+        cork_env_set_current(name, value, true);
     } else {
         struct cork_env_var  *var = cork_env_var_new(name, value);
         void  *old_var;
@@ -187,7 +198,7 @@ static enum cork_hash_table_map_result
 cork_env_set_vars(void *user_data, struct cork_hash_table_entry *entry)
 {
     struct cork_env_var  *var = entry->value;
-    setenv(var->name, var->value, false);
+    cork_env_set_current(var->name, var->value, false);
     return CORK_HASH_TABLE_MAP_CONTINUE;
 }
 
-- 
2.43.0


From 05601aea966618766d3be6241331c6d6378b07d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:21:38 +0000
Subject: [PATCH 46/47] fix: an error message made from the current one was
 garbled

---
 src/libcork/core/error.c | 20 +++++++++++++++++---
 1 file changed, 17 insertions(+), 3 deletions(-)

diff --git a/src/libcork/core/error.c b/src/libcork/core/error.c
index 92a9262..a4acec7 100644
--- a/src/libcork/core/error.c
+++ b/src/libcork/core/error.c
@@ -134,6 +134,17 @@ cork_error_clear(void)
     cork_buffer_clear(error->message);
 }
 
+/* A new message can be made out of the current one (that's what the prefix
+ * functions are for, but nothing stops the caller from passing the current
+ * message to one of the others), so it's constructed in the other buffer. */
+static void
+cork_error_use_other(struct cork_error *error)
+{
+    struct cork_buffer  *temp = error->other;
+    error->other = error->message;
+    error->message = temp;
+}
+
 void
 cork_error_set_printf(cork_error code, const char *format, ...)
 {
@@ -141,8 +152,9 @@ cork_error_set_printf(cork_error code, const char *format, ...)
     struct cork_error  *error = cork_error_get();
     error->code = code;
     va_start(args, format);
-    cork_buffer_vprintf(error->message, format, args);
+    cork_buffer_vprintf(error->other, format, args);
     va_end(args);
+    cork_error_use_other(error);
 }
 
 void
@@ -150,7 +162,8 @@ cork_error_set_string(cork_error code, const char *str)
 {
     struct cork_error  *error = cork_error_get();
     error->code = code;
-    cork_buffer_set_string(error->message, str);
+    cork_buffer_set_string(error->other, str);
+    cork_error_use_other(error);
 }
 
 void
@@ -158,7 +171,8 @@ cork_error_set_vprintf(cork_error code, const char *format, va_list args)
 {
     struct cork_error  *error = cork_error_get();
     error->code = code;
-    cork_buffer_vprintf(error->message, format, args);
+    cork_buffer_vprintf(error->other, format, args);
+    cork_error_use_other(error);
 }
 
 void
-- 
2.43.0


From f5f05cf6322b1bf9392fd9e8d77d5ed5fa7595f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:50:58 +0000
Subject: [PATCH 47/47] fix: a child that writes faster than its output is
 consumed kept us collecting it forever

---
 src/libcork/posix/subprocess.c | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/src/libcork/posix/subprocess.c b/src/libcork/posix/subprocess.c
index 7dfa106..0f4e2eb 100644
--- a/src/libcork/posix/subprocess.c
+++ b/src/libcork/posix/subprocess.c
@@ -12,6 +12,7 @@
 #include <fcntl.h>
 #include <pthread.h>
 #include <signal.h>
+#include <sys/ioctl.h>
 #include <sys/select.h>
 #include <sys/wait.h>
 #include <unistd.h>
@@ -190,10 +191,20 @@ cork_read_pipe_dup(struct cork_read_pipe *p, int fd)
 static int
 cork_read_pipe_read(struct cork_read_pipe *p, char *buf, bool *progress)
 {
+    int  available = 0;
+    size_t  total = 0;
+
     if (p->fds[0] == -1) {
         return 0;
     }
 
+    /* Only collect what's in the pipe right now; otherwise, a child that writes
+     * faster than the consumer can handle would keep us in here forever, even
+     * if there are other pipes that somebody's waiting for us to read. */
+    if (ioctl(p->fds[0], FIONREAD, &available) == -1) {
+        available = 0;
+    }
+
     do {
         DEBUG("[read] Reading from pipe %d\n", p->fds[0]);
         ssize_t  bytes_read = read(p->fds[0], buf, BUF_SIZE);
@@ -224,8 +235,11 @@ cork_read_pipe_read(struct cork_read_pipe *p, char *buf, bool *progress)
             rii_check(cork_stream_consumer_data
                       (p->consumer, buf, bytes_read, p->first));
             p->first = false;
+            total += bytes_read;
         }
-    } while (true);
+    } while (total <= (size_t) available);
+
+    return 0;
 }
 
 static bool
-- 
2.43.0

