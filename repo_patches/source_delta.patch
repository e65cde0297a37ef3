From 9c9b81481fbce533ad86b7be2ad5940f1f995f88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:11 +0000
Subject: [PATCH 01/58] fix: blogc: exit non-zero when -D value is not valid
 UTF-8

---
 src/blogc/main.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/blogc/main.c b/src/blogc/main.c
index fb28ca1..88d3d44 100644
--- a/src/blogc/main.c
+++ b/src/blogc/main.c
@@ -200,6 +200,7 @@ main(int argc, char **argv)
                         if (!bc_utf8_validate((uint8_t*) tmp, strlen(tmp))) {
                             fprintf(stderr, "blogc: error: invalid value for "
                                 "-D (must be valid UTF-8 string): %s\n", tmp);
+                            rv = 1;
                             goto cleanup;
                         }
                         pieces = bc_str_split(tmp, '=', 2);
-- 
2.43.0


From 30b7df434c0cad2434038cb519cb48c3123b41d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:34 +0000
Subject: [PATCH 02/58] fix: report read errors instead of looping forever or
 treating them as end of file

---
 src/blogc/main.c  |  7 +++++++
 src/common/file.c | 12 +++++++++++-
 2 files changed, 18 insertions(+), 1 deletion(-)

diff --git a/src/blogc/main.c b/src/blogc/main.c
index 88d3d44..b92293c 100644
--- a/src/blogc/main.c
+++ b/src/blogc/main.c
@@ -268,6 +268,13 @@ main(int argc, char **argv)
     if (input_stdin) {
         size_t input_len;
         char *input = bc_stdin_read(&input_len);
+        if (ferror(stdin)) {
+            fprintf(stderr, "blogc: error: failed to read list of source files "
+                "from standard input: %s\n", strerror(errno));
+            free(input);
+            rv = 1;
+            goto cleanup;
+        }
         bc_slist_t *input_list = blogc_filelist_parse(input, input_len);
         free(input);
         sources = bc_slist_append_list(sources, input_list);
diff --git a/src/common/file.c b/src/common/file.c
index 121b91e..a27f3a4 100644
--- a/src/common/file.c
+++ b/src/common/file.c
@@ -32,7 +32,7 @@ bc_file_get_contents(const char *path, bool utf8, size_t *len, bc_error_t **err)
     char buffer[BC_FILE_CHUNK_SIZE];
     char *tmp;
 
-    while (!feof(fp)) {
+    while (!feof(fp) && !ferror(fp)) {
         size_t read_len = fread(buffer, sizeof(char), BC_FILE_CHUNK_SIZE, fp);
 
         tmp = buffer;
@@ -48,6 +48,16 @@ bc_file_get_contents(const char *path, bool utf8, size_t *len, bc_error_t **err)
         *len += read_len;
         bc_string_append_len(str, tmp, read_len);
     }
+
+    if (ferror(fp)) {
+        int tmp_errno = errno;
+        *err = bc_error_new_printf(BC_ERROR_FILE,
+            "Failed to read file (%s): %s", path, strerror(tmp_errno));
+        fclose(fp);
+        bc_string_free(str, true);
+        *len = 0;
+        return NULL;
+    }
     fclose(fp);
 
     if (utf8 && !bc_utf8_validate_str(str)) {
-- 
2.43.0


From 757d5b6f18ef19c7327bb93d95ef57baf2893b11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:34 +0000
Subject: [PATCH 03/58] fix: string duplication helpers must abort on
 allocation failure, as bc_malloc does

---
 src/common/utils.c | 12 +++---------
 1 file changed, 3 insertions(+), 9 deletions(-)

diff --git a/src/common/utils.c b/src/common/utils.c
index 7491ce6..bc1fd2f 100644
--- a/src/common/utils.c
+++ b/src/common/utils.c
@@ -123,9 +123,7 @@ bc_strdup(const char *s)
     if (s == NULL)
         return NULL;
     size_t l = strlen(s);
-    char *tmp = malloc(l + 1);
-    if (tmp == NULL)
-        return NULL;
+    char *tmp = bc_malloc(l + 1);
     memcpy(tmp, s, l + 1);
     return tmp;
 }
@@ -137,9 +135,7 @@ bc_strndup(const char *s, size_t n)
     if (s == NULL)
         return NULL;
     size_t l = strnlen(s, n);
-    char *tmp = malloc(l + 1);
-    if (tmp == NULL)
-        return NULL;
+    char *tmp = bc_malloc(l + 1);
     memcpy(tmp, s, l);
     tmp[l] = '\0';
     return tmp;
@@ -157,9 +153,7 @@ bc_strdup_vprintf(const char *format, va_list ap)
     va_end(ap2);
     if (l < 0)
         return NULL;
-    char *tmp = malloc(l + 1);
-    if (!tmp)
-        return NULL;
+    char *tmp = bc_malloc(l + 1);
     int l2 = vsnprintf(tmp, l + 1, format, ap);
     if (l2 < 0) {
         free(tmp);
-- 
2.43.0


From 45175a37271c6dcf088c12dd2988013999fb9e69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:52 +0000
Subject: [PATCH 04/58] fix: blogc: report output write errors and never leave
 a partial output file behind

---
 src/blogc/main.c | 49 +++++++++++++++++++++++++++++++++++++++++++-----
 1 file changed, 44 insertions(+), 5 deletions(-)

diff --git a/src/blogc/main.c b/src/blogc/main.c
index b92293c..aac45ba 100644
--- a/src/blogc/main.c
+++ b/src/blogc/main.c
@@ -9,6 +9,10 @@
 #include <sys/stat.h>
 #endif /* HAVE_SYS_STAT_H */
 
+#ifdef HAVE_UNISTD_H
+#include <unistd.h>
+#endif /* HAVE_UNISTD_H */
+
 #ifdef HAVE_SYSEXITS_H
 #include <sysexits.h>
 #else
@@ -123,6 +127,25 @@ blogc_mkdir_recursive(const char *filename)
 }
 
 
+// opens the output file. content is written to a temporary file, that must be
+// renamed to the output file when complete, so that the output file never holds
+// partial content. no temporary file is used if the output must be written in
+// place (symbolic link, device, fifo).
+static FILE*
+blogc_open_output(const char *output, char **tmp_output)
+{
+#if defined(HAVE_SYS_STAT_H) && defined(HAVE_UNISTD_H) && !defined(WIN32) && !defined(_WIN32)
+    struct stat st;
+    int rv = lstat(output, &st);
+    if (rv != 0 && errno != ENOENT)
+        return NULL;
+    if (rv != 0 || S_ISREG(st.st_mode))
+        *tmp_output = bc_strdup_printf("%s.%ld.tmp", output, (long) getpid());
+#endif
+    return fopen(*tmp_output != NULL ? *tmp_output : output, "w");
+}
+
+
 int
 main(int argc, char **argv)
 {
@@ -360,9 +383,10 @@ main(int argc, char **argv)
     bool write_to_stdout = (output == NULL || (0 == strcmp(output, "-")));
 
     FILE *fp = stdout;
+    char *tmp_output = NULL;
     if (!write_to_stdout) {
         blogc_mkdir_recursive(output);
-        fp = fopen(output, "w");
+        fp = blogc_open_output(output, &tmp_output);
         if (fp == NULL) {
             fprintf(stderr, "blogc: error: failed to open output file (%s): %s\n",
                 output, strerror(errno));
@@ -371,13 +395,23 @@ main(int argc, char **argv)
         }
     }
 
-    if (out != NULL)
-        fprintf(fp, "%s", out);
+    bool failed = out != NULL && fprintf(fp, "%s", out) < 0;
 
-    if (!write_to_stdout)
-        fclose(fp);
+    if (!write_to_stdout) {
+        failed = fclose(fp) != 0 || failed;
+        if (!failed && tmp_output != NULL)
+            failed = rename(tmp_output, output) != 0;
+        if (failed) {
+            fprintf(stderr, "blogc: error: failed to write output file (%s): %s\n",
+                output, strerror(errno));
+            if (tmp_output != NULL)
+                remove(tmp_output);
+            rv = 1;
+        }
+    }
 
 cleanup4:
+    free(tmp_output);
     free(out);
 cleanup3:
     blogc_template_free_ast(l);
@@ -385,6 +419,11 @@ cleanup2:
     bc_slist_free_full(s, (bc_free_func_t) bc_trie_free);
     bc_error_free(err);
 cleanup:
+    if ((ferror(stdout) || 0 != fflush(stdout)) && rv == 0) {
+        fprintf(stderr, "blogc: error: failed to write to standard output: %s\n",
+            strerror(errno));
+        rv = 1;
+    }
     bc_trie_free(config);
     free(template);
     free(output);
-- 
2.43.0


From 8065d0e540cecf82af07f773a43291bfd42156bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:45:32 +0000
Subject: [PATCH 05/58] fix: blogc-make: feed commands and collect their output
 without deadlocking, and always reap them

---
 src/blogc-make/exec.c | 233 +++++++++++++++++++++++++++++++-----------
 1 file changed, 172 insertions(+), 61 deletions(-)

diff --git a/src/blogc-make/exec.c b/src/blogc-make/exec.c
index 4dd6f8b..8d6eb6d 100644
--- a/src/blogc-make/exec.c
+++ b/src/blogc-make/exec.c
@@ -1,6 +1,12 @@
 // SPDX-FileCopyrightText: 2014-2024 Rafael G. Martins <rafael@rafaelmartins.eng.br>
 // SPDX-License-Identifier: BSD-3-Clause
 
+#ifdef __linux__
+#ifndef _GNU_SOURCE
+#define _GNU_SOURCE
+#endif
+#endif /* __linux__ */
+
 #ifdef HAVE_CONFIG_H
 #include <config.h>
 #endif /* HAVE_CONFIG_H */
@@ -18,6 +24,10 @@
 #include <unistd.h>
 #include <sys/wait.h>
 #include <errno.h>
+#include <fcntl.h>
+#include <limits.h>
+#include <poll.h>
+#include <signal.h>
 #include <libgen.h>
 #include "../common/compat.h"
 #include "../common/error.h"
@@ -27,6 +37,10 @@
 #include "exec.h"
 #include "settings.h"
 
+#ifndef PIPE_BUF
+#define PIPE_BUF 512
+#endif
+
 
 char*
 bm_exec_find_binary(const char *argv0, const char *bin, const char *env)
@@ -73,6 +87,64 @@ bm_exec_find_binary(const char *argv0, const char *bin, const char *env)
 }
 
 
+static int
+open_pipe(int fd[2])
+{
+    // the pipe ends must not leak to other processes started by us (see the
+    // runserver rule), because they would prevent us from seeing end of file.
+#ifdef __linux__
+    return pipe2(fd, O_CLOEXEC);
+#else
+    if (-1 == pipe(fd))
+        return -1;
+    fcntl(fd[0], F_SETFD, FD_CLOEXEC);
+    fcntl(fd[1], F_SETFD, FD_CLOEXEC);
+    return 0;
+#endif
+}
+
+
+static void
+close_pipe(int fd[2])
+{
+    for (size_t i = 0; i < 2; i++) {
+        if (fd[i] != -1)
+            close(fd[i]);
+        fd[i] = -1;
+    }
+}
+
+
+static void
+child_dup(int fd, int target)
+{
+    if (fd == target)
+        fcntl(fd, F_SETFD, 0);
+    else if (-1 == dup2(fd, target))
+        _exit(127);
+}
+
+
+// read what is available in fd, closing it on end of file
+static int
+read_available(int *fd, bc_string_t **out)
+{
+    char buffer[BC_FILE_CHUNK_SIZE];
+    ssize_t s = read(*fd, buffer, BC_FILE_CHUNK_SIZE);
+    if (s == -1)
+        return errno == EINTR ? 0 : -1;
+    if (s == 0) {
+        close(*fd);
+        *fd = -1;
+        return 0;
+    }
+    if (*out == NULL)
+        *out = bc_string_new();
+    bc_string_append_len(*out, buffer, s);
+    return 0;
+}
+
+
 int
 bm_exec_command(const char *cmd, const char *input, char **output,
     char **error, bc_error_t **err)
@@ -81,54 +153,59 @@ bm_exec_command(const char *cmd, const char *input, char **output,
         return 1;
 
     int fd_in[2];
-    if (-1 == pipe(fd_in)) {
+    if (-1 == open_pipe(fd_in)) {
         *err = bc_error_new_printf(BLOGC_MAKE_ERROR_EXEC,
             "Failed to create stdin pipe: %s", strerror(errno));
         return 1;
     }
 
     int fd_out[2];
-    if (-1 == pipe(fd_out)) {
+    if (-1 == open_pipe(fd_out)) {
         *err = bc_error_new_printf(BLOGC_MAKE_ERROR_EXEC,
             "Failed to create stdout pipe: %s", strerror(errno));
-        close(fd_in[0]);
-        close(fd_in[1]);
+        close_pipe(fd_in);
         return 1;
     }
 
     int fd_err[2];
-    if (-1 == pipe(fd_err)) {
+    if (-1 == open_pipe(fd_err)) {
         *err = bc_error_new_printf(BLOGC_MAKE_ERROR_EXEC,
             "Failed to create stderr pipe: %s", strerror(errno));
-        close(fd_in[0]);
-        close(fd_in[1]);
-        close(fd_out[0]);
-        close(fd_out[1]);
+        close_pipe(fd_in);
+        close_pipe(fd_out);
         return 1;
     }
 
+    // the command may finish without reading its whole input, this must not
+    // kill us.
+    struct sigaction ignore_action, sigpipe_action;
+    ignore_action.sa_handler = SIG_IGN;
+    sigemptyset(&ignore_action.sa_mask);
+    ignore_action.sa_flags = 0;
+    sigaction(SIGPIPE, &ignore_action, &sigpipe_action);
+
     pid_t pid = fork();
     if (pid == -1) {
         *err = bc_error_new_printf(BLOGC_MAKE_ERROR_EXEC,
             "Failed to fork: %s", strerror(errno));
-        close(fd_in[0]);
-        close(fd_in[1]);
-        close(fd_out[0]);
-        close(fd_out[1]);
-        close(fd_err[0]);
-        close(fd_err[1]);
+        close_pipe(fd_in);
+        close_pipe(fd_out);
+        close_pipe(fd_err);
+        sigaction(SIGPIPE, &sigpipe_action, NULL);
         return 1;
     }
 
     // child
     if (pid == 0) {
+        sigaction(SIGPIPE, &sigpipe_action, NULL);
+
         close(fd_in[1]);
         close(fd_out[0]);
         close(fd_err[0]);
 
-        dup2(fd_in[0], STDIN_FILENO);
-        dup2(fd_out[1], STDOUT_FILENO);
-        dup2(fd_err[1], STDERR_FILENO);
+        child_dup(fd_in[0], STDIN_FILENO);
+        child_dup(fd_out[1], STDOUT_FILENO);
+        child_dup(fd_err[1], STDERR_FILENO);
 
         char *const argv[] = {
             "/bin/sh",
@@ -139,70 +216,103 @@ bm_exec_command(const char *cmd, const char *input, char **output,
 
         execv(argv[0], argv);
 
-        exit(1);
+        _exit(127);
     }
 
     // parent
     close(fd_in[0]);
+    fd_in[0] = -1;
     close(fd_out[1]);
+    fd_out[1] = -1;
     close(fd_err[1]);
+    fd_err[1] = -1;
 
-    if (input != NULL) {
-        if (-1 == write(fd_in[1], input, strlen(input))) {
-            *err = bc_error_new_printf(BLOGC_MAKE_ERROR_EXEC,
-                "Failed to write to stdin pipe: %s", strerror(errno));
+    size_t input_len = input != NULL ? strlen(input) : 0;
+    size_t written = 0;
+    bc_string_t *out_str = NULL;
+    bc_string_t *err_str = NULL;
+
+    // the pipes have limited capacity, so we need to feed the command and to
+    // collect its output at the same time.
+    while (fd_in[1] != -1 || fd_out[0] != -1 || fd_err[0] != -1) {
+
+        if (fd_in[1] != -1 && written == input_len) {
             close(fd_in[1]);
-            close(fd_out[0]);
-            close(fd_err[0]);
-            return 1;
+            fd_in[1] = -1;
+            continue;
         }
-    }
 
-    close(fd_in[1]);
+        // negative descriptors are ignored by poll
+        struct pollfd fds[] = {
+            {.fd = fd_in[1], .events = POLLOUT},
+            {.fd = fd_out[0], .events = POLLIN},
+            {.fd = fd_err[0], .events = POLLIN},
+        };
 
-    char buffer[BC_FILE_CHUNK_SIZE];
-    ssize_t s;
+        if (-1 == poll(fds, 3, -1)) {
+            if (errno == EINTR)
+                continue;
+            *err = bc_error_new_printf(BLOGC_MAKE_ERROR_EXEC,
+                "Failed to wait for command: %s", strerror(errno));
+            break;
+        }
+
+        if (fds[0].revents != 0) {
+            // poll ensures that this amount of data won't block
+            size_t len = input_len - written;
+            if (len > PIPE_BUF)
+                len = PIPE_BUF;
+            ssize_t s = write(fd_in[1], input + written, len);
+            if (s != -1) {
+                written += s;
+            }
+            else if (errno == EPIPE) {
+                // the command isn't interested in the remaining input
+                written = input_len;
+            }
+            else if (errno != EINTR) {
+                *err = bc_error_new_printf(BLOGC_MAKE_ERROR_EXEC,
+                    "Failed to write to stdin pipe: %s", strerror(errno));
+                break;
+            }
+        }
 
-    bc_string_t *out = NULL;
-    while(0 != (s = read(fd_out[0], buffer, BC_FILE_CHUNK_SIZE))) {
-        if (s == -1) {
+        if (fds[1].revents != 0 && 0 != read_available(&fd_out[0], &out_str)) {
             *err = bc_error_new_printf(BLOGC_MAKE_ERROR_EXEC,
                 "Failed to read from stdout pipe: %s", strerror(errno));
-            close(fd_out[0]);
-            close(fd_err[0]);
-            bc_string_free(out, true);
-            return 1;
-        }
-        if (out == NULL) {
-            out = bc_string_new();
+            break;
         }
-        bc_string_append_len(out, buffer, s);
-    }
-    if (out != NULL) {
-        *output = bc_string_free(out, false);
-    }
-    close(fd_out[0]);
 
-    out = NULL;
-    while(0 != (s = read(fd_err[0], buffer, BC_FILE_CHUNK_SIZE))) {
-        if (s == -1) {
+        if (fds[2].revents != 0 && 0 != read_available(&fd_err[0], &err_str)) {
             *err = bc_error_new_printf(BLOGC_MAKE_ERROR_EXEC,
                 "Failed to read from stderr pipe: %s", strerror(errno));
-            close(fd_err[0]);
-            bc_string_free(out, true);
-            return 1;
+            break;
         }
-        if (out == NULL)
-            out = bc_string_new();
-        bc_string_append_len(out, buffer, s);
     }
-    if (out != NULL) {
-        *error = bc_string_free(out, false);
+
+    close_pipe(fd_in);
+    close_pipe(fd_out);
+    close_pipe(fd_err);
+    sigaction(SIGPIPE, &sigpipe_action, NULL);
+
+    int status = 0;
+    pid_t rv;
+    while (-1 == (rv = waitpid(pid, &status, 0)) && errno == EINTR);
+    if (rv == -1 && *err == NULL) {
+        *err = bc_error_new_printf(BLOGC_MAKE_ERROR_EXEC,
+            "Failed to wait for command: %s", strerror(errno));
+    }
+
+    if (*err != NULL) {
+        bc_string_free(out_str, true);
+        bc_string_free(err_str, true);
+        return 1;
     }
-    close(fd_err[0]);
 
-    int status;
-    waitpid(pid, &status, 0);
+    if (out_str != NULL)
+        *output = bc_string_free(out_str, false);
+    if (err_str != NULL)
+        *error = bc_string_free(err_str, false);
 
     return bc_compat_status_code(status);
 }
@@ -410,7 +520,8 @@ bm_exec_blogc_get_variable(bm_ctx_t *ctx, bc_trie_t *global_variables,
 
     if (rv != 0) {
         if (rv != EX_CONFIG)
-            fprintf(stderr, "blogc-make: error: %s\n", bc_str_strip(err));
+            fprintf(stderr, "blogc-make: error: %s\n", err != NULL ?
+                bc_str_strip(err) : "Failed to execute blogc.");
         bc_string_free(input, true);
         free(cmd);
         free(out);
-- 
2.43.0


From 4c92f882486e57217a10db5d01159a3a8e3f319c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:46:24 +0000
Subject: [PATCH 06/58] fix: blogc-make: quote tags when calling blogc

---
 src/blogc-make/exec.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/blogc-make/exec.c b/src/blogc-make/exec.c
index 8d6eb6d..56d5c78 100644
--- a/src/blogc-make/exec.c
+++ b/src/blogc-make/exec.c
@@ -350,7 +350,9 @@ bm_exec_build_blogc_cmd(const char *blogc_bin, bm_settings_t *settings,
     if (settings != NULL) {
         if (settings->tags != NULL) {
             char *tags = bc_strv_join(settings->tags, " ");
-            bc_string_append_printf(rv, " -D MAKE_TAGS='%s'", tags);
+            char *tmp = bc_shell_quote(tags);
+            bc_string_append_printf(rv, " -D MAKE_TAGS=%s", tmp);
+            free(tmp);
             free(tags);
         }
 
-- 
2.43.0


From 4cca913ae7b431c0ce9d44166d601702af03d224 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:46:57 +0000
Subject: [PATCH 07/58] fix: blogc-make: never write or clean outside of the
 output directory

---
 src/blogc-make/ctx.c         | 9 ++++++++-
 src/blogc-make/exec-native.c | 3 +++
 2 files changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/blogc-make/ctx.c b/src/blogc-make/ctx.c
index 8bc7e64..a5e5c97 100644
--- a/src/blogc-make/ctx.c
+++ b/src/blogc-make/ctx.c
@@ -229,7 +229,14 @@ bm_ctx_new(bm_ctx_t *base, const char *settings_file, const char *argv0,
     free(abs_filename);
 
     const char *output_dir = getenv("OUTPUT_DIR");
-    rv->short_output_dir = bc_strdup(output_dir != NULL ? output_dir : "_build");
+    if (output_dir == NULL || output_dir[0] == '\0')
+        output_dir = "_build";
+    rv->short_output_dir = bc_strdup(output_dir);
+
+    // the output directory is compared and concatenated with other paths
+    for (size_t i = strlen(rv->short_output_dir);
+            i > 1 && rv->short_output_dir[i - 1] == '/'; i--)
+        rv->short_output_dir[i - 1] = '\0';
 
     if (rv->short_output_dir[0] == '/') {
         rv->output_dir = bc_strdup(rv->short_output_dir);
diff --git a/src/blogc-make/exec-native.c b/src/blogc-make/exec-native.c
index f18ed9c..ee697c6 100644
--- a/src/blogc-make/exec-native.c
+++ b/src/blogc-make/exec-native.c
@@ -132,6 +132,9 @@ bm_exec_native_rm(const char *output_dir, bm_filectx_t *dest, bool verbose)
     fflush(stdout);
 
     if (0 != unlink(dest->path)) {
+        // the same file may be listed more than once
+        if (errno == ENOENT)
+            return 0;
         fprintf(stderr, "blogc-make: error: failed to remove file (%s): %s\n",
             dest->path, strerror(errno));
         return 1;
-- 
2.43.0


From 68a4bf9061d43d9bc881ce25947d007aa0eeffa3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:46:57 +0000
Subject: [PATCH 08/58] fix: blogc-make: fail if the pagination pages can't be
 found out

---
 src/blogc-make/ctx.c   | 1 +
 src/blogc-make/ctx.h   | 3 +++
 src/blogc-make/exec.c  | 6 +++++-
 src/blogc-make/rules.c | 9 ++++++++-
 4 files changed, 17 insertions(+), 2 deletions(-)

diff --git a/src/blogc-make/ctx.c b/src/blogc-make/ctx.c
index a5e5c97..b30eb37 100644
--- a/src/blogc-make/ctx.c
+++ b/src/blogc-make/ctx.c
@@ -217,6 +217,7 @@ bm_ctx_new(bm_ctx_t *base, const char *settings_file, const char *argv0,
             "BLOGC_RUNSERVER");
         rv->dev = false;
         rv->verbose = false;
+        rv->outputlist_failed = false;
     }
     else {
         bm_ctx_free_internal(base);
diff --git a/src/blogc-make/ctx.h b/src/blogc-make/ctx.h
index 774601f..02415b1 100644
--- a/src/blogc-make/ctx.h
+++ b/src/blogc-make/ctx.h
@@ -45,6 +45,9 @@ typedef struct {
     bool verbose;
     bool atom_template_tmp;
 
+    // set when some outputlist function can't find out all the outputs
+    bool outputlist_failed;
+
     bm_settings_t *settings;
 
     char *root_dir;
diff --git a/src/blogc-make/exec.c b/src/blogc-make/exec.c
index 56d5c78..24531f5 100644
--- a/src/blogc-make/exec.c
+++ b/src/blogc-make/exec.c
@@ -517,13 +517,17 @@ bm_exec_blogc_get_variable(bm_ctx_t *ctx, bc_trie_t *global_variables,
         free(cmd);
         free(out);
         free(err);
+        ctx->outputlist_failed = true;
         return NULL;
     }
 
     if (rv != 0) {
-        if (rv != EX_CONFIG)
+        // the variable may be just not defined
+        if (rv != EX_CONFIG) {
             fprintf(stderr, "blogc-make: error: %s\n", err != NULL ?
                 bc_str_strip(err) : "Failed to execute blogc.");
+            ctx->outputlist_failed = true;
+        }
         bc_string_free(input, true);
         free(cmd);
         free(out);
diff --git a/src/blogc-make/rules.c b/src/blogc-make/rules.c
index f50ec75..5a66f4e 100644
--- a/src/blogc-make/rules.c
+++ b/src/blogc-make/rules.c
@@ -737,6 +737,10 @@ clean_exec(bm_ctx_t *ctx, bc_slist_t *outputs, bc_trie_t *args)
     }
     bc_slist_free_full(files, (bc_free_func_t) bm_filectx_free);
 
+    // there may be more files to remove
+    if (rv == 0 && ctx->outputlist_failed)
+        rv = 1;
+
     if (!bm_exec_native_is_empty_dir(ctx->output_dir, NULL)) {
         fprintf(stderr, "blogc-make: warning: output directory is not empty!\n");
     }
@@ -978,11 +982,14 @@ bm_rule_execute(bm_ctx_t *ctx, const bm_rule_t *rule, bc_trie_t *args)
         return 1;
 
     bc_slist_t *outputs = NULL;
+    ctx->outputlist_failed = false;
     if (rule->outputlist_func != NULL) {
         outputs = rule->outputlist_func(ctx);
     }
 
-    int rv = rule->exec_func(ctx, outputs, args);
+    int rv = 1;
+    if (!ctx->outputlist_failed)
+        rv = rule->exec_func(ctx, outputs, args);
 
     bc_slist_free_full(outputs, (bc_free_func_t) bm_filectx_free);
 
-- 
2.43.0


From f2252f773611e3b44ff8e69ca7e09df4534715c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:47:52 +0000
Subject: [PATCH 09/58] fix: blogc-make: never leave incomplete copies behind

---
 src/blogc-make/exec-native.c | 35 ++++++++++++++++++++++++++++++-----
 1 file changed, 30 insertions(+), 5 deletions(-)

diff --git a/src/blogc-make/exec-native.c b/src/blogc-make/exec-native.c
index ee697c6..1c700f9 100644
--- a/src/blogc-make/exec-native.c
+++ b/src/blogc-make/exec-native.c
@@ -53,36 +53,61 @@ bm_exec_native_cp(bm_filectx_t *source, bm_filectx_t *dest, bool verbose)
         return 1;
     }
 
-    int fd_to = open(dest->path, O_WRONLY | O_CREAT | O_TRUNC, 0666);
+    // an incomplete destination file would look like an up to date one later,
+    // so we only put it in place when we are done
+    char *tmp_path = bc_strdup_printf("%s.%d.tmp", dest->path, (int) getpid());
+    int fd_to = open(tmp_path, O_WRONLY | O_CREAT | O_TRUNC, 0666);
     if (fd_to < 0) {
         fprintf(stderr, "blogc-make: error: failed to open destination file to "
             "copy (%s): %s\n", dest->path, strerror(errno));
         close(fd_from);
+        free(tmp_path);
         return 1;
     }
 
     ssize_t nread;
     char buffer[BC_FILE_CHUNK_SIZE];
-    while (0 < (nread = read(fd_from, buffer, BC_FILE_CHUNK_SIZE))) {
+    while (0 != (nread = read(fd_from, buffer, BC_FILE_CHUNK_SIZE))) {
+        if (nread == -1) {
+            if (errno == EINTR)
+                continue;
+            fprintf(stderr, "blogc-make: error: failed to read source file to "
+                "copy (%s): %s\n", source->path, strerror(errno));
+            close(fd_to);
+            goto error;
+        }
         char *out_ptr = buffer;
         do {
             ssize_t nwritten = write(fd_to, out_ptr, nread);
             if (nwritten == -1) {
+                if (errno == EINTR)
+                    continue;
                 fprintf(stderr, "blogc-make: error: failed to write to "
                     "destination file (%s): %s\n", dest->path, strerror(errno));
-                close(fd_from);
                 close(fd_to);
-                return 1;
+                goto error;
             }
             nread -= nwritten;
             out_ptr += nwritten;
         } while (nread > 0);
     }
 
+    if (0 != close(fd_to) || 0 != rename(tmp_path, dest->path)) {
+        fprintf(stderr, "blogc-make: error: failed to write to "
+            "destination file (%s): %s\n", dest->path, strerror(errno));
+        goto error;
+    }
+
     close(fd_from);
-    close(fd_to);
+    free(tmp_path);
 
     return 0;
+
+error:
+    close(fd_from);
+    unlink(tmp_path);
+    free(tmp_path);
+    return 1;
 }
 
 
-- 
2.43.0


From c577c1075631f2ce856ccce0868bd01c76c8b318 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:49:24 +0000
Subject: [PATCH 10/58] fix: blogc-make: detect incomplete temporary atom
 template

A short write() was treated as success, and close() errors were ignored.
---
 src/blogc-make/atom.c | 25 +++++++++++++++++++------
 1 file changed, 19 insertions(+), 6 deletions(-)

diff --git a/src/blogc-make/atom.c b/src/blogc-make/atom.c
index f9e6294..ebf68b2 100644
--- a/src/blogc-make/atom.c
+++ b/src/blogc-make/atom.c
@@ -115,18 +115,31 @@ bm_atom_deploy(bm_settings_t *settings, bc_error_t **err)
         return NULL;
     }
 
-    if (-1 == write(fd, content, strlen(content))) {
+    size_t len = strlen(content);
+    for (size_t i = 0; i < len; ) {
+        ssize_t s = write(fd, content + i, len - i);
+        if (s == -1) {
+            if (errno == EINTR)
+                continue;
+            *err = bc_error_new_printf(BLOGC_MAKE_ERROR_ATOM,
+                "Failed to write to temporary atom template: %s", strerror(errno));
+            free(content);
+            close(fd);
+            unlink(fname);
+            return NULL;
+        }
+        i += s;
+    }
+
+    free(content);
+
+    if (0 != close(fd)) {
         *err = bc_error_new_printf(BLOGC_MAKE_ERROR_ATOM,
             "Failed to write to temporary atom template: %s", strerror(errno));
-        free(content);
-        close(fd);
         unlink(fname);
         return NULL;
     }
 
-    free(content);
-    close(fd);
-
     return bc_strdup(fname);
 }
 
-- 
2.43.0


From f5424bac04c863a0b53e56724473155b6180d393 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:49:24 +0000
Subject: [PATCH 11/58] fix: blogc-make: rebuild outputs whose sources were
 edited while they were being built

The outputs were always newer than the edit, so the edit was never noticed
by later builds.
---
 src/blogc-make/ctx.c   | 24 ++++++++++++++++++++++++
 src/blogc-make/ctx.h   |  1 +
 src/blogc-make/exec.c  | 15 ++++++++++++++-
 src/blogc-make/rules.c |  2 ++
 4 files changed, 41 insertions(+), 1 deletion(-)

diff --git a/src/blogc-make/ctx.c b/src/blogc-make/ctx.c
index b30eb37..1139206 100644
--- a/src/blogc-make/ctx.c
+++ b/src/blogc-make/ctx.c
@@ -5,9 +5,11 @@
 #include <sys/types.h>
 #include <dirent.h>
 #include <errno.h>
+#include <fcntl.h>
 #include <libgen.h>
 #include <limits.h>
 #include <time.h>
+#include <stdio.h>
 #include <stdlib.h>
 #include <stdbool.h>
 #include <string.h>
@@ -149,6 +151,28 @@ bm_filectx_reload(bm_filectx_t *ctx)
 }
 
 
+int
+bm_filectx_backdate(bm_filectx_t *output, bm_filectx_t *source)
+{
+    // if the source changed since we looked at it, we don't know if the output
+    // was built from its current content. make sure that the output will look
+    // older than the source, to be rebuilt later.
+    if (output == NULL || !bm_filectx_changed(source, NULL, NULL))
+        return 0;
+
+    struct timespec ts[2];
+    ts[0].tv_sec = ts[1].tv_sec = source->tv_sec;
+    ts[0].tv_nsec = ts[1].tv_nsec = source->tv_nsec;
+    if (0 != utimensat(AT_FDCWD, output->path, ts, 0)) {
+        fprintf(stderr, "blogc-make: error: failed to set modification time "
+            "(%s): %s\n", output->path, strerror(errno));
+        return 1;
+    }
+
+    return 0;
+}
+
+
 void
 bm_filectx_free(bm_filectx_t *fctx)
 {
diff --git a/src/blogc-make/ctx.h b/src/blogc-make/ctx.h
index 02415b1..745cad2 100644
--- a/src/blogc-make/ctx.h
+++ b/src/blogc-make/ctx.h
@@ -69,6 +69,7 @@ bm_filectx_t* bm_filectx_new(bm_ctx_t *ctx, const char *filename, const char *sl
 bc_slist_t* bm_filectx_new_r(bc_slist_t *l, bm_ctx_t *ctx, const char *filename);
 bool bm_filectx_changed(bm_filectx_t *ctx, time_t *tv_sec, long *tv_nsec);
 void bm_filectx_reload(bm_filectx_t *ctx);
+int bm_filectx_backdate(bm_filectx_t *output, bm_filectx_t *source);
 void bm_filectx_free(bm_filectx_t *fctx);
 bm_ctx_t* bm_ctx_new(bm_ctx_t *base, const char *settings_file,
     const char *argv0, bc_error_t **err);
diff --git a/src/blogc-make/exec.c b/src/blogc-make/exec.c
index 24531f5..58d7036 100644
--- a/src/blogc-make/exec.c
+++ b/src/blogc-make/exec.c
@@ -478,7 +478,20 @@ bm_exec_blogc(bm_ctx_t *ctx, bc_trie_t *global_variables, bc_trie_t *local_varia
     free(out);
     free(err);
 
-    return rv == 127 ? 1 : rv;
+    if (rv != 0)
+        return rv == 127 ? 1 : rv;
+
+    // something may have been edited while we were running
+    rv |= bm_filectx_backdate(output, ctx->settings_fctx);
+    rv |= bm_filectx_backdate(output, listing_entry);
+    rv |= bm_filectx_backdate(output, template);
+    for (bc_slist_t *l = sources; l != NULL; l = l->next) {
+        rv |= bm_filectx_backdate(output, l->data);
+        if (only_first_source)
+            break;
+    }
+
+    return rv;
 }
 
 
diff --git a/src/blogc-make/rules.c b/src/blogc-make/rules.c
index 5a66f4e..b467229 100644
--- a/src/blogc-make/rules.c
+++ b/src/blogc-make/rules.c
@@ -707,6 +707,8 @@ copy_exec(bm_ctx_t *ctx, bc_slist_t *outputs, bc_trie_t *args)
 
         if (bm_rule_need_rebuild(s, ctx->settings_fctx, NULL, NULL, o_fctx, true)) {
             rv = bm_exec_native_cp(s->data, o_fctx, ctx->verbose);
+            if (rv == 0)
+                rv = bm_filectx_backdate(o_fctx, s->data);
             if (rv != 0)
                 break;
         }
-- 
2.43.0


From b98599bb73a673c7fd6d10bf0674127706bcc491 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:57:22 +0000
Subject: [PATCH 12/58] fix: blogc-make: commands must never see incomplete
 input

If blogc-make was killed, or failed, while sending the list of sources to
blogc, blogc would build a page from the part of the list already sent, and
the page would look up-to-date for the next build. Send the input using a
temporary file instead of a pipe.
---
 src/blogc-make/exec.c | 113 +++++++++++++++++++-----------------------
 1 file changed, 52 insertions(+), 61 deletions(-)

diff --git a/src/blogc-make/exec.c b/src/blogc-make/exec.c
index 58d7036..e7f2a3c 100644
--- a/src/blogc-make/exec.c
+++ b/src/blogc-make/exec.c
@@ -27,7 +27,6 @@
 #include <fcntl.h>
 #include <limits.h>
 #include <poll.h>
-#include <signal.h>
 #include <libgen.h>
 #include "../common/compat.h"
 #include "../common/error.h"
@@ -145,6 +144,46 @@ read_available(int *fd, bc_string_t **out)
 }
 
 
+// the whole input must be available before the command is started. if it was
+// sent to the command while running, and we died (or failed) halfway, the
+// command would just take the part already sent as its complete input.
+static int
+open_input(const char *input, bc_error_t **err)
+{
+    if (input == NULL || input[0] == '\0') {
+        int fd = open("/dev/null", O_RDONLY | O_CLOEXEC);
+        if (fd == -1)
+            *err = bc_error_new_printf(BLOGC_MAKE_ERROR_EXEC,
+                "Failed to open stdin: %s", strerror(errno));
+        return fd;
+    }
+
+    FILE *fp = tmpfile();
+    if (fp == NULL) {
+        *err = bc_error_new_printf(BLOGC_MAKE_ERROR_EXEC,
+            "Failed to create stdin temporary file: %s", strerror(errno));
+        return -1;
+    }
+
+    size_t len = strlen(input);
+    if (len != fwrite(input, 1, len, fp) || 0 != fflush(fp) ||
+        -1 == lseek(fileno(fp), 0, SEEK_SET))
+    {
+        *err = bc_error_new_printf(BLOGC_MAKE_ERROR_EXEC,
+            "Failed to write to stdin temporary file: %s", strerror(errno));
+        fclose(fp);
+        return -1;
+    }
+
+    int fd = fcntl(fileno(fp), F_DUPFD_CLOEXEC, 0);
+    if (fd == -1)
+        *err = bc_error_new_printf(BLOGC_MAKE_ERROR_EXEC,
+            "Failed to open stdin: %s", strerror(errno));
+    fclose(fp);
+    return fd;
+}
+
+
 int
 bm_exec_command(const char *cmd, const char *input, char **output,
     char **error, bc_error_t **err)
@@ -152,18 +191,15 @@ bm_exec_command(const char *cmd, const char *input, char **output,
     if (err == NULL || *err != NULL)
         return 1;
 
-    int fd_in[2];
-    if (-1 == open_pipe(fd_in)) {
-        *err = bc_error_new_printf(BLOGC_MAKE_ERROR_EXEC,
-            "Failed to create stdin pipe: %s", strerror(errno));
+    int fd_in = open_input(input, err);
+    if (*err != NULL)
         return 1;
-    }
 
     int fd_out[2];
     if (-1 == open_pipe(fd_out)) {
         *err = bc_error_new_printf(BLOGC_MAKE_ERROR_EXEC,
             "Failed to create stdout pipe: %s", strerror(errno));
-        close_pipe(fd_in);
+        close(fd_in);
         return 1;
     }
 
@@ -171,39 +207,27 @@ bm_exec_command(const char *cmd, const char *input, char **output,
     if (-1 == open_pipe(fd_err)) {
         *err = bc_error_new_printf(BLOGC_MAKE_ERROR_EXEC,
             "Failed to create stderr pipe: %s", strerror(errno));
-        close_pipe(fd_in);
+        close(fd_in);
         close_pipe(fd_out);
         return 1;
     }
 
-    // the command may finish without reading its whole input, this must not
-    // kill us.
-    struct sigaction ignore_action, sigpipe_action;
-    ignore_action.sa_handler = SIG_IGN;
-    sigemptyset(&ignore_action.sa_mask);
-    ignore_action.sa_flags = 0;
-    sigaction(SIGPIPE, &ignore_action, &sigpipe_action);
-
     pid_t pid = fork();
     if (pid == -1) {
         *err = bc_error_new_printf(BLOGC_MAKE_ERROR_EXEC,
             "Failed to fork: %s", strerror(errno));
-        close_pipe(fd_in);
+        close(fd_in);
         close_pipe(fd_out);
         close_pipe(fd_err);
-        sigaction(SIGPIPE, &sigpipe_action, NULL);
         return 1;
     }
 
     // child
     if (pid == 0) {
-        sigaction(SIGPIPE, &sigpipe_action, NULL);
-
-        close(fd_in[1]);
         close(fd_out[0]);
         close(fd_err[0]);
 
-        child_dup(fd_in[0], STDIN_FILENO);
+        child_dup(fd_in, STDIN_FILENO);
         child_dup(fd_out[1], STDOUT_FILENO);
         child_dup(fd_err[1], STDERR_FILENO);
 
@@ -220,36 +244,25 @@ bm_exec_command(const char *cmd, const char *input, char **output,
     }
 
     // parent
-    close(fd_in[0]);
-    fd_in[0] = -1;
+    close(fd_in);
     close(fd_out[1]);
     fd_out[1] = -1;
     close(fd_err[1]);
     fd_err[1] = -1;
 
-    size_t input_len = input != NULL ? strlen(input) : 0;
-    size_t written = 0;
     bc_string_t *out_str = NULL;
     bc_string_t *err_str = NULL;
 
-    // the pipes have limited capacity, so we need to feed the command and to
-    // collect its output at the same time.
-    while (fd_in[1] != -1 || fd_out[0] != -1 || fd_err[0] != -1) {
-
-        if (fd_in[1] != -1 && written == input_len) {
-            close(fd_in[1]);
-            fd_in[1] = -1;
-            continue;
-        }
+    // the pipes have limited capacity, so we need to read both at the same time.
+    while (fd_out[0] != -1 || fd_err[0] != -1) {
 
         // negative descriptors are ignored by poll
         struct pollfd fds[] = {
-            {.fd = fd_in[1], .events = POLLOUT},
             {.fd = fd_out[0], .events = POLLIN},
             {.fd = fd_err[0], .events = POLLIN},
         };
 
-        if (-1 == poll(fds, 3, -1)) {
+        if (-1 == poll(fds, 2, -1)) {
             if (errno == EINTR)
                 continue;
             *err = bc_error_new_printf(BLOGC_MAKE_ERROR_EXEC,
@@ -257,43 +270,21 @@ bm_exec_command(const char *cmd, const char *input, char **output,
             break;
         }
 
-        if (fds[0].revents != 0) {
-            // poll ensures that this amount of data won't block
-            size_t len = input_len - written;
-            if (len > PIPE_BUF)
-                len = PIPE_BUF;
-            ssize_t s = write(fd_in[1], input + written, len);
-            if (s != -1) {
-                written += s;
-            }
-            else if (errno == EPIPE) {
-                // the command isn't interested in the remaining input
-                written = input_len;
-            }
-            else if (errno != EINTR) {
-                *err = bc_error_new_printf(BLOGC_MAKE_ERROR_EXEC,
-                    "Failed to write to stdin pipe: %s", strerror(errno));
-                break;
-            }
-        }
-
-        if (fds[1].revents != 0 && 0 != read_available(&fd_out[0], &out_str)) {
+        if (fds[0].revents != 0 && 0 != read_available(&fd_out[0], &out_str)) {
             *err = bc_error_new_printf(BLOGC_MAKE_ERROR_EXEC,
                 "Failed to read from stdout pipe: %s", strerror(errno));
             break;
         }
 
-        if (fds[2].revents != 0 && 0 != read_available(&fd_err[0], &err_str)) {
+        if (fds[1].revents != 0 && 0 != read_available(&fd_err[0], &err_str)) {
             *err = bc_error_new_printf(BLOGC_MAKE_ERROR_EXEC,
                 "Failed to read from stderr pipe: %s", strerror(errno));
             break;
         }
     }
 
-    close_pipe(fd_in);
     close_pipe(fd_out);
     close_pipe(fd_err);
-    sigaction(SIGPIPE, &sigpipe_action, NULL);
 
     int status = 0;
     pid_t rv;
-- 
2.43.0


From 800578bcfc3bd04c74c3f1c88cb6c5529b27e9fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:57:22 +0000
Subject: [PATCH 13/58] fix: blogc-make: notice settings edited while they were
 being loaded

The modification time was looked up after reading the file, so an edit
between these operations would be missed.
---
 src/blogc-make/ctx.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/blogc-make/ctx.c b/src/blogc-make/ctx.c
index 1139206..afde006 100644
--- a/src/blogc-make/ctx.c
+++ b/src/blogc-make/ctx.c
@@ -196,6 +196,10 @@ bm_ctx_new(bm_ctx_t *base, const char *settings_file, const char *argv0,
     if (*err != NULL)
         return NULL;
 
+    // must be older than the content we are going to read
+    struct stat settings_stat;
+    bool settings_found = (0 == stat(abs_filename, &settings_stat));
+
     size_t content_len;
     char *content = bc_file_get_contents(abs_filename, true, &content_len,
         err);
@@ -249,7 +253,8 @@ bm_ctx_new(bm_ctx_t *base, const char *settings_file, const char *argv0,
     }
     rv->settings = settings;
 
-    rv->settings_fctx = bm_filectx_new(rv, abs_filename, NULL, NULL);
+    rv->settings_fctx = bm_filectx_new(rv, abs_filename, NULL,
+        settings_found ? &settings_stat : NULL);
     rv->root_dir = bc_strdup(dirname(abs_filename));
     free(abs_filename);
 
-- 
2.43.0


From 2f9b8661ad0333e9cc32b0fec6cec128bf0cd42d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:57:52 +0000
Subject: [PATCH 14/58] fix: blogc-make: don't silently skip the files to be
 copied that can't be listed

---
 src/blogc-make/ctx.c | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/src/blogc-make/ctx.c b/src/blogc-make/ctx.c
index afde006..15bc82c 100644
--- a/src/blogc-make/ctx.c
+++ b/src/blogc-make/ctx.c
@@ -60,6 +60,16 @@ bm_filectx_new(bm_ctx_t *ctx, const char *filename, const char *slug,
 }
 
 
+static bc_slist_t*
+append_unreadable(bc_slist_t *l, bm_ctx_t *ctx, const char *filename)
+{
+    // rules using this file will try to read it, and fail
+    bm_filectx_t *fctx = bm_filectx_new(ctx, filename, NULL, NULL);
+    fctx->readable = false;
+    return bc_slist_append(l, fctx);
+}
+
+
 bc_slist_t*
 bm_filectx_new_r(bc_slist_t *l, bm_ctx_t *ctx, const char *filename)
 {
@@ -71,6 +81,8 @@ bm_filectx_new_r(bc_slist_t *l, bm_ctx_t *ctx, const char *filename)
 
     struct stat buf;
     if (0 != stat(f, &buf)) {
+        if (errno != ENOENT && errno != ENOTDIR)
+            l = append_unreadable(l, ctx, filename);
         free(f);
         return l;
     }
@@ -78,18 +90,21 @@ bm_filectx_new_r(bc_slist_t *l, bm_ctx_t *ctx, const char *filename)
     if (S_ISDIR(buf.st_mode)) {
         DIR *dir = opendir(f);
         if (dir == NULL) {
+            l = append_unreadable(l, ctx, filename);
             free(f);
             return l;
         }
 
         struct dirent *e;
-        while (NULL != (e = readdir(dir))) {
+        while (errno = 0, NULL != (e = readdir(dir))) {
             if ((0 == strcmp(e->d_name, ".")) || (0 == strcmp(e->d_name, "..")))
                 continue;
             char *tmp = bc_strdup_printf("%s/%s", filename, e->d_name);
             l = bm_filectx_new_r(l, ctx, tmp);
             free(tmp);
         }
+        if (errno != 0)
+            l = append_unreadable(l, ctx, filename);
 
         closedir(dir);
         free(f);
-- 
2.43.0


From cbc115528008ae4d3998fa22753f1f1d285d9179 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:58:23 +0000
Subject: [PATCH 15/58] fix: blogc-make: keep watching after a broken settings
 file, and notice new files to be copied

If the settings can't be reloaded, the context was lost, and the watch and
runserver rules would fail forever, even after the settings were fixed.
---
 src/blogc-make/ctx.c | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/src/blogc-make/ctx.c b/src/blogc-make/ctx.c
index 15bc82c..2a80135 100644
--- a/src/blogc-make/ctx.c
+++ b/src/blogc-make/ctx.c
@@ -364,7 +364,7 @@ bm_ctx_reload(bm_ctx_t **ctx)
         // needs to dup path, because it may be freed when reloading.
         char *tmp = bc_strdup((*ctx)->settings_fctx->path);
         bc_error_t *err = NULL;
-        *ctx = bm_ctx_new(*ctx, tmp, NULL, &err);
+        bm_ctx_new(*ctx, tmp, NULL, &err);  // keeps the old data on error
         free(tmp);
         if (err != NULL) {
             bc_error_print(err, "blogc-make");
@@ -384,8 +384,15 @@ bm_ctx_reload(bm_ctx_t **ctx)
     for (bc_slist_t *tmp = (*ctx)->pages_fctx; tmp != NULL; tmp = tmp->next)
         bm_filectx_reload((bm_filectx_t*) tmp->data);
 
-    for (bc_slist_t *tmp = (*ctx)->copy_fctx; tmp != NULL; tmp = tmp->next)
-        bm_filectx_reload((bm_filectx_t*) tmp->data);
+    // directories may have new/deleted files
+    bc_slist_free_full((*ctx)->copy_fctx, (bc_free_func_t) bm_filectx_free);
+    (*ctx)->copy_fctx = NULL;
+    if ((*ctx)->settings->copy != NULL) {
+        for (size_t i = 0; (*ctx)->settings->copy[i] != NULL; i++) {
+            (*ctx)->copy_fctx = bm_filectx_new_r((*ctx)->copy_fctx, *ctx,
+                (*ctx)->settings->copy[i]);
+        }
+    }
 
     return true;
 }
-- 
2.43.0


From 79449f6626f392c07d6d5f8e8b4ab1e65617f4dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:58:23 +0000
Subject: [PATCH 16/58] fix: blogc-make: exit non-zero for unknown rules, even
 if followed by a valid rule

---
 src/blogc-make/rules.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/blogc-make/rules.c b/src/blogc-make/rules.c
index b467229..2fc8577 100644
--- a/src/blogc-make/rules.c
+++ b/src/blogc-make/rules.c
@@ -936,6 +936,7 @@ bm_rule_executor(bm_ctx_t *ctx, bc_slist_t *rule_list)
 
     const bm_rule_t *rule = NULL;
     int rv = 0;
+    bool not_found = false;
 
     for (bc_slist_t *l = rule_list; l != NULL; l = l->next) {
 
@@ -969,11 +970,11 @@ bm_rule_executor(bm_ctx_t *ctx, bc_slist_t *rule_list)
         if (rule == NULL) {
             fprintf(stderr, "blogc-make: error: rule not found: %.*s\n",
                 (int) (sep - rule_str), rule_str);
-            rv = 1;
+            not_found = true;
         }
     }
 
-    return rv;
+    return not_found ? 1 : rv;
 }
 
 
-- 
2.43.0


From 29e2f8d48fc2ea440ab1458780cced31e8243441 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:03:50 +0000
Subject: [PATCH 17/58] fix: blogc-make: clean rule must not skip files that it
 failed to look up

---
 src/blogc-make/rules.c | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/blogc-make/rules.c b/src/blogc-make/rules.c
index 2fc8577..6177cd3 100644
--- a/src/blogc-make/rules.c
+++ b/src/blogc-make/rules.c
@@ -1,6 +1,9 @@
 // SPDX-FileCopyrightText: 2014-2024 Rafael G. Martins <rafael@rafaelmartins.eng.br>
 // SPDX-License-Identifier: BSD-3-Clause
 
+#include <sys/types.h>
+#include <sys/stat.h>
+#include <errno.h>
 #include <stdbool.h>
 #include <stdio.h>
 #include <string.h>
@@ -731,7 +734,11 @@ clean_exec(bm_ctx_t *ctx, bc_slist_t *outputs, bc_trie_t *args)
         if (fctx == NULL)
             continue;
 
-        if (fctx->readable) {
+        // if we failed to look up the file, we don't know if it is there
+        struct stat buf;
+        if (fctx->readable || 0 == lstat(fctx->path, &buf) ||
+            (errno != ENOENT && errno != ENOTDIR))
+        {
             rv = bm_exec_native_rm(ctx->output_dir, fctx, ctx->verbose);
             if (rv != 0)
                 break;
-- 
2.43.0


From b5b69f6acfd7f39fa30288fa91b2689927f32f1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:53:07 +0000
Subject: [PATCH 18/58] fix: make blogc-make notice being stopped early or
 interrupted while stopping

A runserver that fails to start before the reloader begins was never
noticed, because the reloader reset the flag that tells it to stop. The
interrupt handler locked a mutex that the interrupted thread may hold.
---
 src/blogc-make/reloader.c | 67 +++++++++++++++++++++------------------
 1 file changed, 36 insertions(+), 31 deletions(-)

diff --git a/src/blogc-make/reloader.c b/src/blogc-make/reloader.c
index e025998..c66c0cb 100644
--- a/src/blogc-make/reloader.c
+++ b/src/blogc-make/reloader.c
@@ -18,14 +18,42 @@
 // directly is not a big issue
 
 static pthread_mutex_t mutex_running = PTHREAD_MUTEX_INITIALIZER;
-static bool running = false;
-static int reloader_status_code = 0;
+static volatile sig_atomic_t running = true;
+static volatile sig_atomic_t reloader_status_code = 0;
 static void (*handler_func)(int) = NULL;
 
+
+static void
+stop(int status_code)
+{
+    running = false;
+    reloader_status_code = status_code;
+
+    // reraise if SIGINT
+    if (status_code == SIGINT + 128) {
+
+        // reinstall old ^C handler
+        struct sigaction new_action;
+        new_action.sa_handler = handler_func;
+        sigemptyset(&new_action.sa_mask);
+        new_action.sa_flags = 0;
+        sigaction(SIGINT, &new_action, NULL);
+
+        // run it
+        raise(SIGINT);
+
+        // SIGINT will usually kill the process, but in the case that the
+        // `handler_func` prevents it, our custom handler will be reinstalled
+        // by `bm_reloader_run`.
+    }
+}
+
+
 static void
 sig_handler(int signum)
 {
-    bm_reloader_stop(signum + 128);
+    // can't lock the mutex from a signal handler
+    stop(signum + 128);
 }
 
 
@@ -41,9 +69,7 @@ bm_reloader_run(bm_ctx_t **ctx, bm_rule_exec_func_t rule_exec,
     }
     if (current_action.sa_handler != sig_handler) {  // not installed yet
         // backup current handler
-        pthread_mutex_lock(&mutex_running);
         handler_func = current_action.sa_handler;
-        pthread_mutex_unlock(&mutex_running);
 
         // set new handler
         struct sigaction new_action;
@@ -57,10 +83,6 @@ bm_reloader_run(bm_ctx_t **ctx, bm_rule_exec_func_t rule_exec,
         }
     }
 
-    pthread_mutex_lock(&mutex_running);
-    running = true;
-    pthread_mutex_unlock(&mutex_running);
-
     while (running) {
         if (!bm_ctx_reload(ctx)) {
             fprintf(stderr, "blogc-make: warning: failed to reload context. "
@@ -77,6 +99,10 @@ bm_reloader_run(bm_ctx_t **ctx, bm_rule_exec_func_t rule_exec,
         sleep(1);
     }
 
+    // it may run again. it can't be done when starting, because we may be asked
+    // to stop before that
+    running = true;
+
     return reloader_status_code;
 }
 
@@ -85,27 +111,6 @@ void
 bm_reloader_stop(int status_code)
 {
     pthread_mutex_lock(&mutex_running);
-
-    running = false;
-    reloader_status_code = status_code;
-
-    // reraise if SIGINT
-    if (status_code == SIGINT + 128) {
-
-        // reinstall old ^C handler
-        struct sigaction new_action;
-        new_action.sa_handler = handler_func;
-        sigemptyset(&new_action.sa_mask);
-        new_action.sa_flags = 0;
-        sigaction(SIGINT, &new_action, NULL);
-
-        // run it
-        raise(SIGINT);
-
-        // SIGINT will usually kill the process, but in the case that the
-        // `handler_func` prevents it, our custom handler will be reinstalled
-        // by `bm_reloader_run`.
-    }
-
+    stop(status_code);
     pthread_mutex_unlock(&mutex_running);
 }
-- 
2.43.0


From 0bad396c278e37f37e42e8c9ff98453a6bc26b25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:02:56 +0000
Subject: [PATCH 19/58] fix: read HTTP requests that come in several pieces

The end of a request was taken to be the first read that does not fill the
buffer, so that a request split into several segments was answered wrongly,
and one that exactly fills the buffer was waited for forever.
---
 src/blogc-runserver/httpd-utils.c | 43 ++++++++++++++++++++++++-------
 src/blogc-runserver/httpd-utils.h |  1 +
 2 files changed, 35 insertions(+), 9 deletions(-)

diff --git a/src/blogc-runserver/httpd-utils.c b/src/blogc-runserver/httpd-utils.c
index aa0be27..74fe2d1 100644
--- a/src/blogc-runserver/httpd-utils.c
+++ b/src/blogc-runserver/httpd-utils.c
@@ -1,6 +1,8 @@
 // SPDX-FileCopyrightText: 2014-2024 Rafael G. Martins <rafael@rafaelmartins.eng.br>
 // SPDX-License-Identifier: BSD-3-Clause
 
+#include <errno.h>
+#include <poll.h>
 #include <stdbool.h>
 #include <string.h>
 #include <unistd.h>
@@ -8,6 +10,21 @@
 #include "httpd-utils.h"
 
 
+static bool
+wait_data(int socket)
+{
+    struct pollfd fds = {
+        .fd = socket,
+        .events = POLLIN,
+    };
+    int rv;
+    do {
+        rv = poll(&fds, 1, READLINE_TIMEOUT * 1000);
+    } while (rv == -1 && errno == EINTR);
+    return rv > 0 && (fds.revents & (POLLIN | POLLHUP));
+}
+
+
 char*
 br_readline(int socket)
 {
@@ -15,20 +32,28 @@ br_readline(int socket)
     char buffer[READLINE_BUFFER_SIZE];
     ssize_t len;
     bool end = false;
+    bool blank = false;
+    bool done = false;
 
     while ((len = read(socket, buffer, READLINE_BUFFER_SIZE)) > 0) {
-        if (!end) {
-            for (ssize_t i = 0; i < len; i++) {
-                if (buffer[i] == '\r' || buffer[i] == '\n' || buffer[i] == '\0') {
-                    // we finished "recording", but still need to exhaust
-                    // request data.
-                    end = true;
-                    break;
-                }
+        for (ssize_t i = 0; i < len; i++) {
+            // we finish "recording" at the end of the first line, but still
+            // need to exhaust request data, up to the first blank line.
+            if (buffer[i] == '\r' || buffer[i] == '\n' || buffer[i] == '\0')
+                end = true;
+            if (!end)
                 bc_string_append_c(rv, buffer[i]);
+            if (buffer[i] == '\n') {
+                if (blank)
+                    done = true;
+                blank = true;
+            }
+            else if (buffer[i] != '\r') {
+                blank = false;
             }
         }
-        if (len < READLINE_BUFFER_SIZE) {
+        // the request may come in several pieces, of any size
+        if (done || !wait_data(socket)) {
             break;
         }
     }
diff --git a/src/blogc-runserver/httpd-utils.h b/src/blogc-runserver/httpd-utils.h
index db638ad..6067edd 100644
--- a/src/blogc-runserver/httpd-utils.h
+++ b/src/blogc-runserver/httpd-utils.h
@@ -4,6 +4,7 @@
 #pragma once
 
 #define READLINE_BUFFER_SIZE 2048
+#define READLINE_TIMEOUT 10  // seconds
 
 char* br_readline(int socket);
 int br_hextoi(const char c);
-- 
2.43.0


From 116de7787cfc2c24f70546a50268b2ece831a803 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:02:56 +0000
Subject: [PATCH 20/58] fix: send the rest of a HTTP response after a short
 write

---
 src/blogc-runserver/httpd.c | 28 +++++++++++++++++++++-------
 1 file changed, 21 insertions(+), 7 deletions(-)

diff --git a/src/blogc-runserver/httpd.c b/src/blogc-runserver/httpd.c
index a7293a2..49448c8 100644
--- a/src/blogc-runserver/httpd.c
+++ b/src/blogc-runserver/httpd.c
@@ -35,6 +35,23 @@ typedef struct {
 } request_data_t;
 
 
+static bool
+write_all(int socket, const char *str, size_t len)
+{
+    while (len > 0) {
+        ssize_t written = write(socket, str, len);
+        if (written < 0) {
+            if (errno == EINTR)
+                continue;
+            return false;
+        }
+        str += written;
+        len -= written;
+    }
+    return true;
+}
+
+
 static void
 error(int socket, int status_code, const char *error)
 {
@@ -45,8 +62,7 @@ error(int socket, int status_code, const char *error)
         "Connection: close\r\n"
         "\r\n"
         "<h1>%s</h1>\n", status_code, error, strlen(error) + 10, error);
-    size_t str_len = strlen(str);
-    if (str_len != write(socket, str, str_len)) {
+    if (!write_all(socket, str, strlen(str))) {
         fprintf(stderr, "warning: Failed to write full response header!\n");
     }
     free(str);
@@ -163,8 +179,7 @@ handle_request(void *arg)
             "Connection: close\r\n"
             "\r\n", path);
         status_code = 302;
-        size_t tmp_len = strlen(tmp);
-        if (tmp_len != write(client_socket, tmp, tmp_len)) {
+        if (!write_all(client_socket, tmp, strlen(tmp))) {
             fprintf(stderr, "warning: Failed to write full response header!\n");
         }
         free(tmp);
@@ -187,13 +202,12 @@ handle_request(void *arg)
         "Content-Length: %zu\r\n"
         "Connection: close\r\n"
         "\r\n", br_mime_guess_content_type(real_path), len);
-    size_t out_len = strlen(out);
-    if (out_len != write(client_socket, out, out_len)) {
+    if (!write_all(client_socket, out, strlen(out))) {
         fprintf(stderr, "warning: Failed to write full response header!\n");
     }
     free(out);
 
-    if (len != write(client_socket, contents, len)) {
+    if (!write_all(client_socket, contents, len)) {
         fprintf(stderr, "warning: Failed to write full response body!\n");
     }
     free(contents);
-- 
2.43.0


From f7786db54125592f6c392587abb92b6fa85b20f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:02:56 +0000
Subject: [PATCH 21/58] fix: don't crash on HTTP requests with empty path, nor
 leak empty requests

---
 src/blogc-runserver/httpd.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/blogc-runserver/httpd.c b/src/blogc-runserver/httpd.c
index 49448c8..d41e314 100644
--- a/src/blogc-runserver/httpd.c
+++ b/src/blogc-runserver/httpd.c
@@ -80,8 +80,10 @@ handle_request(void *arg)
     free(arg);
 
     char *conn_line = br_readline(client_socket);
-    if (conn_line == NULL || conn_line[0] == '\0')
+    if (conn_line == NULL || conn_line[0] == '\0') {
+        free(conn_line);
         goto point0;
+    }
 
     unsigned short status_code = 200;
 
@@ -99,7 +101,7 @@ handle_request(void *arg)
     }
 
     char **pieces2 = bc_str_split(pieces[1], '?', 2);
-    char *path = br_urldecode(pieces2[0]);
+    char *path = br_urldecode(pieces2[0] != NULL ? pieces2[0] : "");
     bc_strv_free(pieces2);
 
     if (path == NULL) {
-- 
2.43.0


From 0f27428e1ece95e3af668e3acd64c488e4d2d8af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:02:56 +0000
Subject: [PATCH 22/58] fix: don't serve files from outside of the document
 root

The siblings of the document root whose names start with its name were
served, and so were index files that are symbolic links to other places.
---
 src/blogc-runserver/httpd.c | 28 ++++++++++++++++++++++++++--
 1 file changed, 26 insertions(+), 2 deletions(-)

diff --git a/src/blogc-runserver/httpd.c b/src/blogc-runserver/httpd.c
index d41e314..c3476a3 100644
--- a/src/blogc-runserver/httpd.c
+++ b/src/blogc-runserver/httpd.c
@@ -69,6 +69,16 @@ error(int socket, int status_code, const char *error)
 }
 
 
+static bool
+is_inside(const char *root, const char *path)
+{
+    size_t len = strlen(root);
+    if (0 != strncmp(root, path, len))
+        return false;
+    return path[len] == '/' || path[len] == '\0' || root[len - 1] == '/';
+}
+
+
 static void*
 handle_request(void *arg)
 {
@@ -133,7 +143,7 @@ handle_request(void *arg)
         goto point3;
     }
 
-    if (0 != strncmp(real_root, real_path, strlen(real_root))) {
+    if (!is_inside(real_root, real_path)) {
         status_code = 404;
         error(client_socket, 404, "Not Found");
         goto point4;
@@ -162,7 +172,21 @@ handle_request(void *arg)
             add_slash = true;
 
         free(real_path);
-        real_path = found;
+        real_path = realpath(found, NULL);
+        free(found);
+
+        if (real_path == NULL) {
+            status_code = 500;
+            error(client_socket, 500, "Internal Server Error");
+            goto point4;
+        }
+
+        // the index may be a symbolic link
+        if (!is_inside(real_root, real_path)) {
+            status_code = 404;
+            error(client_socket, 404, "Not Found");
+            goto point4;
+        }
     }
 
     if (0 != access(real_path, F_OK)) {
-- 
2.43.0


From dfc7bb75c0359dc5b01d3ce5ca0c3babbdf81e64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:02:56 +0000
Subject: [PATCH 23/58] fix: keep serving after failing to accept a connection
 or to create a thread

---
 src/blogc-runserver/httpd.c | 31 +++++++++++++++++++++++++------
 1 file changed, 25 insertions(+), 6 deletions(-)

diff --git a/src/blogc-runserver/httpd.c b/src/blogc-runserver/httpd.c
index c3476a3..e69e561 100644
--- a/src/blogc-runserver/httpd.c
+++ b/src/blogc-runserver/httpd.c
@@ -403,12 +403,28 @@ br_httpd_run(const char *host, const char *port, const char *docroot,
 
         int client_socket = accept(server_socket, client_addr, &addrlen);
         if (client_socket == -1) {
-            fprintf(stderr, "Failed to accept connection: %s\n", strerror(errno));
-            rv = 1;
-            goto cleanup;
+            int tmp_errno = errno;
+            fprintf(stderr, "Failed to accept connection: %s\n",
+                strerror(tmp_errno));
+            switch (tmp_errno) {
+                case EBADF:
+                case EFAULT:
+                case EINVAL:
+                case ENOTSOCK:
+                case EOPNOTSUPP:
+                    rv = 1;
+                    goto cleanup;
+                case EMFILE:
+                case ENFILE:
+                case ENOBUFS:
+                case ENOMEM:
+                    // wait for some running request to release resources
+                    sleep(1);
+            }
+            continue;
         }
 
-        request_data_t *arg = malloc(sizeof(request_data_t));
+        request_data_t *arg = bc_malloc(sizeof(request_data_t));
         arg->thread_id = current_thread;
         arg->socket = client_socket;
         arg->ip = br_httpd_get_ip(ai_family, client_addr);
@@ -422,14 +438,17 @@ br_httpd_run(const char *host, const char *port, const char *docroot,
                 rv = 1;
                 goto cleanup;
             }
+            threads[current_thread].initialized = false;
         }
 
         if (pthread_create(&(threads[current_thread].thread), NULL,
             handle_request, arg) != 0)
         {
             fprintf(stderr, "Failed to create thread\n");
-            rv = 1;
-            goto cleanup;
+            close(client_socket);
+            free(arg->ip);
+            free(arg);
+            continue;
         }
 
         threads[current_thread++].initialized = true;
-- 
2.43.0


From 8f1665461f7c31ffc384a239eb76f0264bceff87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:02:56 +0000
Subject: [PATCH 24/58] fix: don't let clients that stop sending or receiving
 block the server forever

---
 src/blogc-runserver/httpd.c | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/src/blogc-runserver/httpd.c b/src/blogc-runserver/httpd.c
index e69e561..e3de83d 100644
--- a/src/blogc-runserver/httpd.c
+++ b/src/blogc-runserver/httpd.c
@@ -7,6 +7,7 @@
 #include <stdlib.h>
 #include <string.h>
 #include <sys/stat.h>
+#include <sys/time.h>
 #include <unistd.h>
 #include <sys/types.h>
 #include <sys/socket.h>
@@ -21,6 +22,7 @@
 #include "httpd-utils.h"
 
 #define LISTEN_BACKLOG 100
+#define SEND_TIMEOUT 60  // seconds
 
 typedef struct {
     pthread_t thread;
@@ -424,6 +426,18 @@ br_httpd_run(const char *host, const char *port, const char *docroot,
             continue;
         }
 
+        // a client that does nothing must not hold a thread forever
+        struct timeval rcv_timeout = {.tv_sec = READLINE_TIMEOUT};
+        struct timeval snd_timeout = {.tv_sec = SEND_TIMEOUT};
+        if (0 > setsockopt(client_socket, SOL_SOCKET, SO_RCVTIMEO,
+                &rcv_timeout, sizeof(rcv_timeout)) ||
+            0 > setsockopt(client_socket, SOL_SOCKET, SO_SNDTIMEO,
+                &snd_timeout, sizeof(snd_timeout)))
+        {
+            fprintf(stderr, "warning: Failed to set socket timeouts: %s\n",
+                strerror(errno));
+        }
+
         request_data_t *arg = bc_malloc(sizeof(request_data_t));
         arg->thread_id = current_thread;
         arg->socket = client_socket;
-- 
2.43.0


From 3775279e81a826bd2e698ea50f86f71b1389c23c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:02:56 +0000
Subject: [PATCH 25/58] fix: redirect to the URL of a directory even if its
 name must be encoded

---
 src/blogc-runserver/httpd.c | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/blogc-runserver/httpd.c b/src/blogc-runserver/httpd.c
index e3de83d..af53219 100644
--- a/src/blogc-runserver/httpd.c
+++ b/src/blogc-runserver/httpd.c
@@ -200,12 +200,19 @@ handle_request(void *arg)
     if (add_slash) {
         // production webservers usually returns 301 in such cases, but 302 is
         // better for development/testing.
+        // the path must be sent as it came, not decoded. two slashes in the
+        // beginning would be followed by a host name.
+        char *start = pieces[1];
+        while (start[0] == '/' && start[1] == '/')
+            start++;
+        char *location = bc_strndup(start, strcspn(start, "?"));
         char *tmp = bc_strdup_printf(
             "HTTP/1.0 302 Found\r\n"
             "Location: %s/\r\n"
             "Content-Length: 0\r\n"
             "Connection: close\r\n"
-            "\r\n", path);
+            "\r\n", location);
+        free(location);
         status_code = 302;
         if (!write_all(client_socket, tmp, strlen(tmp))) {
             fprintf(stderr, "warning: Failed to write full response header!\n");
-- 
2.43.0


From 11d5d588986623ed31645f9218f08e423b93e75b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:14:27 +0000
Subject: [PATCH 26/58] fix: git-receiver: do not follow symbolic links when
 removing directories

Removing the sources of a build, a failed build or the previous build followed
symbolic links: files outside of these directories were deleted, and a dangling
link aborted the removal, declining a push that was already deployed.
---
 src/blogc-git-receiver/pre-receive.c | 47 +++++++++++-----------------
 1 file changed, 19 insertions(+), 28 deletions(-)

diff --git a/src/blogc-git-receiver/pre-receive.c b/src/blogc-git-receiver/pre-receive.c
index b7235db..fcc81e2 100644
--- a/src/blogc-git-receiver/pre-receive.c
+++ b/src/blogc-git-receiver/pre-receive.c
@@ -30,57 +30,48 @@ cpu_count(void)
 }
 
 
+// removal happens when the outcome of the push is already settled, then its
+// failures are reported, but never change the outcome. symbolic links are
+// removed, never followed.
 static void
 rmdir_recursive(const char *dir)
 {
     if (dir == NULL)
         return;
     struct stat buf;
-    if (0 != stat(dir, &buf)) {
+    if (0 != lstat(dir, &buf)) {
+        if (errno != ENOENT)
+            fprintf(stderr, "warning: failed to remove directory (%s): %s\n",
+                dir, strerror(errno));
         return;
     }
     if (!S_ISDIR(buf.st_mode)) {
-        fprintf(stderr, "error: trying to remove invalid directory: %s\n", dir);
-        exit(2);
+        fprintf(stderr, "warning: trying to remove invalid directory: %s\n", dir);
+        return;
     }
     DIR *d = opendir(dir);
     if (d == NULL) {
-        fprintf(stderr, "error: failed to open directory: %s\n",
-            strerror(errno));
-        exit(2);
+        if (errno != ENOENT)
+            fprintf(stderr, "warning: failed to open directory (%s): %s\n", dir,
+                strerror(errno));
+        return;
     }
     struct dirent *e;
     while (NULL != (e = readdir(d))) {
         if ((0 == strcmp(e->d_name, ".")) || (0 == strcmp(e->d_name, "..")))
             continue;
         char *f = bc_strdup_printf("%s/%s", dir, e->d_name);
-        if (0 != stat(f, &buf)) {
-            fprintf(stderr, "error: failed to stat directory entry (%s): %s\n",
-                e->d_name, strerror(errno));
-            free(f);
-            exit(2);
-        }
-        if (S_ISDIR(buf.st_mode)) {
+        if ((0 == lstat(f, &buf)) && S_ISDIR(buf.st_mode))
             rmdir_recursive(f);
-        }
-        else if (0 != unlink(f)) {
-            fprintf(stderr, "error: failed to remove file (%s): %s\n", f,
+        else if ((0 != unlink(f)) && (errno != ENOENT))
+            fprintf(stderr, "warning: failed to remove file (%s): %s\n", f,
                 strerror(errno));
-            free(f);
-            exit(2);
-        }
         free(f);
     }
-    if (0 != closedir(d)) {
-        fprintf(stderr, "error: failed to close directory: %s\n",
+    closedir(d);
+    if ((0 != rmdir(dir)) && (errno != ENOENT))
+        fprintf(stderr, "warning: failed to remove directory (%s): %s\n", dir,
             strerror(errno));
-        exit(2);
-    }
-    if (0 != rmdir(dir)) {
-        fprintf(stderr, "error: failed to remove directory: %s\n",
-            strerror(errno));
-        exit(2);
-    }
 }
 
 
-- 
2.43.0


From 5581f417c1756dd6209b4ec47cc5735a8ab2d130 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:15:07 +0000
Subject: [PATCH 27/58] fix: git-receiver: replace the website symlink
 atomically

The symlink was removed and then created again: the website was unavailable in
between, it was lost if the hook was interrupted there, and dangling symlinks
were never replaced.
---
 src/blogc-git-receiver/pre-receive.c | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/blogc-git-receiver/pre-receive.c b/src/blogc-git-receiver/pre-receive.c
index fcc81e2..1e03bc7 100644
--- a/src/blogc-git-receiver/pre-receive.c
+++ b/src/blogc-git-receiver/pre-receive.c
@@ -272,21 +272,21 @@ default_sym:
     free(build_cmd);
 
     char *htdocs_sym = realpath(sym, NULL);
-    if ((htdocs_sym != NULL) && (0 != unlink(sym))) {
-        fprintf(stderr, "error: failed to remove symlink (%s): %s\n", sym,
-            strerror(errno));
-        rmdir_recursive(output_dir);
-        rv = 1;
-        goto cleanup2;
-    }
 
-    if (0 != symlink(output_dir, sym)) {
+    // the new symlink is created aside and renamed, then the website is
+    // available at any time, and a dangling symlink is replaced.
+    char *tmp_sym = bc_strdup_printf("%s.%d", sym, (int) getpid());
+    unlink(tmp_sym);  // left by an interrupted process, that had the same pid
+    if (0 != symlink(output_dir, tmp_sym) || 0 != rename(tmp_sym, sym)) {
         fprintf(stderr, "error: failed to create symlink (%s): %s\n", sym,
             strerror(errno));
+        unlink(tmp_sym);
+        free(tmp_sym);
         rmdir_recursive(output_dir);
         rv = 1;
         goto cleanup2;
     }
+    free(tmp_sym);
 
     if (htdocs_sym != NULL)
         rmdir_recursive(htdocs_sym);
-- 
2.43.0


From 10cb82f2bf2f1dc6cc157411b226d737b9afd6bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:15:10 +0000
Subject: [PATCH 28/58] fix: git-receiver: never share a build directory

The name of a build was not unique if the same commit was deployed more than
once in the same second, by concurrent pushes or by pushes to more than two
repositories: the builds were mixed, and the next deployment of one of the
repositories removed the website of the others.
---
 src/blogc-git-receiver/pre-receive.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/blogc-git-receiver/pre-receive.c b/src/blogc-git-receiver/pre-receive.c
index 1e03bc7..70053d5 100644
--- a/src/blogc-git-receiver/pre-receive.c
+++ b/src/blogc-git-receiver/pre-receive.c
@@ -210,10 +210,11 @@ default_sym:
     }
 
     unsigned long epoch = time(NULL);
-    output_dir = bc_strdup_printf("%s/%s-%lu", buildsd, ref, epoch);
+    output_dir = bc_strdup_printf("%s/%s-%lu-%d", buildsd, ref, epoch,
+        (int) getpid());
     free(buildsd);
 
-    if (0 == access(output_dir, F_OK)) {
+    while (0 == access(output_dir, F_OK)) {
         char *tmp = output_dir;
         output_dir = bc_strdup_printf("%s-", tmp);
         free(tmp);
-- 
2.43.0


From 9643da39d3b1a52f0dc8babf9ec318c9607f7d16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:15:13 +0000
Subject: [PATCH 29/58] fix: git-receiver: remove nothing but builds when
 replacing the symlink

If the symlink led to something that was not built by us, it was removed with
all its content. If a regular file was in the place of the symlink, it was the
new build that was removed.
---
 src/blogc-git-receiver/pre-receive.c | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/src/blogc-git-receiver/pre-receive.c b/src/blogc-git-receiver/pre-receive.c
index 70053d5..090937c 100644
--- a/src/blogc-git-receiver/pre-receive.c
+++ b/src/blogc-git-receiver/pre-receive.c
@@ -1,6 +1,7 @@
 // SPDX-FileCopyrightText: 2014-2024 Rafael G. Martins <rafael@rafaelmartins.eng.br>
 // SPDX-License-Identifier: BSD-3-Clause
 
+#include <stdbool.h>
 #include <stdio.h>
 #include <stdlib.h>
 #include <string.h>
@@ -75,6 +76,18 @@ rmdir_recursive(const char *dir)
 }
 
 
+// builds are named after the commit and the time: "hash-epoch..."
+static bool
+is_build(const char *dir)
+{
+    const char *name = strrchr(dir, '/');
+    name = name == NULL ? dir : name + 1;
+    size_t hash_len = strspn(name, "0123456789abcdef");
+    return hash_len >= 40 && name[hash_len] == '-' &&
+        name[hash_len + 1] >= '0' && name[hash_len + 1] <= '9';
+}
+
+
 int
 bgr_pre_receive_hook(int argc, char *argv[])
 {
@@ -289,7 +302,7 @@ default_sym:
     }
     free(tmp_sym);
 
-    if (htdocs_sym != NULL)
+    if ((htdocs_sym != NULL) && is_build(htdocs_sym))
         rmdir_recursive(htdocs_sym);
 
 cleanup2:
-- 
2.43.0


From c37ea03b32a6e3a0857f6f0e7bbecfc636f6145a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:15:17 +0000
Subject: [PATCH 30/58] fix: git-receiver: don't build from an incomplete copy
 of the commit

The exit status of git archive was lost in a pipe, then an interrupted archive
could be deployed as if it was complete. Also report failures to create the
temporary directory.
---
 src/blogc-git-receiver/pre-receive.c | 20 +++++++++++++++++---
 1 file changed, 17 insertions(+), 3 deletions(-)

diff --git a/src/blogc-git-receiver/pre-receive.c b/src/blogc-git-receiver/pre-receive.c
index 090937c..efe985e 100644
--- a/src/blogc-git-receiver/pre-receive.c
+++ b/src/blogc-git-receiver/pre-receive.c
@@ -95,6 +95,7 @@ bgr_pre_receive_hook(int argc, char *argv[])
     char *ref = NULL;
     char *output_dir = NULL;
     char *tmpdir = NULL;
+    char *srcdir = NULL;
     char *sym = NULL;
 
     char *hooks_dir = dirname(argv[0]);  // this was validated by main()
@@ -192,13 +193,25 @@ default_sym:
 
     char dir[] = "/tmp/blogc_XXXXXX";
     if (NULL == mkdtemp(dir)) {
+        fprintf(stderr, "error: failed to create temporary directory: %s\n",
+            strerror(errno));
         rv = 1;
         goto cleanup;
     }
     tmpdir = dir;
 
+    srcdir = bc_strdup_printf("%s/src", tmpdir);
+    if (0 != mkdir(srcdir, 0777)) {
+        fprintf(stderr, "error: failed to create temporary directory (%s): %s\n",
+            srcdir, strerror(errno));
+        rv = 1;
+        goto cleanup;
+    }
+
+    // no pipe here, the shell would ignore failures of git
     char *git_archive_cmd = bc_strdup_printf(
-        "git archive \"%s\" | tar -x -C \"%s\" -f -", ref, tmpdir);
+        "git archive --format=tar --output=\"%s/src.tar\" \"%s\" && "
+        "tar -x -C \"%s\" -f \"%s/src.tar\"", tmpdir, ref, srcdir, tmpdir);
     if (0 != system(git_archive_cmd)) {
         fprintf(stderr, "error: failed to extract git content to temporary "
             "directory: %s\n", tmpdir);
@@ -208,8 +221,8 @@ default_sym:
     }
     free(git_archive_cmd);
 
-    if (0 != chdir(tmpdir)) {
-        fprintf(stderr, "error: failed to chdir (%s): %s\n", tmpdir,
+    if (0 != chdir(srcdir)) {
+        fprintf(stderr, "error: failed to chdir (%s): %s\n", srcdir,
             strerror(errno));
         rv = 1;
         goto cleanup;
@@ -313,6 +326,7 @@ cleanup:
     free(ref);
     free(output_dir);
     rmdir_recursive(tmpdir);
+    free(srcdir);
     free(repo_dir);
     return rv;
 }
-- 
2.43.0


From c6716db987608ca2df2c58a766856ed22f961fd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:22:13 +0000
Subject: [PATCH 31/58] fix: git-receiver: reject repositories outside of the
 repositories directory

---
 src/blogc-git-receiver/shell-command-parser.c | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/src/blogc-git-receiver/shell-command-parser.c b/src/blogc-git-receiver/shell-command-parser.c
index 7cf9fbf..1423230 100644
--- a/src/blogc-git-receiver/shell-command-parser.c
+++ b/src/blogc-git-receiver/shell-command-parser.c
@@ -16,6 +16,20 @@ typedef enum {
 } command_state_t;
 
 
+// a repository must never be outside of the repositories directory
+static bool
+has_parent_component(const char *path)
+{
+    for (const char *p = path; p != NULL; p = strchr(p, '/')) {
+        if (*p == '/')
+            p++;
+        if ((0 == strncmp(p, "..", 2)) && (p[2] == '/' || p[2] == '\0'))
+            return true;
+    }
+    return false;
+}
+
+
 char*
 bgr_shell_command_parse(const char *command)
 {
@@ -87,7 +101,7 @@ bgr_shell_command_parse(const char *command)
         }
     }
 
-    if (rv->len > 0)
+    if (rv->len > 0 && !has_parent_component(rv->str))
         return bc_string_free(rv, false);
 
 error:
-- 
2.43.0


From 339ad6aa222b83064946df4a787fd1c62124258b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:22:16 +0000
Subject: [PATCH 32/58] fix: git-receiver: quote the mirror repository

---
 src/blogc-git-receiver/post-receive.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/blogc-git-receiver/post-receive.c b/src/blogc-git-receiver/post-receive.c
index 7e56b85..99b4509 100644
--- a/src/blogc-git-receiver/post-receive.c
+++ b/src/blogc-git-receiver/post-receive.c
@@ -71,7 +71,9 @@ bgr_post_receive_hook(int argc, char *argv[])
 push:
 
     {
-        char *git_cmd = bc_strdup_printf("git push --mirror %s", mirror);
+        char *quoted_mirror = bc_shell_quote(mirror);
+        char *git_cmd = bc_strdup_printf("git push --mirror %s", quoted_mirror);
+        free(quoted_mirror);
         if (0 != system(git_cmd))
             fprintf(stderr, "warning: failed push to git mirror\n");
         free(git_cmd);
-- 
2.43.0


From c21a85ca8674df9a1997915f84fbdc35eac31f3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:22:48 +0000
Subject: [PATCH 33/58] fix: git-receiver: replace the hooks atomically

---
 src/blogc-git-receiver/shell.c | 62 +++++++++++++++-------------------
 1 file changed, 27 insertions(+), 35 deletions(-)

diff --git a/src/blogc-git-receiver/shell.c b/src/blogc-git-receiver/shell.c
index 0872a56..d3f5a28 100644
--- a/src/blogc-git-receiver/shell.c
+++ b/src/blogc-git-receiver/shell.c
@@ -14,13 +14,29 @@
 #include "shell.h"
 
 
-static bool
-lexists(const char *pathname)
+// the symlink is created aside and renamed, then concurrent pushes always find
+// a working hook.
+static int
+install_hook(const char *repo, const char *self, const char *hook)
 {
-    struct stat b;
-    int tmp_errno = errno;
-    bool rv = lstat(pathname, &b) == 0;
-    errno = tmp_errno;
+    char target[4096];
+    ssize_t len = readlink(hook, target, sizeof(target));
+    if (len >= 0 && (size_t) len == strlen(self) &&
+        0 == strncmp(target, self, (size_t) len))
+    {
+        return 0;
+    }
+
+    int rv = 0;
+    char *tmp = bc_strdup_printf(".%s.%d", hook, (int) getpid());
+    unlink(tmp);  // left by an interrupted process, that had the same pid
+    if (0 != symlink(self, tmp) || 0 != rename(tmp, hook)) {
+        fprintf(stderr, "error: failed to create symlink (%s/hooks/%s): %s\n",
+            repo, hook, strerror(errno));
+        unlink(tmp);
+        rv = 1;
+    }
+    free(tmp);
     return rv;
 }
 
@@ -87,7 +103,8 @@ bgr_shell(int argc, char *argv[])
     if (0 != access("hooks", F_OK)) {
         // openwrt git package won't install git templates, then the git
         // repositories created with it won't have the hooks/ directory.
-        if (0 != mkdir("hooks", 0777)) {  // mkdir honors umask for us.
+        // mkdir honors umask for us.
+        if (0 != mkdir("hooks", 0777) && errno != EEXIST) {
             fprintf(stderr, "error: failed to create directory (%s/hooks): "
                 "%s\n", repo, strerror(errno));
             rv = 1;
@@ -102,34 +119,9 @@ bgr_shell(int argc, char *argv[])
         goto cleanup;
     }
 
-    if (lexists("pre-receive")) {
-        if (0 != unlink("pre-receive")) {
-            fprintf(stderr, "error: failed to remove old symlink "
-                "(%s/hooks/pre-receive): %s\n", repo, strerror(errno));
-            rv = 1;
-            goto cleanup;
-        }
-    }
-
-    if (0 != symlink(self, "pre-receive")) {
-        fprintf(stderr, "error: failed to create symlink "
-            "(%s/hooks/pre-receive): %s\n", repo, strerror(errno));
-        rv = 1;
-        goto cleanup;
-    }
-
-    if (lexists("post-receive")) {
-        if (0 != unlink("post-receive")) {
-            fprintf(stderr, "error: failed to remove old symlink "
-                "(%s/hooks/post-receive): %s\n", repo, strerror(errno));
-            rv = 1;
-            goto cleanup;
-        }
-    }
-
-    if (0 != symlink(self, "post-receive")) {
-        fprintf(stderr, "error: failed to create symlink "
-            "(%s/hooks/post-receive): %s\n", repo, strerror(errno));
+    if (0 != install_hook(repo, self, "pre-receive") ||
+        0 != install_hook(repo, self, "post-receive"))
+    {
         rv = 1;
         goto cleanup;
     }
-- 
2.43.0


From 66581e2919984330435957d3f253b204c094ccfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:22:52 +0000
Subject: [PATCH 34/58] fix: git-receiver: finish repositories whose creation
 was interrupted

---
 src/blogc-git-receiver/shell.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/blogc-git-receiver/shell.c b/src/blogc-git-receiver/shell.c
index d3f5a28..989bf3a 100644
--- a/src/blogc-git-receiver/shell.c
+++ b/src/blogc-git-receiver/shell.c
@@ -48,6 +48,7 @@ bgr_shell(int argc, char *argv[])
 
     char *repo = NULL;
     char *quoted_repo = NULL;
+    char *objects = NULL;
 
     // get shell path
     char *self = getenv("SHELL");
@@ -80,7 +81,9 @@ bgr_shell(int argc, char *argv[])
     if (0 == strncmp(argv[2], "git-upload-", 11))  // no need to check len here
         goto git_exec;
 
-    if (0 != access(repo, F_OK)) {
+    // git-init is safe to run again, if it was interrupted before
+    objects = bc_strdup_printf("%s/objects", repo);
+    if (0 != access(objects, F_OK)) {
         char *git_init_cmd = bc_strdup_printf(
             "git init --bare %s > /dev/null", quoted_repo);
         if (0 != system(git_init_cmd)) {
@@ -157,6 +160,7 @@ git_exec:
     free(command);
     free(repo);
     free(quoted_repo);
+    free(objects);
 
     // this is a hack. no memory handling should be done inside this block
     if (NULL == getenv("__VALGRIND_ENABLED")) {
@@ -173,5 +177,6 @@ git_exec:
 cleanup:
     free(repo);
     free(quoted_repo);
+    free(objects);
     return rv;
 }
-- 
2.43.0


From 75acc056887f9cd12fb7b4924d4287de46990214 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:23:09 +0000
Subject: [PATCH 35/58] fix: git-receiver: report settings that could not be
 found because of errors

---
 src/blogc-git-receiver/settings.c | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/blogc-git-receiver/settings.c b/src/blogc-git-receiver/settings.c
index 8c28370..0ce729b 100644
--- a/src/blogc-git-receiver/settings.c
+++ b/src/blogc-git-receiver/settings.c
@@ -1,6 +1,7 @@
 // SPDX-FileCopyrightText: 2014-2024 Rafael G. Martins <rafael@rafaelmartins.eng.br>
 // SPDX-License-Identifier: BSD-3-Clause
 
+#include <errno.h>
 #include <stdio.h>
 #include <libgen.h>
 #include <unistd.h>
@@ -49,9 +50,14 @@ bgr_settings_get_section(bc_config_t *config, const char *repo_path)
         if (bc_str_starts_with(sections[i], "repo:")) {
             char *tmp_repo = bc_strdup_printf("%s/repos/%s", bd, sections[i] + 5);
             char *real_tmp_repo = realpath(tmp_repo, NULL);  // maybe not needed
-            free(tmp_repo);
-            if (real_tmp_repo == NULL)
+            if (real_tmp_repo == NULL) {
+                if (errno != ENOENT && errno != ENOTDIR)
+                    fprintf(stderr, "warning: failed to find repository (%s): "
+                        "%s\n", tmp_repo, strerror(errno));
+                free(tmp_repo);
                 continue;
+            }
+            free(tmp_repo);
             if (0 == strcmp(real_tmp_repo, repo_path)) {
                 rv = bc_strdup(sections[i]);
                 free(real_tmp_repo);
@@ -74,6 +80,9 @@ bgr_settings_parse(void)
     }
     char *config_file = bc_strdup_printf("%s/blogc-git-receiver.ini", bd);
     if ((0 != access(config_file, F_OK))) {
+        if (errno != ENOENT && errno != ENOTDIR)
+            fprintf(stderr, "warning: failed to find configuration file (%s): "
+                "%s\n", config_file, strerror(errno));
         free(config_file);
         return NULL;
     }
-- 
2.43.0


From 2042cdbcc9e29b2cf304b081a94eb6f43c753f90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:26:06 +0000
Subject: [PATCH 36/58] fix: git-receiver: don't accept a push whose build
 rules could not be found because of errors

---
 src/blogc-git-receiver/pre-receive.c | 26 ++++++++++++++++++++++++--
 1 file changed, 24 insertions(+), 2 deletions(-)

diff --git a/src/blogc-git-receiver/pre-receive.c b/src/blogc-git-receiver/pre-receive.c
index efe985e..6d943ed 100644
--- a/src/blogc-git-receiver/pre-receive.c
+++ b/src/blogc-git-receiver/pre-receive.c
@@ -76,6 +76,19 @@ rmdir_recursive(const char *dir)
 }
 
 
+// anything but the lack of the file is an error, it may exist
+static int
+find_file(const char *f)
+{
+    if (0 == access(f, F_OK))
+        return 1;
+    if (errno == ENOENT || errno == ENOTDIR)
+        return 0;
+    fprintf(stderr, "error: failed to find %s: %s\n", f, strerror(errno));
+    return -1;
+}
+
+
 // builds are named after the commit and the time: "hash-epoch..."
 static bool
 is_build(const char *dir)
@@ -249,7 +262,16 @@ default_sym:
     // detect if we will run blogc-make, make or nothing, and generate the
     // command.
     char *build_cmd = NULL;
-    if (0 == access("blogcfile", F_OK)) {
+    int found_blogcfile = find_file("blogcfile");
+    int found_makefile = found_blogcfile != 0 ? 0 : find_file("Makefile");
+    if (found_blogcfile == 0 && found_makefile == 0)
+        found_makefile = find_file("GNUMakefile");
+    if (found_blogcfile < 0 || found_makefile < 0) {
+        rv = 1;
+        goto cleanup;
+    }
+
+    if (found_blogcfile) {
         int status_bmake = system("blogc-make -v 2> /dev/null > /dev/null");
         if (127 == bc_compat_status_code(status_bmake)) {
             fprintf(stderr, "error: failed to find blogc-make binary\n");
@@ -259,7 +281,7 @@ default_sym:
         build_cmd = bc_strdup_printf("OUTPUT_DIR=\"%s\" blogc-make -V all",
             output_dir);
     }
-    else if ((0 == access("Makefile", F_OK)) || (0 == access("GNUMakefile", F_OK))) {
+    else if (found_makefile) {
         const char *make_impl = NULL;
 
         int status_gmake = system("gmake -f /dev/null 2> /dev/null > /dev/null");
-- 
2.43.0


From 1b626620ce11473ca399d4c1eecd026a2307399a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:26:29 +0000
Subject: [PATCH 37/58] fix: git-receiver: rebuild nothing but builds

---
 src/blogc-git-receiver/pre-receive.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/blogc-git-receiver/pre-receive.c b/src/blogc-git-receiver/pre-receive.c
index 6d943ed..e17cd56 100644
--- a/src/blogc-git-receiver/pre-receive.c
+++ b/src/blogc-git-receiver/pre-receive.c
@@ -170,12 +170,12 @@ default_sym:
             rv = 1;
             goto cleanup;
         }
-        char **pieces = bc_str_split(basename(build_dir), '-', 2);
+        char **pieces = is_build(build_dir) ?
+            bc_str_split(basename(build_dir), '-', 2) : NULL;
         free(build_dir);
-        if (bc_strv_length(pieces) != 2) {
+        if (pieces == NULL) {
             fprintf(stderr, "error: failed to parse the hash of last built "
                 "commit.\n");
-            bc_strv_free(pieces);
             rv = 1;
             goto cleanup;
         }
-- 
2.43.0


From b5b7decd9b5a2d65ef05daae794d977bc9a32622 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:08:14 +0000
Subject: [PATCH 38/58] fix: git-receiver: decline pushes whose build creates
 no website

---
 src/blogc-git-receiver/pre-receive.c | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/blogc-git-receiver/pre-receive.c b/src/blogc-git-receiver/pre-receive.c
index e17cd56..7e89cb8 100644
--- a/src/blogc-git-receiver/pre-receive.c
+++ b/src/blogc-git-receiver/pre-receive.c
@@ -320,6 +320,15 @@ default_sym:
     }
     free(build_cmd);
 
+    struct stat buf;
+    if (0 != stat(output_dir, &buf) || !S_ISDIR(buf.st_mode)) {
+        fprintf(stderr, "error: the build created no output directory (%s)\n",
+            output_dir);
+        rmdir_recursive(output_dir);
+        rv = 1;
+        goto cleanup;
+    }
+
     char *htdocs_sym = realpath(sym, NULL);
 
     // the new symlink is created aside and renamed, then the website is
-- 
2.43.0


From 970fadb66ce2e88f4f21dac2671c9d42ca14a671 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:22:35 +0000
Subject: [PATCH 39/58] fix: make: do not use blog_prefix as format string

---
 src/blogc-make/atom.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/blogc-make/atom.c b/src/blogc-make/atom.c
index ebf68b2..6f23a60 100644
--- a/src/blogc-make/atom.c
+++ b/src/blogc-make/atom.c
@@ -58,7 +58,7 @@ bm_atom_generate(bm_settings_t *settings)
 
     if (blog_prefix != NULL) {
         bc_string_append_c(atom_url, '/');
-        bc_string_append_printf(atom_url, blog_prefix);
+        bc_string_append(atom_url, blog_prefix);
     }
 
     if (atom_prefix[0] != '\0')
-- 
2.43.0


From e07332e8b3d5fe4e86c4623573caaf0949044d92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:22:40 +0000
Subject: [PATCH 40/58] fix: make: report commands that fail without any
 message

---
 src/blogc-make/exec.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/blogc-make/exec.c b/src/blogc-make/exec.c
index e7f2a3c..d32aa06 100644
--- a/src/blogc-make/exec.c
+++ b/src/blogc-make/exec.c
@@ -463,6 +463,10 @@ bm_exec_blogc(bm_ctx_t *ctx, bc_trie_t *global_variables, bc_trie_t *local_varia
     else if (err != NULL) {
         fprintf(stderr, "%s\n", err);
     }
+    else if (rv != 0) {
+        fprintf(stderr, "blogc-make: error: Failed to execute command, returned "
+            "status code: %d\n", rv);
+    }
 
     bc_string_free(input, true);
     free(cmd);
-- 
2.43.0


From 8851fe6f0de22b42d84a2a6209b7466e6dfb9b20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:38:22 +0000
Subject: [PATCH 41/58] fix: blogc: do not parse past the end of an emphasized
 text with an open link

---
 src/blogc/content-parser.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/blogc/content-parser.c b/src/blogc/content-parser.c
index fe2e84f..65a6886 100644
--- a/src/blogc/content-parser.c
+++ b/src/blogc/content-parser.c
@@ -605,7 +605,8 @@ blogc_content_parse_inline_internal(const char *src, size_t src_len)
         case CONTENT_INLINE_LINK_CONTENT:
         case CONTENT_INLINE_LINK_URL_START:
         case CONTENT_INLINE_LINK_URL:
-            tmp2 = blogc_content_parse_inline(src + start_link);
+            tmp2 = blogc_content_parse_inline_internal(src + start_link,
+                src_len - start_link);
             bc_string_append_c(rv, '[');
             bc_string_append_escaped(rv, tmp2);  // no need to free, as it wil be done below.
             break;
-- 
2.43.0


From c330fc9591089f53218ac02bde1068bb2d77890b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:38:26 +0000
Subject: [PATCH 42/58] fix: blogc: sort sources by date even if the dates are
 far from each other

---
 src/blogc/loader.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/blogc/loader.c b/src/blogc/loader.c
index 4006084..0ce4ae5 100644
--- a/src/blogc/loader.c
+++ b/src/blogc/loader.c
@@ -116,10 +116,10 @@ sort_source(const void *a, const void *b)
         return 0;  // wat
     }
 
-    unsigned long la = strtoul(ca, NULL, 10);
-    unsigned long lb = strtoul(cb, NULL, 10);
+    long long la = strtoll(ca, NULL, 10);
+    long long lb = strtoll(cb, NULL, 10);
 
-    return (int) (lb - la);
+    return la == lb ? 0 : (lb > la ? 1 : -1);
 }
 
 
-- 
2.43.0


From 40474cf9d7067b89754701e7b4bf1843e02279ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:38:29 +0000
Subject: [PATCH 43/58] fix: blogc: there are no pages if FILTER_PER_PAGE is
 zero

---
 src/blogc/loader.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/blogc/loader.c b/src/blogc/loader.c
index 0ce4ae5..9c49af1 100644
--- a/src/blogc/loader.c
+++ b/src/blogc/loader.c
@@ -297,7 +297,7 @@ blogc_source_parse_from_files(bc_trie_t *conf, bc_slist_t *l, bc_error_t **err)
     }
 
     if (filter_page != NULL) {
-        size_t last_page = ceilf(((float) counter) / per_page);
+        size_t last_page = per_page == 0 ? 0 : ceilf(((float) counter) / per_page);
         bc_trie_insert(conf, "CURRENT_PAGE", bc_strdup_printf("%ld", page));
         if (page > 1)
             bc_trie_insert(conf, "PREVIOUS_PAGE", bc_strdup_printf("%ld", page - 1));
-- 
2.43.0


From 2a693d653922140e23191042248ba34bec50ac81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:38:33 +0000
Subject: [PATCH 44/58] fix: blogc: local variables are not available in
 listing_once blocks

---
 src/blogc/renderer.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/blogc/renderer.c b/src/blogc/renderer.c
index 4822294..523dace 100644
--- a/src/blogc/renderer.c
+++ b/src/blogc/renderer.c
@@ -293,6 +293,9 @@ blogc_render(bc_slist_t *tmpl, bc_slist_t *sources, bc_slist_t *listing_entries,
                         }
                         break;
                     }
+                    // variables of a source rendered before this block are not
+                    // available here.
+                    tmp_source = NULL;
                 }
                 if (0 == strcmp("listing_empty", node->data[0])) {
                     if (sources != NULL) {
-- 
2.43.0


From 54a4f508ec174d2c49ae4e542475475141b5c018 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:11:43 +0000
Subject: [PATCH 45/58] fix: keep the trailing text of templates that end after
 a lone bracket

The character after a '{' that opens no block was consumed without the check
for the end of the template, which lost the text since the last statement.
---
 src/blogc/template-parser.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/blogc/template-parser.c b/src/blogc/template-parser.c
index 08b5685..3c24597 100644
--- a/src/blogc/template-parser.c
+++ b/src/blogc/template-parser.c
@@ -141,7 +141,7 @@ blogc_template_parse(const char *src, size_t src_len, bc_error_t **err)
                     break;
                 }
                 state = TEMPLATE_START;
-                break;
+                continue;
 
             case TEMPLATE_BLOCK_START_WHITESPACE_CLEANER:
                 if (c == '-') {
-- 
2.43.0


From 99f238ebb40c8bcbd77559aefe1b63097bb17825 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:11:47 +0000
Subject: [PATCH 46/58] fix: forget the lines of a rejected list item

The list of continuation lines was freed but kept, then used by the next list.
---
 src/blogc/content-parser.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/blogc/content-parser.c b/src/blogc/content-parser.c
index 65a6886..320b26b 100644
--- a/src/blogc/content-parser.c
+++ b/src/blogc/content-parser.c
@@ -1101,6 +1101,7 @@ blogc_content_parse(const char *src, size_t *end_excerpt, char **first_header,
                         bc_slist_free_full(lines, free);
                         bc_slist_free_full(lines2, free);
                         lines = NULL;
+                        lines2 = NULL;
                         if (is_last)
                             continue;
                         break;
@@ -1212,6 +1213,7 @@ blogc_content_parse(const char *src, size_t *end_excerpt, char **first_header,
                         bc_slist_free_full(lines, free);
                         bc_slist_free_full(lines2, free);
                         lines = NULL;
+                        lines2 = NULL;
                         if (is_last)
                             continue;
                         break;
-- 
2.43.0


From 1f4e13e81bb7b9f88b25a0768e49a7fff1beaa98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:11:52 +0000
Subject: [PATCH 47/58] fix: do not search past the end of strings with a
 trailing backslash

---
 src/common/utils.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/common/utils.c b/src/common/utils.c
index bc1fd2f..21f64b6 100644
--- a/src/common/utils.c
+++ b/src/common/utils.c
@@ -309,7 +309,8 @@ bc_str_find(const char *str, char c)
         return (char*) str + strlen(str);
     for (size_t i = 0; str[i] != '\0'; i++) {
         if (str[i] == '\\') {
-            i++;
+            if (str[++i] == '\0')
+                break;
             continue;
         }
         if (str[i] == c) {
-- 
2.43.0


From bf1ee0576aae0fd229dd852340181f616c5a58af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:00:55 +0000
Subject: [PATCH 48/58] fix: config-parser: an escaped character starts the
 value

---
 src/common/config-parser.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/common/config-parser.c b/src/common/config-parser.c
index 511d4ea..3dae9b1 100644
--- a/src/common/config-parser.c
+++ b/src/common/config-parser.c
@@ -82,6 +82,10 @@ bc_config_parse(const char *src, size_t src_len, const char *list_sections[],
         if (escaped) {
             bc_string_append_c(value, c);
             escaped = false;
+            if (state == CONFIG_SECTION_VALUE_START)
+                state = CONFIG_SECTION_VALUE;
+            else if (state == CONFIG_SECTION_LIST_START)
+                state = CONFIG_SECTION_LIST;
             current++;
             continue;
         }
-- 
2.43.0


From f1f8ff316c6b4910ef6e5ae0bc06d2cb8067c22d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:00:58 +0000
Subject: [PATCH 49/58] fix: config-parser: keep the last value of files
 without a final newline

---
 src/common/config-parser.c | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/src/common/config-parser.c b/src/common/config-parser.c
index 3dae9b1..0a67abe 100644
--- a/src/common/config-parser.c
+++ b/src/common/config-parser.c
@@ -313,6 +313,20 @@ bc_config_parse(const char *src, size_t src_len, const char *list_sections[],
         current++;
     }
 
+    // the file may end before the end of the line of the last value
+    if (rv != NULL && value != NULL) {
+        if (key != NULL && (state == CONFIG_SECTION_VALUE_START ||
+            state == CONFIG_SECTION_VALUE))
+        {
+            bc_trie_insert(section->data, bc_str_strip(key),
+                bc_strdup(bc_str_rstrip(value->str)));
+        }
+        else if (state == CONFIG_SECTION_LIST) {
+            section->data = bc_slist_append(section->data,
+                bc_strdup(bc_str_strip(value->str)));
+        }
+    }
+
     free(section_name);
     free(key);
     bc_string_free(value, true);
-- 
2.43.0


From 8181e3fba548532b97fbc029a82b68c4e376f875 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:08:28 +0000
Subject: [PATCH 50/58] fix: blogc-make: do not start the server with settings
 that are being replaced

---
 src/blogc-make/httpd.c | 24 +++++++++++++++++++-----
 1 file changed, 19 insertions(+), 5 deletions(-)

diff --git a/src/blogc-make/httpd.c b/src/blogc-make/httpd.c
index 1491095..61610fc 100644
--- a/src/blogc-make/httpd.c
+++ b/src/blogc-make/httpd.c
@@ -17,7 +17,7 @@
 
 
 typedef struct {
-    bm_ctx_t *ctx;
+    bm_ctx_t ctx;
     bc_trie_t *args;
 } bm_httpd_t;
 
@@ -25,6 +25,15 @@ static pthread_mutex_t mutex_httpd_starting = PTHREAD_MUTEX_INITIALIZER;
 static bool httpd_starting = false;
 
 
+static void
+httpd_free(bm_httpd_t *httpd)
+{
+    free(httpd->ctx.blogc_runserver);
+    free(httpd->ctx.output_dir);
+    free(httpd);
+}
+
+
 static void*
 httpd_thread(void *arg)
 {
@@ -34,14 +43,14 @@ httpd_thread(void *arg)
     httpd_starting = true;
     pthread_mutex_unlock(&mutex_httpd_starting);
 
-    int rv = bm_exec_blogc_runserver(httpd->ctx, bc_trie_lookup(httpd->args, "host"),
+    int rv = bm_exec_blogc_runserver(&(httpd->ctx), bc_trie_lookup(httpd->args, "host"),
         bc_trie_lookup(httpd->args, "port"), bc_trie_lookup(httpd->args, "threads"));
 
     pthread_mutex_lock(&mutex_httpd_starting);
     httpd_starting = false;
     pthread_mutex_unlock(&mutex_httpd_starting);
 
-    free(httpd);
+    httpd_free(httpd);
 
     // stop the reloader
     bm_reloader_stop(rv);
@@ -81,14 +90,19 @@ bm_httpd_run(bm_ctx_t **ctx, bm_rule_exec_func_t rule_exec, bc_slist_t *outputs,
     }
 
     bm_httpd_t *rv = bc_malloc(sizeof(bm_httpd_t));
-    rv->ctx = *ctx;
+    // the reloader may replace the content of the main context at any time,
+    // the thread needs its own copy of what is used to run the server
+    memset(&(rv->ctx), 0, sizeof(bm_ctx_t));
+    rv->ctx.blogc_runserver = bc_strdup((*ctx)->blogc_runserver);
+    rv->ctx.output_dir = bc_strdup((*ctx)->output_dir);
+    rv->ctx.verbose = (*ctx)->verbose;
     rv->args = args;
 
     pthread_t thread;
     if (0 != (err = pthread_create(&thread, &attr, httpd_thread, rv))) {
         fprintf(stderr, "blogc-make: error: failed to create httpd "
             "thread: %s\n", strerror(err));
-        free(rv);
+        httpd_free(rv);
         return 1;
     }
 
-- 
2.43.0


From 3b80260d0fb97c0c6a8fb64001f2088248d212bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:09:49 +0000
Subject: [PATCH 51/58] fix: blogc-git-receiver: remove the output of failed
 builds that is no directory

---
 src/blogc-git-receiver/pre-receive.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/blogc-git-receiver/pre-receive.c b/src/blogc-git-receiver/pre-receive.c
index 7e89cb8..146cb83 100644
--- a/src/blogc-git-receiver/pre-receive.c
+++ b/src/blogc-git-receiver/pre-receive.c
@@ -47,7 +47,9 @@ rmdir_recursive(const char *dir)
         return;
     }
     if (!S_ISDIR(buf.st_mode)) {
-        fprintf(stderr, "warning: trying to remove invalid directory: %s\n", dir);
+        if ((0 != unlink(dir)) && (errno != ENOENT))
+            fprintf(stderr, "warning: failed to remove file (%s): %s\n", dir,
+                strerror(errno));
         return;
     }
     DIR *d = opendir(dir);
-- 
2.43.0


From fdd587ca7d6b90028ea37db9edb2483b6f7e27df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:22:37 +0000
Subject: [PATCH 52/58] fix: blogc-runserver: read the request again if the
 process was suspended meanwhile

---
 src/blogc-runserver/httpd-utils.c | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/src/blogc-runserver/httpd-utils.c b/src/blogc-runserver/httpd-utils.c
index 74fe2d1..671a3a1 100644
--- a/src/blogc-runserver/httpd-utils.c
+++ b/src/blogc-runserver/httpd-utils.c
@@ -25,6 +25,17 @@ wait_data(int socket)
 }
 
 
+static ssize_t
+read_data(int socket, char *buffer, size_t size)
+{
+    ssize_t rv;
+    do {
+        rv = read(socket, buffer, size);
+    } while (rv == -1 && errno == EINTR);
+    return rv;
+}
+
+
 char*
 br_readline(int socket)
 {
@@ -35,7 +46,7 @@ br_readline(int socket)
     bool blank = false;
     bool done = false;
 
-    while ((len = read(socket, buffer, READLINE_BUFFER_SIZE)) > 0) {
+    while ((len = read_data(socket, buffer, READLINE_BUFFER_SIZE)) > 0) {
         for (ssize_t i = 0; i < len; i++) {
             // we finish "recording" at the end of the first line, but still
             // need to exhaust request data, up to the first blank line.
-- 
2.43.0


From 6157e31da198437c764d6ee1870e0e025745222f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:51:19 +0000
Subject: [PATCH 53/58] fix: blogc-git-receiver: never build into a directory
 that may exist

---
 src/blogc-git-receiver/pre-receive.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/blogc-git-receiver/pre-receive.c b/src/blogc-git-receiver/pre-receive.c
index 146cb83..a3674de 100644
--- a/src/blogc-git-receiver/pre-receive.c
+++ b/src/blogc-git-receiver/pre-receive.c
@@ -255,7 +255,12 @@ default_sym:
         (int) getpid());
     free(buildsd);
 
-    while (0 == access(output_dir, F_OK)) {
+    int found_output_dir;
+    while (0 != (found_output_dir = find_file(output_dir))) {
+        if (found_output_dir < 0) {
+            rv = 1;
+            goto cleanup;
+        }
         char *tmp = output_dir;
         output_dir = bc_strdup_printf("%s-", tmp);
         free(tmp);
-- 
2.43.0


From 0b7b8b3de5f3aecdd606599c11ea30f4a051d363 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:51:22 +0000
Subject: [PATCH 54/58] fix: blogc-git-receiver: quote the output directory in
 build commands

---
 src/blogc-git-receiver/pre-receive.c | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/blogc-git-receiver/pre-receive.c b/src/blogc-git-receiver/pre-receive.c
index a3674de..4879691 100644
--- a/src/blogc-git-receiver/pre-receive.c
+++ b/src/blogc-git-receiver/pre-receive.c
@@ -285,8 +285,10 @@ default_sym:
             rv = 1;
             goto cleanup;
         }
-        build_cmd = bc_strdup_printf("OUTPUT_DIR=\"%s\" blogc-make -V all",
-            output_dir);
+        char *quoted_output_dir = bc_shell_quote(output_dir);
+        build_cmd = bc_strdup_printf("OUTPUT_DIR=%s blogc-make -V all",
+            quoted_output_dir);
+        free(quoted_output_dir);
     }
     else if (found_makefile) {
         const char *make_impl = NULL;
@@ -307,9 +309,11 @@ default_sym:
             rv = 1;
             goto cleanup;
         }
+        char *quoted_output_dir = bc_shell_quote(output_dir);
         build_cmd = bc_strdup_printf(
-            "%s -j%d OUTPUT_DIR=\"%s\" BLOGC_GIT_RECEIVER=1", make_impl,
-            cpu_count(), output_dir);
+            "%s -j%d OUTPUT_DIR=%s BLOGC_GIT_RECEIVER=1", make_impl,
+            cpu_count(), quoted_output_dir);
+        free(quoted_output_dir);
     }
     else {
         fprintf(stderr, "warning: no blogcfile or Makefile found. skipping ...\n");
-- 
2.43.0


From 47a532c816ecec88764eefc9a884020b5b9f57f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:37:52 +0000
Subject: [PATCH 55/58] fix: blogc-git-receiver: run the makefile names that
 are documented and that make uses

---
 src/blogc-git-receiver/pre-receive.c | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/blogc-git-receiver/pre-receive.c b/src/blogc-git-receiver/pre-receive.c
index 4879691..2613ee9 100644
--- a/src/blogc-git-receiver/pre-receive.c
+++ b/src/blogc-git-receiver/pre-receive.c
@@ -272,7 +272,13 @@ default_sym:
     int found_blogcfile = find_file("blogcfile");
     int found_makefile = found_blogcfile != 0 ? 0 : find_file("Makefile");
     if (found_blogcfile == 0 && found_makefile == 0)
+        found_makefile = find_file("GNUmakefile");
+    const char *make_args = "";
+    if (found_blogcfile == 0 && found_makefile == 0) {
+        // make doesn't look for this one by itself
         found_makefile = find_file("GNUMakefile");
+        make_args = " -f GNUMakefile";
+    }
     if (found_blogcfile < 0 || found_makefile < 0) {
         rv = 1;
         goto cleanup;
@@ -311,8 +317,8 @@ default_sym:
         }
         char *quoted_output_dir = bc_shell_quote(output_dir);
         build_cmd = bc_strdup_printf(
-            "%s -j%d OUTPUT_DIR=%s BLOGC_GIT_RECEIVER=1", make_impl,
-            cpu_count(), quoted_output_dir);
+            "%s%s -j%d OUTPUT_DIR=%s BLOGC_GIT_RECEIVER=1", make_impl,
+            make_args, cpu_count(), quoted_output_dir);
         free(quoted_output_dir);
     }
     else {
-- 
2.43.0


From 47da6ec271f47e25b97c3767b810c50b8d465f84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:37:52 +0000
Subject: [PATCH 56/58] fix: blogc-make: report failures to write the atom
 template to standard output

---
 src/blogc-make/rules.c | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/blogc-make/rules.c b/src/blogc-make/rules.c
index 6177cd3..63565ac 100644
--- a/src/blogc-make/rules.c
+++ b/src/blogc-make/rules.c
@@ -787,9 +787,14 @@ atom_dump_exec(bm_ctx_t *ctx, bc_slist_t *outputs, bc_trie_t *args)
     char *content = bm_atom_generate(ctx->settings);
     if (content == NULL)
         return 1;
-    printf("%s", content);
+    int rv = 0;
+    if (0 > printf("%s", content) || 0 != fflush(stdout)) {
+        fprintf(stderr, "blogc-make: error: failed to write to stdout: %s\n",
+            strerror(errno));
+        rv = 1;
+    }
     free(content);
-    return 0;
+    return rv;
 }
 
 
-- 
2.43.0


From fd9a8d45b79a649fe4c86399c67794c2fc49a16c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:41:52 +0000
Subject: [PATCH 57/58] fix: blogc: evaluate predefined variables that are the
 target of foreach

---
 src/blogc/renderer.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/blogc/renderer.c b/src/blogc/renderer.c
index 523dace..70c9ced 100644
--- a/src/blogc/renderer.c
+++ b/src/blogc/renderer.c
@@ -184,6 +184,7 @@ blogc_format_variable(const char *name, bc_trie_t *global, bc_trie_t *local,
 bc_slist_t*
 blogc_split_list_variable(const char *name, bc_trie_t *global, bc_trie_t *local)
 {
+    blogc_funcvars_eval(global, name);
     const char *value = blogc_get_variable(name, global, local);
     if (value == NULL)
         return NULL;
-- 
2.43.0


From ce705be7763f4ebacad649b76489f53cda5a2f6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:19:54 +0000
Subject: [PATCH 58/58] fix: blogc-make: run the embedded blogc whatever its
 name is

---
 src/blogc-make/CMakeLists.txt | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/blogc-make/CMakeLists.txt b/src/blogc-make/CMakeLists.txt
index 778db37..f4a27ca 100644
--- a/src/blogc-make/CMakeLists.txt
+++ b/src/blogc-make/CMakeLists.txt
@@ -37,7 +37,11 @@ target_link_libraries(libblogc_make PRIVATE
     m
 )
 
-if(NOT BUILD_BLOGC_MAKE_EMBEDDED)
+if(BUILD_BLOGC_MAKE_EMBEDDED)
+    target_compile_definitions(libblogc_make PRIVATE
+        MAKE_EMBEDDED
+    )
+else()
     add_executable(blogc-make
         main.c
     )
-- 
2.43.0

