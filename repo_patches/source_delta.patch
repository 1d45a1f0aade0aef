From 5a761611c266b670e82cd0bd2cc643046a15b7e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:58 +0000
Subject: [PATCH 01/75] fix: global command skips marked lines after a move

move_lines removed the moved lines from the global queue after relinking
them, when queue and buffer order no longer agree, so that lines which had
not moved were dropped as well (e.g., g/x/.+1m$).
---
 src/cmds.c | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/cmds.c b/src/cmds.c
index d8234ee..a5b96b4 100644
--- a/src/cmds.c
+++ b/src/cmds.c
@@ -202,6 +202,8 @@ move_lines (off_t from, off_t to, off_t after, ed_buffer_t *ed)
     {
       a2 = get_line_node (succ, ed);
       b2 = get_line_node (prec, ed);
+      if (ed->exec->global)
+        delete_global_nodes (b2->q_forw, a2, ed);
       ed->state->dot = to;
     }
   else if (!append_undo_node (UMOV, prec, succ, ed)
@@ -228,14 +230,19 @@ move_lines (off_t from, off_t to, off_t after, ed_buffer_t *ed)
           /* this get_line_node last! */
           b1 = get_line_node (prec, ed);
         }
+
+      /*
+       * Update global queue before linking, i.e., while it and the
+       * buffer are still in the same order.
+       */
+      if (ed->exec->global)
+        delete_global_nodes (b1->q_forw, a1, ed);
       a2 = b2->q_forw;
       LINK_NODES (b2, b1->q_forw);
       LINK_NODES (a1->q_back, a2);
       LINK_NODES (b1, a1);
       ed->state->dot = after + (from > after ? to - from + 1 : 0);
     }
-  if (ed->exec->global)
-    delete_global_nodes (b2->q_forw, a2, ed);
   ed->state->is_modified = 1;
   spl0 ();
   return 0;
-- 
2.43.0


From 9d85c2901eb89575c3d649d53b5dcf6f3bbe3e99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:58 +0000
Subject: [PATCH 02/75] fix: empty insert into an empty buffer sets current
 line out of range

---
 src/exec.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/exec.c b/src/exec.c
index 08d95eb..88af29a 100644
--- a/src/exec.c
+++ b/src/exec.c
@@ -788,7 +788,7 @@ i_cmd (ed_buffer_t *ed)
 
   /* Per SUSv4, 2013, empty insert sets dot to addressed line. */
   if (ed->state->dot == ed->exec->region->end - 1)
-    ed->state->dot = ed->exec->region->end;
+    ed->state->dot = min (ed->state->lines, ed->exec->region->end);
   return ed->display->io_f;
 }
 
-- 
2.43.0


From bf9655b0b45da2a2e45b634b05f143952ff04586 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:18 +0000
Subject: [PATCH 03/75] fix: report file write errors detected when output is
 flushed

write_stream ignored the status of its final fflush(3), so that writing a
buffer smaller than the stdio buffer to a full device reported success and
cleared the modified flag.
---
 src/io.c | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/src/io.c b/src/io.c
index 36b2dd9..b52209e 100644
--- a/src/io.c
+++ b/src/io.c
@@ -736,13 +736,26 @@ write_stream (FILE *fp, ed_line_node_t *lp, off_t n,
 #ifdef WANT_ED_ENCRYPTION
   if (ed->exec->have_key)
     {
-      flush_des_file (fp);
+      if (flush_des_file (fp) == EOF)
+        {
+          fprintf (stderr, "%s\n", strerror (errno));
+          clearerr (fp);
+          ed->exec->err = _("File write error");
+          return ERR;
+        }
       if (*size)
         *size += 8 - *size % 8;
     }
 #endif
-  fflush (fp);
 
+  /* Buffered output is not written until flushed, so check status. */
+  if (fflush (fp) == EOF)
+    {
+      fprintf (stderr, "%s\n", strerror (errno));
+      clearerr (fp);
+      ed->exec->err = _("File write error");
+      return ERR;
+    }
   return 0;
 }
 
-- 
2.43.0


From d7229f1aef75cd7e10a513e5db403e91a541c59e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:18 +0000
Subject: [PATCH 04/75] fix: undo after a write does not set the modified flag

Undoing changes already written restored the flag saved before the write,
so that the undone buffer could be discarded by `q' without warning.
---
 src/exec.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/exec.c b/src/exec.c
index 88af29a..ad4de78 100644
--- a/src/exec.c
+++ b/src/exec.c
@@ -1469,6 +1469,9 @@ w_cmd (ed_buffer_t *ed)
         {
           ed->state->is_modified = 0;
 
+          /* The file no longer matches whatever `u' would restore. */
+          ed->state[1].is_modified = 1;
+
           /*
            * Per SUSv4, exit_status cannot be reset. We'll do it
            * anyhow ...
-- 
2.43.0


From d4738189b849ae37a91c2a3d1a844b0c74f7a6cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:18 +0000
Subject: [PATCH 05/75] fix: write to a file open read-only always fails or
 crashes

The test for a failed fclose(3) was always true, so the handle was closed
but never reopened for writing, and a second write closed it again.
---
 src/io.c | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/src/io.c b/src/io.c
index b52209e..80c1f34 100644
--- a/src/io.c
+++ b/src/io.c
@@ -617,15 +617,20 @@ write_file (const char *fn, int is_default, off_t from, off_t to,
    * File-locking requires file write access, so this case should not
    * be reached.
    */
-  else if (file_already_open
-           && (fclose (ed->file->handle) < 0 || !(ed->file->handle = NULL)))
-    {
-      fprintf (stderr, "%s: %s\n", ed->file->name, strerror (errno));
-      ed->exec->err = _("File close error");
-      return ERR;
-    }
   else
     {
+      if (file_already_open)
+        {
+          fp = ed->file->handle;
+          ed->file->handle = NULL;
+          ed->file->inode = 0;
+          if (fclose (fp) == EOF)
+            {
+              fprintf (stderr, "%s: %s\n", ed->file->name, strerror (errno));
+              ed->exec->err = _("File close error");
+              return ERR;
+            }
+        }
 #endif  /* WANT_FILE_LOCK */
       if (!(fp = fopen (fn, mode)))
         {
-- 
2.43.0


From cb3d7e9c3e3a1e48696f6189d598c4091a010c19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:40 +0000
Subject: [PATCH 06/75] fix: writing to a shell command that exits early kills
 the editor

E.g., `w !true' or `w !head -1' terminated ed with SIGPIPE, losing the
buffer.
---
 src/io.c | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/io.c b/src/io.c
index 80c1f34..6dcf181 100644
--- a/src/io.c
+++ b/src/io.c
@@ -679,6 +679,7 @@ write_pipe (const char *fn, off_t from, off_t to, off_t *addr,
   FILE *fp;
   ed_line_node_t *lp = get_line_node (from, ed);
   off_t n = from ? to - from + 1 : 0;
+  signal_t handler;
   int status;
 
   if (!(fp = popen (fn + 1, "w")))
@@ -687,14 +688,21 @@ write_pipe (const char *fn, off_t from, off_t to, off_t *addr,
       ed->exec->err = _("File open error");
       return ERR;
     }
-  if ((status = write_stream (fp, lp, n, size, ed)) < 0)
-    return status;
+
+  /* A shell command may exit before reading all of its input. */
+  handler = signal (SIGPIPE, SIG_IGN);
+  errno = 0;
+  if ((status = write_stream (fp, lp, n, size, ed)) < 0 && errno == EPIPE)
+    status = 0;
 
   /* Allow writing an empty buffer. */
   *addr = n;
 
   /* Ignore "no child" error. */
   pclose (fp);
+  (void) signal (SIGPIPE, handler);
+  if (status < 0)
+    return status;
   printf (ed->exec->opt & SCRIPTED ? "" : "!\n");
   return 0;
 }
-- 
2.43.0


From 98c6df04c32c6ed21063af81349d4d7ffbb2b525 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:17 +0000
Subject: [PATCH 07/75] fix: naming the default file in `w' or `r' closes its
 handle

E.g., after `r f', `w f', the next `w' failed with "File seek error"
(or worse), as the handle of the default file had been closed.
---
 src/io.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/io.c b/src/io.c
index 6dcf181..d1ebe21 100644
--- a/src/io.c
+++ b/src/io.c
@@ -136,7 +136,8 @@ read_file (const char *fn, off_t after, off_t *addr,
     fprintf (stderr, (ed->exec->opt & VERBOSE
                       ? "%s: Exclusive lock not set\n" : ""), fn);
 
-  if (!is_default)
+  /* Default file stays open, even if referred to by name. */
+  if (fp != ed->file->handle)
 #endif
     if (fclose (fp) < 0)
       {
@@ -659,7 +660,8 @@ write_file (const char *fn, int is_default, off_t from, off_t to,
   *addr = n;
 
 #ifdef WANT_FILE_LOCK
-  if (!is_default)
+  /* Default file stays open, even if referred to by name. */
+  if (fp != ed->file->handle)
 #endif
     if (fclose (fp) < 0)
       {
-- 
2.43.0


From 1d5e9170579c7abf76d4517274a909193a5cfcf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:02 +0000
Subject: [PATCH 08/75] fix: repeated substitution uses a freed regular
 expression

subst->lhs may refer to a search regex (s//y/), which was freed by the next
search pattern, or to a substitution regex freed by a substitution that
failed to parse.
---
 src/re.c | 27 +++++++++++++++++++++++----
 1 file changed, 23 insertions(+), 4 deletions(-)

diff --git a/src/re.c b/src/re.c
index 6ac2173..15a4086 100644
--- a/src/re.c
+++ b/src/re.c
@@ -15,6 +15,7 @@ get_compiled_regex (unsigned dc, int re_type, ed_buffer_t *ed)
   static const char *compile_err = NULL;
   static regex_t *re_search = NULL; /* search regex */
   static regex_t *re_subst = NULL;  /* substitution regex */
+  static regex_t *re_repeat = NULL; /* otherwise unused subst->lhs regex */
   regex_t *re = NULL;
 
 #ifndef HAVE_REG_SYNTAX_T
@@ -212,21 +213,39 @@ get_compiled_regex (unsigned dc, int re_type, ed_buffer_t *ed)
     }
 #endif  /* !defined (HAVE_REG_SYNTAX_T) */
 
+  /* Regex of last substitution no longer needed for repeating it. */
+  if (re_repeat && re_repeat != ed->exec->subst->lhs)
+    {
+      regfree (re_repeat);
+      free (re_repeat);
+      re_repeat = NULL;
+    }
+
   switch (re_type)
     {
     case RE_SUBST:
       if (re_subst && re_subst != re_search)
         {
-          regfree (re_subst);
-          free (re_subst);
+          if (re_subst == ed->exec->subst->lhs)
+            re_repeat = re_subst;
+          else
+            {
+              regfree (re_subst);
+              free (re_subst);
+            }
         }
       re_subst = re;
       break;
     case RE_SEARCH:
       if (re_search && re_search != re_subst)
         {
-          regfree (re_search);
-          free (re_search);
+          if (re_search == ed->exec->subst->lhs)
+            re_repeat = re_search;
+          else
+            {
+              regfree (re_search);
+              free (re_search);
+            }
         }
       re_search = re;
       break;
-- 
2.43.0


From 0435d8cd447c046554482750f3c707f6f56cb722 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:02 +0000
Subject: [PATCH 09/75] fix: file written in place of another with the same
 i-node number

Files of different file systems were taken to be the open default file if
their i-node numbers were equal, so that `w other' overwrote the default.
---
 src/io.c | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/io.c b/src/io.c
index d1ebe21..bd97d58 100644
--- a/src/io.c
+++ b/src/io.c
@@ -847,7 +847,7 @@ append_stream (FILE *dest_fp, FILE *src_fp, size_t *size, ed_buffer_t *ed)
 static int
 get_inode (const char *fn, INO_T *inode, ed_buffer_t *ed)
 {
-  STAT_T sb;
+  STAT_T sb, hb;
 
   /* Assert: stat returns error if NAME_MAX or PATH_MAX is exceeded. */
   if (STAT (fn, &sb) == -1)
@@ -870,6 +870,12 @@ get_inode (const char *fn, INO_T *inode, ed_buffer_t *ed)
       return ERR;
     }
   *inode = sb.st_ino;
+
+  /* An i-node number identifies a file only within its file system. */
+  if (*inode && *inode == ed->file->inode && ed->file->handle
+      && (FSTAT (fileno (ed->file->handle), &hb) == -1
+          || hb.st_dev != sb.st_dev))
+    *inode = 0;
   return 0;
 }
 
-- 
2.43.0


From c1dcfcd53ceddb3285983d2f4355b009e7b410bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:51 +0000
Subject: [PATCH 10/75] fix: read past end of input of G and V commands

The last line of standard input need not end with a newline, but
get_extended_line depends on it.
---
 src/glbl.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/glbl.c b/src/glbl.c
index b5cdac5..3c4a161 100644
--- a/src/glbl.c
+++ b/src/glbl.c
@@ -107,6 +107,7 @@ exec_global (ed_buffer_t *ed)
                                        ed->state->dot, ed)) < 0)
             return status;
           else if (!(ed->input = get_stdin_line (&len, ed))
+                   || *(ed->input + len - 1) != '\n'
                    || !(ed->input = get_extended_line (&len, 0, 1, ed)))
             {
               /* For an interactive global command, permit EOF to cancel. */
-- 
2.43.0


From 1b810467b105890db4e43332c547b98eb68934a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:13 +0000
Subject: [PATCH 11/75] fix: NUL character in global command list causes read
 past its end

exec_global copied the command list with strcpy(3), truncating it.
---
 src/glbl.c | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/glbl.c b/src/glbl.c
index 3c4a161..e954d0d 100644
--- a/src/glbl.c
+++ b/src/glbl.c
@@ -92,7 +92,10 @@ exec_global (ed_buffer_t *ed)
 
   /* Empty command list equivalent to `p' command per SUSv4. */
   if (strlen (ed->input) == 1 && *ed->input == '\n')
-    ed->input = "p\n";
+    {
+      ed->input = "p\n";
+      len = 2;
+    }
 
   for (ed->exec->first_pass = 1; (lp = next_global_node (ed));
        ed->input = gcb, ed->exec->first_pass = 0)
@@ -139,8 +142,8 @@ exec_global (ed_buffer_t *ed)
           /* get_extended_line () isn't reentrant, so save ed->input. */
           REALLOC_THROW (gcb, gcb_size, len + 1, ERR, ed);
 
-          /* Assert: ed->input is NUL-terminated! */
-          strcpy (gcb, ed->input);
+          /* Text of command list may contain NUL characters. */
+          memcpy (gcb, ed->input, len + 1);
           first_time = 0;
         }
       for (ed->input = gcb; ed->input && *ed->input;)
-- 
2.43.0


From eb64cdad56285b0357c1bdae1a933671b01336d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:32 +0000
Subject: [PATCH 12/75] fix: filter of part of a large buffer loses the buffer

The process that feeds the shell command read the buffer file through a
handle inherited from the parent, and so moved the parent's file offset.
---
 src/aux.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/aux.c b/src/aux.c
index 187027f..5cd9c50 100644
--- a/src/aux.c
+++ b/src/aux.c
@@ -147,9 +147,14 @@ filter_lines (off_t from, off_t to, const char *sc, ed_buffer_t *ed)
 
       /*
        * Close unused pipe ends, then open and write to shell
-       * process's standard input.
+       * process's standard input. The buffer file is read through a
+       * handle of its own, since a file offset inherited from the
+       * parent process is shared with it.
        */
+      ed->core->offset = -1;
       if (close (ip[0]) < 0 || close (op[0]) < 0
+          || (ed->core->fp
+              && !(ed->core->fp = fopen (ed->core->pathname, "r+")))
           || !(ipp = fdopen (ip[1], "w"))
           || (ed->exec->region->addrs
               && (status = write_stream (ipp, lp, n, &size, ed)) < 0)
-- 
2.43.0


From b2174feff89f6a44825f8d3a2ba9b7d66c279b31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:40 +0000
Subject: [PATCH 13/75] fix: restricted mode runs a file name from a list as
 shell command

A name beginning with `!' matched by a file glob, or given as a second
file argument, was run as a command by, e.g., `~r' and `~en'.
---
 src/parse.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/parse.c b/src/parse.c
index 2ea5fc9..0f803fe 100644
--- a/src/parse.c
+++ b/src/parse.c
@@ -564,6 +564,13 @@ is_valid_name (const char *name, ed_buffer_t *ed)
   char *s;
   size_t len;
 
+  /* Name from file list or glob is otherwise run as a shell command. */
+  if (ed->exec->opt & RESTRICTED && *name == '!')
+    {
+      ed->exec->err = _("Shell access restricted");
+      return NULL;
+    }
+
   /* Push file name onto command buffer. Append newline if missing. */
   len = strlen (ed->input = (char *) name);
   if (name[len - 1] != '\n')
-- 
2.43.0


From c79055d64bd52dae3ef907b91f4b6c667a19cf2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:14 +0000
Subject: [PATCH 14/75] fix: `l' drops all but the first byte of multibyte
 UTF-8 characters

---
 src/page.c | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/page.c b/src/page.c
index 4e69962..fd31232 100644
--- a/src/page.c
+++ b/src/page.c
@@ -512,6 +512,9 @@ put_frame_buffer_line (ed_line_node_t *lp, off_t addr,
   int form_feed = 0;
   int csize = 1;                /* UTF-8 byte width. */
 
+  /* Listed text is output byte by byte. */
+  int is_utf8 = ed->state->is_utf8 && !(ed->display->io_f & LIST);
+
   /*
    * Per SUSv4, 2013, the `$' (dollar sign) character is output by the
    * `l' (literal) command as the escape sequence `\$'
@@ -572,7 +575,7 @@ put_frame_buffer_line (ed_line_node_t *lp, off_t addr,
     s += fb->row[fb->row_i]->offset;
 
   if (ed->display->overflow && fb->prev_first
-      && fb->prev_first->lp == lp && ed->state->is_utf8)
+      && fb->prev_first->lp == lp && is_utf8)
 
     /*
      * XXX: For multibyte streams, adjust fb->rem_chars upward.
@@ -643,7 +646,7 @@ put_frame_buffer_line (ed_line_node_t *lp, off_t addr,
         }
 
       /* Convert fb->rem_chars to units of wide chars. */
-      len = ed->state->is_utf8 ? utf8_strlen (s, fb->rem_chars) : fb->rem_chars;
+      len = is_utf8 ? utf8_strlen (s, fb->rem_chars) : fb->rem_chars;
 
       /*
        * When listing text -- i.e., ed->display->io_f & LIST --
@@ -667,7 +670,7 @@ put_frame_buffer_line (ed_line_node_t *lp, off_t addr,
           col = 0;
         }
 
-      csize = ed->state->is_utf8 ? utf8_char_size (s, fb->rem_chars) : 1;
+      csize = is_utf8 ? utf8_char_size (s, fb->rem_chars) : 1;
     }
 
   if (!(ed->display->io_f & LIST) && !fb->rem_chars)
-- 
2.43.0


From ee4ce44d2ef723d7dfb558088f9204662658d1f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:55 +0000
Subject: [PATCH 15/75] fix: substitution of empty matches stops at a NUL
 character

---
 src/sub.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/sub.c b/src/sub.c
index 6298d7a..9ef3df0 100644
--- a/src/sub.c
+++ b/src/sub.c
@@ -501,7 +501,7 @@ substitute_matching (const regex_t *re, const ed_line_node_t *lp,
       /* Infinite loop!! */
       if (matched_prev && nil_next)
         {
-          if (!*txt)
+          if (txt >= eot)
             break;
           if (!ed->state->is_utf8 || (j = utf8_char_size (txt, eot - txt)) == 0)
             j = 1;
@@ -537,7 +537,7 @@ substitute_matching (const regex_t *re, const ed_line_node_t *lp,
       /* Not yet ... */
       else
         {
-          if (nil_next && !*txt)
+          if (nil_next && txt >= eot)
             break;
           if (!j && (!ed->state->is_utf8
                      || (j = utf8_char_size (txt, eot - txt)) == 0))
@@ -616,7 +616,7 @@ count_matches (const regex_t *re, const char *txt, int len,
       /* Infinite loop!! */
       if (matched_prev && nul_next)
         {
-          if (!*txt)
+          if (txt >= eot)
             break;
           off = 1;
           matched_prev = 0;
@@ -633,7 +633,7 @@ count_matches (const regex_t *re, const char *txt, int len,
       /* Not yet ... */
       else
         {
-          if (nul_next && !*txt)
+          if (nul_next && txt >= eot)
             break;
           if (!off)
             ++off;
-- 
2.43.0


From ecd55b980b903697bebd43ea6a09e96b63b39439 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:58 +0000
Subject: [PATCH 16/75] fix: match count steps over UTF-8 characters as the
 substitution does

---
 src/sub.c | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/sub.c b/src/sub.c
index 9ef3df0..8f10acd 100644
--- a/src/sub.c
+++ b/src/sub.c
@@ -618,7 +618,9 @@ count_matches (const regex_t *re, const char *txt, int len,
         {
           if (txt >= eot)
             break;
-          off = 1;
+          if (!ed->state->is_utf8
+              || (off = utf8_char_size (txt, eot - txt)) == 0)
+            off = 1;
           matched_prev = 0;
         }
 
@@ -635,8 +637,9 @@ count_matches (const regex_t *re, const char *txt, int len,
         {
           if (nul_next && txt >= eot)
             break;
-          if (!off)
-            ++off;
+          if (!off && (!ed->state->is_utf8
+                       || (off = utf8_char_size (txt, eot - txt)) == 0))
+            off = 1;
           matched_prev = 0;
         }
     }
-- 
2.43.0


From e8b5051657a3e6a7c15956da7394c497fe120ffb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:10 +0000
Subject: [PATCH 17/75] fix: line with part of a UTF-8 character can not be
 printed or changed

In the C locale, a substitution may split a multibyte character, after
which commands on the line failed with `Cannot allocate memory'.
---
 src/buf.c  | 4 ++++
 src/utf8.c | 3 ++-
 2 files changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/buf.c b/src/buf.c
index 3b958ce..b1a5ae2 100644
--- a/src/buf.c
+++ b/src/buf.c
@@ -414,6 +414,10 @@ put_buffer_line (const char *t, size_t len, ed_buffer_t *ed)
   if (!append_line_node (len, ed->core->offset, ed->state->dot, ed))
     return NULL;
 
+  /* Editing, e.g., in the C locale, may leave part of a UTF-8 character. */
+  if (ed->state->is_utf8)
+    ed->state->is_utf8 = is_utf8_str (t, len);
+
   ++ed->state->dot;
   ed->core->offset += len;      /* Update current offset in buffer file. */
   return (char *) t + ++len;
diff --git a/src/utf8.c b/src/utf8.c
index 409ab8d..5dc5e08 100644
--- a/src/utf8.c
+++ b/src/utf8.c
@@ -223,7 +223,8 @@ utf8_char_size (const char *s, size_t len)
   unsigned char *t = (unsigned char *) s;
   int status;
 
-  return (status = decode_utf8_char (&t, len)) >= EOF ? (char *) t - s : status;
+  /* Step over a malformed character byte by byte. */
+  return (status = decode_utf8_char (&t, len)) >= EOF ? (char *) t - s : 1;
 }
 
 int
-- 
2.43.0


From feb3610c8804fbd764c0ee567c5cc049dea432a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:21 +0000
Subject: [PATCH 18/75] fix: UTF-8 decoding computes wrong code points, hence
 wrong widths

---
 src/utf8.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/utf8.c b/src/utf8.c
index 5dc5e08..2ffbe5f 100644
--- a/src/utf8.c
+++ b/src/utf8.c
@@ -24,9 +24,9 @@ unsigned char utf8_byte_mask[5] =
 int utf8_cp_offset[4] =
   {
     0,
-    8,
-    16,
-    24
+    6,
+    12,
+    18
   };
 
 
-- 
2.43.0


From 5693e024702c32e5e19931907d52ff1355ff1514 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:04 +0000
Subject: [PATCH 19/75] fix: second write to a default file that is a device
 fails

---
 src/io.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/io.c b/src/io.c
index bd97d58..5cf72a8 100644
--- a/src/io.c
+++ b/src/io.c
@@ -604,7 +604,10 @@ write_file (const char *fn, int is_default, off_t from, off_t to,
           return ERR;
         }
       if (*mode == 'w' && (fflush (fp) == EOF
-                           || ftruncate (fileno (fp), 0) == -1))
+                           || (ftruncate (fileno (fp), 0) == -1
+
+                               /* Not a regular file, e.g., a device. */
+                               && errno != EINVAL)))
         {
           fprintf (stderr, "%s: %s\n", ed->file->name, strerror (errno));
           ed->exec->err = _("File truncate error");
-- 
2.43.0


From 75b62b50be48d8684399abd2f20ab76163a7033f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:20 +0000
Subject: [PATCH 20/75] fix: output of a filter is garbled after a NUL
 character

---
 src/io.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/io.c b/src/io.c
index 5cf72a8..04d6b1e 100644
--- a/src/io.c
+++ b/src/io.c
@@ -313,7 +313,8 @@ read_stream (FILE *fp, off_t after, off_t *size, ed_buffer_t *ed)
   do                                                                          \
     {                                                                         \
       char *_t;                                                               \
-      if (!(_t = strdup (s)) || !append_text_node ((th), _t, (len)))          \
+      if (!(_t = (char *) malloc ((len) + 1))                                 \
+          || !append_text_node ((th), memcpy (_t, (s), (len) + 1), (len)))    \
         {                                                                     \
           fprintf (stderr, "%s\n", strerror (errno));                         \
           (ed)->exec->err = _("Memory exhausted");                            \
-- 
2.43.0


From 22086acc02c00b915dedbf26ebfdeb17a5b084c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:40 +0000
Subject: [PATCH 21/75] fix: error without a message when input ends within a
 command

---
 src/io.c | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/io.c b/src/io.c
index 04d6b1e..6b2cba4 100644
--- a/src/io.c
+++ b/src/io.c
@@ -474,9 +474,11 @@ get_extended_line (size_t *len, int nonl, int escape, ed_buffer_t *ed)
       *(xl + *len - 1) = '\n';
 
       if (!(ed->input = get_stdin_line (&n, ed)))
-
-        /* Propagate stream status - don't call clearerr(3). */
-        return NULL;
+        {
+          /* Propagate stream status - don't call clearerr(3). */
+          ed->exec->err = _("End-of-file unexpected");
+          return NULL;
+        }
       if (*(ed->input + n - 1) != '\n')
         {
           ed->exec->err = _("End-of-file unexpected");
-- 
2.43.0


From 3149a704d50ceaba13cc2e845fd235e8211950b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:54 +0000
Subject: [PATCH 22/75] fix: error left behind by a shell command that exits
 early

A SIGPIPE-terminated `w !cmd' is not an error, so `h' must not report
"File write error" afterwards.
---
 src/io.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/io.c b/src/io.c
index 6b2cba4..ea5c03d 100644
--- a/src/io.c
+++ b/src/io.c
@@ -688,6 +688,7 @@ write_pipe (const char *fn, off_t from, off_t to, off_t *addr,
   ed_line_node_t *lp = get_line_node (from, ed);
   off_t n = from ? to - from + 1 : 0;
   signal_t handler;
+  const char *err = ed->exec->err;
   int status;
 
   if (!(fp = popen (fn + 1, "w")))
@@ -701,7 +702,10 @@ write_pipe (const char *fn, off_t from, off_t to, off_t *addr,
   handler = signal (SIGPIPE, SIG_IGN);
   errno = 0;
   if ((status = write_stream (fp, lp, n, size, ed)) < 0 && errno == EPIPE)
-    status = 0;
+    {
+      ed->exec->err = err;
+      status = 0;
+    }
 
   /* Allow writing an empty buffer. */
   *addr = n;
-- 
2.43.0


From c0d38000b421b636c77d5187c09277e602700263 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:39 +0000
Subject: [PATCH 23/75] fix: `e file' truncates the file list, next `~e' then
 aborts

Reinitializing the list of all files from the list of remaining files
loses the previous files of the list, and globfree(3) is then applied
to a pointer which was not allocated: free(): invalid pointer.
---
 src/exec.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/exec.c b/src/exec.c
index ad4de78..c222398 100644
--- a/src/exec.c
+++ b/src/exec.c
@@ -522,7 +522,7 @@ E_cmd (ed_buffer_t *ed)
       return status;
     }
 
-  init_ed_command (cx != '\n', ed);
+  init_ed_command (0, ed);
   init_ed_state (0, &ed->state[0]);
   init_ed_state (-1, &ed->state[1]);
   spl0 ();
-- 
2.43.0


From 092d93b715960052581d197d5f6b1d7acef276a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:59 +0000
Subject: [PATCH 24/75] fix: in-place edit with `~wn' or `~wp' reads the same
 file again

save_edit() overwrote the status which selects the next file, so the
current file was appended to the buffer and written back doubled.
---
 src/main.c | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/src/main.c b/src/main.c
index 6ca0d54..d7e1757 100644
--- a/src/main.c
+++ b/src/main.c
@@ -393,9 +393,16 @@ top:
           if (!(ed->exec->opt & (POSIXLY_CORRECT | TRADITIONAL)))
             {
 # ifdef WANT_SCRIPT_FLAGS
-              if (ed->exec->opt & IN_PLACE
-                  && ((status = save_edit (status, ed)) < 0))
-                goto error;
+              if (ed->exec->opt & IN_PLACE)
+                {
+                  int save_status = save_edit (status, ed);
+
+                  if (save_status < 0)
+                    {
+                      status = save_status;
+                      goto error;
+                    }
+                }
 # endif
 
               goto next;
-- 
2.43.0


From 4daa4b80db0af1ce45bb7da3fd406e595c155136 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:29 +0000
Subject: [PATCH 25/75] fix: value of LINES or COLUMNS out of range crashes the
 editor

LINES=0, for example, set the number of window rows to zero.
---
 src/buf.c | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/buf.c b/src/buf.c
index b1a5ae2..a8031de 100644
--- a/src/buf.c
+++ b/src/buf.c
@@ -63,24 +63,24 @@ one_time_init (int argc, char *argv[], ed_buffer_t *ed)
   /* Sanity check values of environment vars */
   if ((ls = getenv ("LINES")))
     {
-      STRTOL_THROW (l, ls, NULL, ERR);
+      l = strtol (ls, NULL, 10);
       if (1 < l  && l < ROWS_MAX)
         ed->display->ws_row = l;
     }
 
-  /* !SIGWINCH */
-  else if (!ed->display->ws_row)
+  /* !SIGWINCH and value of LINES not usable */
+  if (!ed->display->ws_row)
     ed->display->ws_row = WS_ROW;
 
   if ((cs = getenv ("COLUMNS")))
     {
-      STRTOL_THROW (l, cs, NULL, ERR);
+      l = strtol (cs, NULL, 10);
       if (TAB_WIDTH < l && l < COLUMNS_MAX)
         ed->display->ws_col = l;
     }
 
-  /* !SIGWINCH */
-  else if (!ed->display->ws_col)
+  /* !SIGWINCH and value of COLUMNS not usable */
+  if (!ed->display->ws_col)
     ed->display->ws_col = WS_COL;
 
   /* Assign a default command prompt. */
-- 
2.43.0


From eb00fddd84b30054f871a46a6a6e7f871d630af9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:29 +0000
Subject: [PATCH 26/75] fix: error in half-page scroll turns off all further
 output

If `[' or `]' fails (e.g., `1]x'), the frame buffer remains hidden, so
that nothing is printed from then on.
---
 src/exec.c | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/exec.c b/src/exec.c
index c222398..109d1c8 100644
--- a/src/exec.c
+++ b/src/exec.c
@@ -1849,10 +1849,11 @@ normalize_frame_buffer (ed_buffer_t *ed)
             ed->exec->region->end, 'Z', modifier);
   ed->input = buf;
   ed->display->hidden = 1;
-  if ((status = address_range (ed)) < 0
-      || (status = exec_command (ed)) < 0)
-    return status;
+  if ((status = address_range (ed)) >= 0)
+    status = exec_command (ed);
   ed->display->hidden = 0;
+  if (status < 0)
+    return status;
   ed->input = modifier;
 
   /* Forget any given address - necessary for consistent behavior of
-- 
2.43.0


From 44471256148b03418421bbdf97982769cf36881a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:33 +0000
Subject: [PATCH 27/75] fix: newline after form feed at end of page printed at
 the wrong place

A form feed which ends the last line of a page fills the frame buffer,
so that the newline following it was added to the first row.
---
 src/page.c | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/page.c b/src/page.c
index fd31232..bf462f7 100644
--- a/src/page.c
+++ b/src/page.c
@@ -674,7 +674,16 @@ put_frame_buffer_line (ed_line_node_t *lp, off_t addr,
     }
 
   if (!(ed->display->io_f & LIST) && !fb->rem_chars)
-    FB_PUTS ("\n", fb, ed);
+    {
+      /* Page filled by form feed at end of line, so newline belongs to
+         the last row, not the one following it. */
+      int row_i = fb->row_i;
+
+      if (fb->is_full)
+        fb->row_i = (fb->row_i + fb->rows - 2) % (fb->rows - 1);
+      FB_PUTS ("\n", fb, ed);
+      fb->row_i = row_i;
+    }
   else if (ed->display->io_f & LIST && !fb->rem_chars)
     {
       if (ed->display->io_f & (ZBWD | ZHBW)
-- 
2.43.0


From 891adc6226922f94f317b3eb19af4decd5dda208 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:12 +0000
Subject: [PATCH 28/75] fix: encryption key garbles registers, macros and
 filtered text

---
 src/aux.c |  3 +++
 src/io.c  | 40 ++++++++++++++++++++++++++++++++++------
 2 files changed, 37 insertions(+), 6 deletions(-)

diff --git a/src/aux.c b/src/aux.c
index 5cd9c50..65f3ff3 100644
--- a/src/aux.c
+++ b/src/aux.c
@@ -152,6 +152,9 @@ filter_lines (off_t from, off_t to, const char *sc, ed_buffer_t *ed)
        * parent process is shared with it.
        */
       ed->core->offset = -1;
+#ifdef WANT_ED_ENCRYPTION
+      ed->exec->have_key = 0;   /* Text to be filtered is not encrypted. */
+#endif
       if (close (ip[0]) < 0 || close (op[0]) < 0
           || (ed->core->fp
               && !(ed->core->fp = fopen (ed->core->pathname, "r+")))
diff --git a/src/io.c b/src/io.c
index ea5c03d..b2e11b6 100644
--- a/src/io.c
+++ b/src/io.c
@@ -29,6 +29,11 @@
 static int put_stream_line (FILE *, const char *, size_t, ed_buffer_t *);
 static int read_stream (FILE *, off_t, off_t *, ed_buffer_t *);
 static int get_inode (const char *, INO_T *, ed_buffer_t *);
+#ifdef WANT_ED_ENCRYPTION
+static int is_encrypted (const FILE *, ed_buffer_t *);
+
+static int use_key;             /* If set, current stream is encrypted. */
+#endif
 
 
 /* read_file: Read file to buffer; return line count. */
@@ -217,7 +222,7 @@ read_stream (FILE *fp, off_t after, off_t *size, ed_buffer_t *ed)
   ed->state->newline_missing = 0;
 
 #ifdef WANT_ED_ENCRYPTION
-  if (ed->exec->have_key)
+  if ((use_key = is_encrypted (fp, ed)))
     init_des_cipher ();
 #endif
 
@@ -298,7 +303,7 @@ read_stream (FILE *fp, off_t after, off_t *size, ed_buffer_t *ed)
     fprintf (stderr, _("Newline appended\n"));
 
 #ifdef WANT_ED_ENCRYPTION
-  if (ed->exec->have_key)
+  if (use_key)
     if (*size)
       *size += 8 - *size % 8;     /* Adjust for DES padding. */
 #endif
@@ -307,6 +312,25 @@ read_stream (FILE *fp, off_t after, off_t *size, ed_buffer_t *ed)
 }
 
 
+#ifdef WANT_ED_ENCRYPTION
+
+/* is_encrypted: Return true if a stream is to be en- or decrypted;
+   registers are not since they are also read without a key. */
+static int
+is_encrypted (const FILE *fp, ed_buffer_t *ed)
+{
+# ifdef WANT_ED_REGISTER
+  int i;
+
+  for (i = 0; i < REGBUF_MAX; ++i)
+    if (fp == ed->core->regbuf->fp[i])
+      return 0;
+# endif
+  return ed->exec->have_key;
+}
+#endif  /* WANT_ED_ENCRYPTION */
+
+
 #ifdef WANT_EXTERNAL_FILTER
 
 #  define APPEND_TEXT_NODE(th, s, len, ed)                                    \
@@ -346,6 +370,10 @@ read_stream_r (FILE *fp, off_t after, off_t *size, ed_buffer_t *ed)
 
   init_text_deque (&th);
 
+#ifdef WANT_ED_ENCRYPTION
+  use_key = 0;
+#endif
+
   /* Read stream into memory to avoid reentrant calls to buffer file I/O. */
   for (*size = 0; (s = get_stream_line (fp, &len, ed)); *size += len)
     APPEND_TEXT_NODE (&th, s, len, ed);
@@ -521,7 +549,7 @@ get_stream_line (FILE *fp, size_t *len, ed_buffer_t *ed)
 
  top:
 #ifdef WANT_ED_ENCRYPTION
-  for (; (c = (ed->exec->have_key && fp != stdin ? get_des_char (fp, ed)
+  for (; (c = (use_key && fp != stdin ? get_des_char (fp, ed)
                : getc (fp))) != EOF && c != '\n'; ++*len)
 #else
   for (; (c = getc (fp)) != EOF && c != '\n'; ++*len)
@@ -731,7 +759,7 @@ write_stream (FILE *fp, ed_line_node_t *lp, off_t n,
   int status = 0;
 
 #ifdef WANT_ED_ENCRYPTION
-  if (ed->exec->have_key)
+  if ((use_key = is_encrypted (fp, ed)))
     init_des_cipher ();
 #endif
 
@@ -759,7 +787,7 @@ write_stream (FILE *fp, ed_line_node_t *lp, off_t n,
     }
 
 #ifdef WANT_ED_ENCRYPTION
-  if (ed->exec->have_key)
+  if (use_key)
     {
       if (flush_des_file (fp) == EOF)
         {
@@ -791,7 +819,7 @@ put_stream_line (FILE *fp, const char *s, size_t len, ed_buffer_t *ed)
 {
  top:
 #ifdef WANT_ED_ENCRYPTION
-  for (; len && (ed->exec->have_key ? put_des_char ((unsigned) *s, fp)
+  for (; len && (use_key ? put_des_char ((unsigned) *s, fp)
                  : putc ((unsigned) *s, fp)) != EOF; --len, ++s)
 #else
   for (; len && putc ((unsigned) *s, fp) != EOF; --len, ++s)
-- 
2.43.0


From 17364abe2f076bdd777109750898d71612a8d8bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:12 +0000
Subject: [PATCH 29/75] fix: ASCII key after a hexadecimal or binary key is
 expanded differently

---
 src/cbc.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/cbc.c b/src/cbc.c
index 655c80f..32472f8 100644
--- a/src/cbc.c
+++ b/src/cbc.c
@@ -268,6 +268,7 @@ expand_des_key (unsigned char *obuf, char *kbuf, ed_buffer_t *ed)
     }
 
   /* 8-byte ASCII key. */
+  pflag = 0;
   (void) strncpy ((char *) obuf, kbuf, 8);
   return 0;
 }
-- 
2.43.0


From 084b3d31f9d159d7d3b8e6b5c959772018720031 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:25 +0000
Subject: [PATCH 30/75] fix: write error of last block of an encrypted file
 goes unreported

---
 src/cbc.c | 4 ++--
 src/io.c  | 5 +++++
 2 files changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/cbc.c b/src/cbc.c
index 32472f8..57c9ec2 100644
--- a/src/cbc.c
+++ b/src/cbc.c
@@ -328,7 +328,7 @@ cbc_encode (unsigned char *msgbuf, int n, FILE *fp)
       DES_ecb_encrypt((DES_cblock *) msgbuf, (DES_cblock *) msgbuf,
                       &schedule, DES_ENCRYPT);
       MEMCPY (ivec, msgbuf, 8);
-      return WRITE (msgbuf, 8, fp);
+      return WRITE (msgbuf, 8, fp) == 8 ? 8 : EOF;
     }
 
   /*
@@ -345,7 +345,7 @@ cbc_encode (unsigned char *msgbuf, int n, FILE *fp)
     msgbuf[n] ^= ivec[n];
   DES_ecb_encrypt((DES_cblock *) msgbuf, (DES_cblock *) msgbuf,
                   &schedule, DES_ENCRYPT);
-  return WRITE (msgbuf, 8, fp);
+  return WRITE (msgbuf, 8, fp) == 8 ? 8 : EOF;
 }
 
 /* cbc_decode: Decrypt using DES Cipher Block Chaining mode. */
diff --git a/src/io.c b/src/io.c
index b2e11b6..51ebfed 100644
--- a/src/io.c
+++ b/src/io.c
@@ -838,6 +838,11 @@ put_stream_line (FILE *fp, const char *s, size_t len, ed_buffer_t *ed)
         /* Propagate stream status - don't call clearerr(3). */
         return ERR;
       }
+  if (len)
+    {
+      ed->exec->err = _("File write error");
+      return ERR;
+    }
   return 0;
 }
 
-- 
2.43.0


From 707bc917e40849f549d6dc62ec8909c2a410e031 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:51 +0000
Subject: [PATCH 31/75] fix: failed decryption is not reported as an error

---
 src/cbc.c | 17 +++++++++++++++--
 src/ed.h  |  1 +
 src/io.c  |  2 ++
 3 files changed, 18 insertions(+), 2 deletions(-)

diff --git a/src/cbc.c b/src/cbc.c
index 57c9ec2..d270c5e 100644
--- a/src/cbc.c
+++ b/src/cbc.c
@@ -63,12 +63,13 @@ static DES_key_schedule schedule; /* expanded DES key */
 static unsigned char des_buf[8];  /* Buffer for get_des_char/put_des_char. */
 static int des_ct = 0;          /* Count for get_des_char/put_des_char. */
 static int des_n = 0;           /* Index for put_des_char/get_des_char. */
+static int des_err = 0;         /* If set, decryption failed. */
 
 /* init_des_cipher: Initialize DES. */
 void
 init_des_cipher (void)
 {
-  des_ct = des_n = 0;
+  des_ct = des_n = des_err = 0;
 
   /* Initialize initialization vector. */
   MEMZERO (ivec, 8);
@@ -91,6 +92,14 @@ get_des_char (FILE *fp, ed_buffer_t *ed)
 }
 
 
+/* des_error: Return true if decryption failed. */
+int
+des_error (void)
+{
+  return des_err;
+}
+
+
 /* put_des_char: Write char to encrypted file, and return char written. */
 int
 put_des_char (int c, FILE *fp)
@@ -371,6 +380,7 @@ cbc_decode (unsigned char *msgbuf, FILE *fp, ed_buffer_t *ed)
           if (n < 0 || n > 7)
             {
               ed->exec->err = _("Decryption failed (block corrupted)");
+              des_err = 1;
               return EOF;
             }
         }
@@ -379,7 +389,10 @@ cbc_decode (unsigned char *msgbuf, FILE *fp, ed_buffer_t *ed)
       return n;
     }
   if (n > 0)
-    ed->exec->err = _("Decryption failed (incomplete block)");
+    {
+      ed->exec->err = _("Decryption failed (incomplete block)");
+      des_err = 1;
+    }
   else if (n < 0)
     ed->exec->err = _("File read error");
   return EOF;
diff --git a/src/ed.h b/src/ed.h
index 83828b7..c39a052 100644
--- a/src/ed.h
+++ b/src/ed.h
@@ -904,6 +904,7 @@ int filter_lines (off_t, off_t, const char *, ed_buffer_t *);
 #endif
 
 #ifdef WANT_ED_ENCRYPTION
+int des_error (void);
 int flush_des_file (FILE *);
 #endif
 
diff --git a/src/io.c b/src/io.c
index 51ebfed..15a4595 100644
--- a/src/io.c
+++ b/src/io.c
@@ -303,6 +303,8 @@ read_stream (FILE *fp, off_t after, off_t *size, ed_buffer_t *ed)
     fprintf (stderr, _("Newline appended\n"));
 
 #ifdef WANT_ED_ENCRYPTION
+  if (use_key && des_error ())
+    return ERR;
   if (use_key)
     if (*size)
       *size += 8 - *size % 8;     /* Adjust for DES padding. */
-- 
2.43.0


From 4fbe872186ca2e27381e0d186babc09e33696a3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:42 +0000
Subject: [PATCH 32/75] fix: invalid digits of a hexadecimal or binary key are
 accepted as zeros

---
 src/cbc.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/cbc.c b/src/cbc.c
index d270c5e..379827b 100644
--- a/src/cbc.c
+++ b/src/cbc.c
@@ -165,11 +165,13 @@ char_to_int (int c, int radix)
 # ifdef HAVE_STRTOL
   static int s[2] = { 0 };
 
+  char *end;
   long n;
 
+  /* If no digits, strtol (3) is not required to set errno. */
   s[0] = c;
-  errno = 0;
-  return (n = strtol ((char *)s, NULL, radix)) == 0 && errno == EINVAL ? -1 : n;
+  n = strtol ((char *)s, &end, radix);
+  return end == (char *)s ? -1 : n;
 # else  /* !HAVE_STRTOL */
   switch (c)
     {
-- 
2.43.0


From 38e0c2b18e5a907b741e72b615ee7d37e151e251 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:04 +0000
Subject: [PATCH 33/75] fix: failure to open a new buffer file is not reported
 as an error

---
 src/exec.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/exec.c b/src/exec.c
index 109d1c8..8eb088d 100644
--- a/src/exec.c
+++ b/src/exec.c
@@ -516,7 +516,7 @@ E_cmd (ed_buffer_t *ed)
     }
   reset_undo_queue (ed);
   reset_global_queue (ed);
-  if (reopen_ed_buffer (ed) < 0)
+  if ((status = reopen_ed_buffer (ed)) < 0)
     {
       spl0 ();
       return status;
-- 
2.43.0


From a8291b572ff19765546595f2593713378654cf33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:04 +0000
Subject: [PATCH 34/75] fix: register is emptied though its contents could not
 be written

---
 src/io.c | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/io.c b/src/io.c
index 15a4595..9668699 100644
--- a/src/io.c
+++ b/src/io.c
@@ -875,8 +875,14 @@ append_stream (FILE *dest_fp, FILE *src_fp, size_t *size, ed_buffer_t *ed)
           clearerr (dest_fp);
           return ERR;
         }
-      fflush (dest_fp);
       clearerr (src_fp);
+      if (fflush (dest_fp) == EOF)
+        {
+          fprintf (stderr, "%s\n", strerror (errno));
+          ed->exec->err = _("File write error");
+          clearerr (dest_fp);
+          return ERR;
+        }
     }
   else if (ferror (src_fp))
     {
-- 
2.43.0


From ab4ab41241298f1e8961ca7fef2f0c122232244d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:04 +0000
Subject: [PATCH 35/75] fix: lines are lost after an error writing the buffer
 file

---
 src/buf.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/buf.c b/src/buf.c
index a8031de..532ddef 100644
--- a/src/buf.c
+++ b/src/buf.c
@@ -406,6 +406,7 @@ put_buffer_line (const char *t, size_t len, ed_buffer_t *ed)
     }
   if (fwrite (t, sizeof (char), len, ed->core->fp) != len)
     {
+      ed->core->seek_on_write = 1;         /* Offset is unknown. */
       ed->core->offset = -1;
       fprintf (stderr, "%s: %s\n", ed->core->pathname, strerror (errno));
       ed->exec->err = _("Buffer write error");
-- 
2.43.0


From a3f4e6133247a6a24284127a17bb804320ecaad9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:04 +0000
Subject: [PATCH 36/75] fix: wrong text is read after an error reading the
 buffer file

---
 src/buf.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/buf.c b/src/buf.c
index 532ddef..071676c 100644
--- a/src/buf.c
+++ b/src/buf.c
@@ -350,6 +350,7 @@ get_buffer_line (const ed_line_node_t *lp, ed_buffer_t *ed)
       ed->core->offset = lp->seek;
       if (FSEEK (ed->core->fp, ed->core->offset, SEEK_SET) == -1)
         {
+          ed->core->offset = -1;
           fprintf (stderr, "%s: %s\n", ed->core->pathname, strerror (errno));
           ed->exec->err = _("Buffer seek error");
           return NULL;
@@ -360,6 +361,7 @@ get_buffer_line (const ed_line_node_t *lp, ed_buffer_t *ed)
   REALLOC_THROW (tb, tb_size, lp->len + 1, NULL, ed);
   if (fread (tb, sizeof (char), lp->len, ed->core->fp) != lp->len)
     {
+      ed->core->offset = -1;
       fprintf (stderr, "%s: %s\n", ed->core->pathname, strerror (errno));
       ed->exec->err = _("Buffer read error");
       return NULL;
-- 
2.43.0


From 4cab63963aecd7031448fe0deb27a3181e1c19f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:04 +0000
Subject: [PATCH 37/75] fix: signals stay blocked after memory is exhausted

---
 src/buf.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/buf.c b/src/buf.c
index 071676c..06659ab 100644
--- a/src/buf.c
+++ b/src/buf.c
@@ -681,7 +681,10 @@ append_text_node (ed_text_node_t *th, const char *tb, const size_t len)
 
   /* Allocate node to push onto text queue */
   if (!(tp = (ed_text_node_t *) malloc (ED_TEXT_NODE_T_SIZE)))
-    return NULL;
+    {
+      spl0 ();
+      return NULL;
+    }
   tp->text = (char *) tb;
   tp->text_i = len;
 
-- 
2.43.0


From e2138d0c8905096e434bf5ec012f439ad7041bc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:12 +0000
Subject: [PATCH 38/75] fix: text is lost after an error writing the buffer
 file

---
 src/buf.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/buf.c b/src/buf.c
index 06659ab..a58c5d1 100644
--- a/src/buf.c
+++ b/src/buf.c
@@ -406,7 +406,11 @@ put_buffer_line (const char *t, size_t len, ed_buffer_t *ed)
       ed->exec->err = _("Buffer full");
       return NULL;
     }
-  if (fwrite (t, sizeof (char), len, ed->core->fp) != len)
+
+  /* Text not flushed is discarded by the C library on a write error, so
+     don't let lines that are already part of the buffer depend on it. */
+  if (fwrite (t, sizeof (char), len, ed->core->fp) != len
+      || fflush (ed->core->fp) == EOF)
     {
       ed->core->seek_on_write = 1;         /* Offset is unknown. */
       ed->core->offset = -1;
-- 
2.43.0


From 5d703b3365c9f1544852dce3a3f271cfdb079ecd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:12 +0000
Subject: [PATCH 39/75] fix: macro crashes the editor if script buffer cannot
 be created

---
 src/aux.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/aux.c b/src/aux.c
index 65f3ff3..c4e675a 100644
--- a/src/aux.c
+++ b/src/aux.c
@@ -333,7 +333,7 @@ pop_stack_frame (ed_buffer_t *ed)
 #else
   stdin = ed->core->stack_frame[ed->core->sp]->fp;
 #endif
-  if (FSEEK (ed->exec->fp, 0, SEEK_CUR) != -1
+  if (ed->exec->fp && FSEEK (ed->exec->fp, 0, SEEK_CUR) != -1
       && (ftruncate (fileno (ed->exec->fp),
                     ed->core->stack_frame[ed->core->sp]->size) == -1
           || fflush (ed->exec->fp) == EOF
@@ -372,7 +372,7 @@ unwind_stack_frame (int status, ed_buffer_t *ed)
 #else
       stdin = ed->core->stack_frame[0]->fp;
 #endif
-      if (FSEEK (ed->exec->fp, 0, SEEK_CUR) != -1
+      if (ed->exec->fp && FSEEK (ed->exec->fp, 0, SEEK_CUR) != -1
           && (ftruncate (fileno (ed->exec->fp),
                          ed->core->stack_frame[0]->size) == -1
               || fflush (ed->exec->fp) == EOF
-- 
2.43.0


From 8fe0c06a590d2beddd2268d57e645800efee908f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:12 +0000
Subject: [PATCH 40/75] fix: no warning about a buffer modified by an
 incomplete read

---
 src/exec.c | 21 +++++++++++++++++----
 src/io.c   | 12 +++++++++---
 2 files changed, 26 insertions(+), 7 deletions(-)

diff --git a/src/exec.c b/src/exec.c
index 8eb088d..7815864 100644
--- a/src/exec.c
+++ b/src/exec.c
@@ -1016,7 +1016,9 @@ r_cmd (ed_buffer_t *ed)
   size_t len = 0;
   char *fn = NULL;
   int cx = 0;
+  off_t lines = 0;
   int is_default = 0;
+  int is_modified = 0;
   int status = 0;               /* Return status */
 
   if (!isspace ((unsigned char) *ed->input))
@@ -1054,13 +1056,20 @@ r_cmd (ed_buffer_t *ed)
   ed->state->newline_appended = cx;
   if (!(ed->exec->region->addrs && ed->state->lines))
     ed->exec->region->end = ed->state->lines;
+  lines = ed->state->lines;
+  is_modified = ed->state->is_modified;
   spl0 ();
 
   if (*fn == '!' || (*fn == '\0' && ed->file->name && *ed->file->name == '!'))
     {
+      /* Assume modification in case reading is interrupted. */
+      ed->state->is_modified = 1;
       if ((status = read_pipe (*fn == '!' ? fn : ed->file->name,
                                ed->exec->region->end, &addr, &size, ed)) < 0)
-        return status;
+        {
+          ed->state->is_modified = is_modified || lines != ed->state->lines;
+          return status;
+        }
     }
   else
     {
@@ -1079,11 +1088,15 @@ r_cmd (ed_buffer_t *ed)
        * mandated by SUSv5, if default file name is not set,
        * trivially succeed by reading from `/dev/null'.
        */
+      ed->state->is_modified = 1;
       if ((status = read_file (is_default ? ed->file->name
                                : (*fn != '\0' ? fn : "/dev/null"),
                                ed->exec->region->end, &addr, &size,
                                is_default, ed)) < 0)
-        return status;
+        {
+          ed->state->is_modified = is_modified || lines != ed->state->lines;
+          return status;
+        }
 
       if (ed->file->is_glob && ed->exec->opt & VERBOSE)
         puts (fn);
@@ -1104,8 +1117,8 @@ r_cmd (ed_buffer_t *ed)
 
   printf (ed->exec->opt & (SCRIPTED | WRITE_ONLY) ? ""
           : "%" OFF_T_FORMAT_STRING "\n", size);
-  if (addr && addr != ed->state->lines)
-    ed->state->is_modified = 1;
+  ed->state->is_modified = (is_modified
+                            || (addr && addr != ed->state->lines));
   return 0;
 }
 
diff --git a/src/io.c b/src/io.c
index 9668699..7a56b2d 100644
--- a/src/io.c
+++ b/src/io.c
@@ -1009,7 +1009,9 @@ append_from_register (off_t addr, ed_buffer_t *ed)
 {
   int read_idx = ed->core->regbuf->read_idx;
   FILE *read_fp = ed->core->regbuf->fp[read_idx];
+  off_t lines = ed->state->lines;
   off_t size = 0;
+  int is_modified = ed->state->is_modified;
   int status = 0;
 
   /* Nothing to read. */
@@ -1023,10 +1025,14 @@ append_from_register (off_t addr, ed_buffer_t *ed)
       return ERR;
     }
 
+  /* Assume modification in case reading is interrupted. */
+  ed->state->is_modified = 1;
   if ((status = read_stream (read_fp, addr, &size, ed)) < 0)
-    return status;
-  if (size)
-    ed->state->is_modified = 1;
+    {
+      ed->state->is_modified = is_modified || lines != ed->state->lines;
+      return status;
+    }
+  ed->state->is_modified = is_modified || size;
   return 0;
 }
 
-- 
2.43.0


From 268338087f7472c00c655e94e0fd274ac28e0a79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:27 +0000
Subject: [PATCH 41/75] fix: no warning about a buffer that could not be
 written completely

---
 src/io.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/io.c b/src/io.c
index 7a56b2d..01a5d52 100644
--- a/src/io.c
+++ b/src/io.c
@@ -619,12 +619,18 @@ write_file (const char *fn, int is_default, off_t from, off_t to,
   off_t n = from ? to - from + 1 : 0;
   INO_T inode;
   int file_already_open = 0;
+  int is_modified = ed->state->is_modified;
   int status;
 
 #ifdef WANT_FILE_LOCK
   if (get_inode (fn, &inode, ed) < 0)
     return ERR;
+#endif
 
+  /* If writing fails or is interrupted, only the buffer is complete. */
+  ed->state->is_modified = 1;
+
+#ifdef WANT_FILE_LOCK
   /* File already open and writable. */
   if ((file_already_open = (inode && inode == ed->file->inode))
       && ed->file->is_writable)
@@ -673,6 +679,7 @@ write_file (const char *fn, int is_default, off_t from, off_t to,
         {
           fprintf (stderr, "%s: %s\n", fn, strerror (errno));
           ed->exec->err = _("File open error");
+          ed->state->is_modified = is_modified;
           return ERR;
         }
 #ifdef WANT_FILE_LOCK
@@ -705,6 +712,7 @@ write_file (const char *fn, int is_default, off_t from, off_t to,
         ed->exec->err = _("File close error");
         return ERR;
       }
+  ed->state->is_modified = is_modified;
   return 0;
 }
 
-- 
2.43.0


From 960f8c2734a8ac673345f49ccfecdde98bd756e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:17 +0000
Subject: [PATCH 42/75] fix: editor continues, then crashes, if no buffer file
 can be opened at start

---
 src/main.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/main.c b/src/main.c
index d7e1757..5c5d031 100644
--- a/src/main.c
+++ b/src/main.c
@@ -282,8 +282,8 @@ top:
     }
 
   /* Initialize editor buffer and globals. */
-  if ((status = one_time_init (argc, argv, ed)) < 0)
-    goto error;
+  if (one_time_init (argc, argv, ed) < 0)
+    script_die (3, ed);
 
   /* Destination of LONGJMP () on signal SIGINT. */
   if ((status = SETJMP (env)))
-- 
2.43.0


From b019d7e3984c2fc557c9da5ce9fe6ab679ab38d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:46 +0000
Subject: [PATCH 43/75] fix: editor crashes if no new buffer file can be opened

---
 src/buf.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/buf.c b/src/buf.c
index a58c5d1..a04aa4e 100644
--- a/src/buf.c
+++ b/src/buf.c
@@ -379,6 +379,10 @@ get_buffer_line (const ed_line_node_t *lp, ed_buffer_t *ed)
 char *
 put_buffer_line (const char *t, size_t len, ed_buffer_t *ed)
 {
+  /* In case a new buffer file could not be opened by `e', try again. */
+  if (!ed->core->fp && init_core_buffer (ed) < 0)
+    return NULL;
+
   /*
    * If ed buffer file was read since last write, seek to end of file
    * before writing.
-- 
2.43.0


From 751c1f84366a5934c75eb13cf6e333a32e87489c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:42 +0000
Subject: [PATCH 44/75] fix: write to a file that could only be opened for
 reading goes unreported

---
 src/io.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/io.c b/src/io.c
index 01a5d52..e31c6cd 100644
--- a/src/io.c
+++ b/src/io.c
@@ -111,7 +111,7 @@ read_file (const char *fn, off_t after, off_t *addr,
       spl1 ();
       ed->file->inode = inode;
       ed->file->handle = fp;
-      ed->file->is_writable = !read_only;
+      ed->file->is_writable = !read_only && !unlockable;
       spl0 ();
     }
 
-- 
2.43.0


From 08e6cbc8f7587bf97473090cce581fbe1c3a1fd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:23 +0000
Subject: [PATCH 45/75] fix: failure to empty a register is not reported as an
 error

---
 src/io.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/io.c b/src/io.c
index e31c6cd..b9f11d8 100644
--- a/src/io.c
+++ b/src/io.c
@@ -1084,7 +1084,7 @@ append_to_register (off_t from, off_t to, int append, ed_buffer_t *ed)
           return ERR;
         }
     }
-  else if ((status = reset_register_buffer (write_idx, ed) < 0))
+  else if ((status = reset_register_buffer (write_idx, ed)) < 0)
     return status;
 
   if ((status = write_stream (write_fp, lp, n, &size, ed)) < 0)
@@ -1153,7 +1153,7 @@ inter_register_copy (int append, ed_buffer_t *ed)
           return ERR;
         }
     }
-  else if ((status = reset_register_buffer (write_idx, ed) < 0))
+  else if ((status = reset_register_buffer (write_idx, ed)) < 0)
     return status;
 
   if ((status = append_stream (write_fp, read_fp, &size, ed)) < 0)
-- 
2.43.0


From c15f76d4ca11f123d9ac4523026f3e4c552121b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:40 +0000
Subject: [PATCH 46/75] fix: commands address wrong lines after an interrupt

---
 src/buf.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/buf.c b/src/buf.c
index a04aa4e..9eb9ee4 100644
--- a/src/buf.c
+++ b/src/buf.c
@@ -480,6 +480,7 @@ get_line_node (off_t n, ed_buffer_t *ed)
   if (!lp)
     lp = ed->core->line_head;
 
+  spl1 ();                      /* lp and n_prev must agree. */
   if (n > n_prev)
     {
       if (n <= (n_prev + ed->state->lines) >> 1)
@@ -504,6 +505,7 @@ get_line_node (off_t n, ed_buffer_t *ed)
             lp = lp->q_forw;
         }
     }
+  spl0 ();
   return lp;
 }
 
-- 
2.43.0


From 1e17bd4d095ec033174e772d9992f25e3c120292 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:48 +0000
Subject: [PATCH 47/75] fix: wrong text is read or written after an interrupt

---
 src/buf.c | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/buf.c b/src/buf.c
index 9eb9ee4..d9ee540 100644
--- a/src/buf.c
+++ b/src/buf.c
@@ -342,6 +342,11 @@ get_buffer_line (const ed_line_node_t *lp, ed_buffer_t *ed)
       tb[0] = '\0';
       return tb;
     }
+
+  /* Allocate lp->len + '\0' (or '\n', as per write_stream ()). */
+  REALLOC_THROW (tb, tb_size, lp->len + 1, NULL, ed);
+
+  spl1 ();                      /* Offset and file position must agree. */
   ed->core->seek_on_write = 1;         /* Force seek on write. */
 
   /* out of position */
@@ -353,21 +358,22 @@ get_buffer_line (const ed_line_node_t *lp, ed_buffer_t *ed)
           ed->core->offset = -1;
           fprintf (stderr, "%s: %s\n", ed->core->pathname, strerror (errno));
           ed->exec->err = _("Buffer seek error");
+          spl0 ();
           return NULL;
         }
     }
 
-  /* Allocate lp->len + '\0' (or '\n', as per write_stream ()). */
-  REALLOC_THROW (tb, tb_size, lp->len + 1, NULL, ed);
   if (fread (tb, sizeof (char), lp->len, ed->core->fp) != lp->len)
     {
       ed->core->offset = -1;
       fprintf (stderr, "%s: %s\n", ed->core->pathname, strerror (errno));
       ed->exec->err = _("Buffer read error");
+      spl0 ();
       return NULL;
     }
   ed->core->offset += lp->len;  /* Update current offset in buffer file. */
   *(tb + lp->len) = '\0';
+  spl0 ();
   return tb;
 }
 
-- 
2.43.0


From db7102cdb621b58621d178f4dac90916c185fc54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:49 +0000
Subject: [PATCH 48/75] fix: temporary file is left behind by a hangup while it
 is created

---
 src/buf.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/buf.c b/src/buf.c
index d9ee540..7558482 100644
--- a/src/buf.c
+++ b/src/buf.c
@@ -273,6 +273,9 @@ create_disk_buffer (FILE **fp, char **name, size_t *name_size, ed_buffer_t *ed)
   strcpy (*name + s_size, add_path_sep ? "/" : "");
   strcpy (*name + s_size + add_path_sep, template);
 
+  /* File and stream must agree, in case a signal handler quits. */
+  spl1 ();
+
   /* NB: Don't unlink(2) buffer upon opening in case it resides on NFS. */
 #ifndef HAVE_MKSTEMP
   if (!mktemp (*name)
@@ -286,8 +289,10 @@ create_disk_buffer (FILE **fp, char **name, size_t *name_size, ed_buffer_t *ed)
     {
       fprintf (stderr, "%s: %s\n", *name, strerror (errno));
       ed->exec->err = _("Buffer open error");
+      spl0 ();
       return ERR;
     }
+  spl0 ();
 
   /*
    * fstat(3) is supposed to fail if any subpath of `name' is not a
-- 
2.43.0


From 0990ce2beb989fe111bb66df4ca02c2f184b7b63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:52 +0000
Subject: [PATCH 49/75] fix: temporary file is left behind if it can't be used

---
 src/buf.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/buf.c b/src/buf.c
index 7558482..385be27 100644
--- a/src/buf.c
+++ b/src/buf.c
@@ -253,7 +253,7 @@ create_disk_buffer (FILE **fp, char **name, size_t *name_size, ed_buffer_t *ed)
   size_t s_size = 0;
   size_t path_size = 0;
   int add_path_sep = 0;
-  int fd;
+  int fd = -1;
 
   if ((!(s = getenv ("TMPDIR")) || *s == '\0')
       && (!(s = _PATH_TMP) || *s == '\0'))
@@ -289,6 +289,11 @@ create_disk_buffer (FILE **fp, char **name, size_t *name_size, ed_buffer_t *ed)
     {
       fprintf (stderr, "%s: %s\n", *name, strerror (errno));
       ed->exec->err = _("Buffer open error");
+      if (fd != -1)
+        {
+          close (fd);
+          unlink (*name);
+        }
       spl0 ();
       return ERR;
     }
-- 
2.43.0


From 7128c8e3907ba8e94520c78f219acdb6921ba499 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:15 +0000
Subject: [PATCH 50/75] fix: script file is left behind by a signal during
 start of the program

---
 src/main.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/main.c b/src/main.c
index 5c5d031..a927159 100644
--- a/src/main.c
+++ b/src/main.c
@@ -99,6 +99,9 @@ main (int argc, char **argv)
   if ((ed = alloc_ed_buffer ()) == NULL)
       exit (1);
 
+  /* Signals are fatal from here on, but files created are removed. */
+  signal_status = init_signal_handler (ed);
+
   if ((len = strlen (*argv)) > 2 && *(*argv + len - 3) == 'r')
     ed->exec->opt |= RESTRICTED;
 
@@ -265,7 +268,7 @@ top:
     ed->exec->opt |= PRINT_FIRST_FILE;
 #endif
 
-  if (!(signal_status = init_signal_handler (ed)))
+  if (!signal_status)
     {
 #ifdef SIGWINCH
 
-- 
2.43.0


From 0c0669c249c8ac28382596a46484d54e011aace0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:15 +0000
Subject: [PATCH 51/75] fix: hangup while the program ends closes files twice

---
 src/buf.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/buf.c b/src/buf.c
index 385be27..374f279 100644
--- a/src/buf.c
+++ b/src/buf.c
@@ -548,6 +548,7 @@ get_line_node_address (const ed_line_node_t *lp, off_t *addr, ed_buffer_t *ed)
 void
 quit (int n, ed_buffer_t *ed)
 {
+  spl1 ();                      /* No signal may use what is closed. */
   if (ed->core->fp)
     {
       (void) fclose (ed->core->fp);
-- 
2.43.0


From 6df068aa7f82b0e5e2c2e8a4c45763509fdcea11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:12 +0000
Subject: [PATCH 52/75] fix: text after an empty line in the last block of an
 encrypted file is lost

---
 src/io.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/io.c b/src/io.c
index b9f11d8..6897234 100644
--- a/src/io.c
+++ b/src/io.c
@@ -560,7 +560,9 @@ get_stream_line (FILE *fp, size_t *len, ed_buffer_t *ed)
       REALLOC_THROW (tb, tb_size, *len + 1, NULL, ed);
       ed->state->input_is_binary |= !(*(tb + *len) = c);
     }
-  if (feof (fp))
+
+  /* When decrypting, end of file is met before its last line. */
+  if (c == EOF && feof (fp))
     {
       if (!*len)
 
-- 
2.43.0


From 2a89ffaa3b014c610a3d18d48b040e1c83395a6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:05 +0000
Subject: [PATCH 53/75] fix: UTF-8 decoder accepts surrogates, over-long forms
 and code points out of range

---
 src/utf8.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/utf8.c b/src/utf8.c
index 2ffbe5f..cd9423c 100644
--- a/src/utf8.c
+++ b/src/utf8.c
@@ -39,6 +39,7 @@ int
 decode_utf8_char (unsigned char **s, int len)
 {
   int cp;
+  int cp_min = 0;               /* Least code point not over-long. */
   int bytes = 0;
   unsigned char *t;
 
@@ -70,6 +71,7 @@ decode_utf8_char (unsigned char **s, int len)
   else if ((*t & utf8_byte_mask[3]) == utf8_byte_mask[2])
     {
       bytes = 3;
+      cp_min = 0x800;
     }
 
   /* 4-byte char sequence. */
@@ -80,6 +82,7 @@ decode_utf8_char (unsigned char **s, int len)
         return ERR;
 
       bytes = 4;
+      cp_min = 0x10000;
     }
 
   /* UTF-8 leading byte encoding invalid. */
@@ -103,8 +106,9 @@ decode_utf8_char (unsigned char **s, int len)
       cp |= (*t++ & ~utf8_byte_mask[1]) << utf8_cp_offset[bytes - 1];
     }
 
-  /*  Not a UTF-8 code point. */
-  if (cp == 0xFFFE || cp == 0xFFFF || (0xDC80 <= cp && cp <= 0xDCFF))
+  /*  Not a UTF-8 code point (surrogates are excluded by RFC 3629). */
+  if (cp == 0xFFFE || cp == 0xFFFF || (0xD800 <= cp && cp <= 0xDFFF)
+      || cp < cp_min || cp > 0x10FFFF)
     return ERR;
 
   *s = t;
-- 
2.43.0


From 0052d4c4d537e6797d0115236d7dbea670a43ce1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:03 +0000
Subject: [PATCH 54/75] fix: line number argument out of range crashes the
 editor

---
 src/main.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/main.c b/src/main.c
index a927159..b04e22a 100644
--- a/src/main.c
+++ b/src/main.c
@@ -221,7 +221,8 @@ top:
     }
 
 #ifdef WANT_ADDRESS_ARGUMENTS
-  argv = collect_address_args (&argc, argv, ed);
+  if ((argv = collect_address_args (&argc, argv, ed)) == NULL)
+    script_die (3, ed);
 #endif
 
   /* In case of option `-f' or `-e', rewind internal script file. */
-- 
2.43.0


From 76595edb6b21f72d1cf4e1757d7e6ea3164ce638 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:35 +0000
Subject: [PATCH 55/75] fix: undocumented command }

---
 src/exec.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/exec.c b/src/exec.c
index 7815864..9b8c799 100644
--- a/src/exec.c
+++ b/src/exec.c
@@ -376,8 +376,8 @@ exec_command (ed_buffer_t *ed)
     case '#':
       return comment_cmd (ed);
     default:
-      return (c >= ED_KEY_FIRST ? ed_cmd[(c - ED_KEY_FIRST) & ED_KEY_MASK](ed)
-              : invalid_cmd (ed));
+      return (c >= ED_KEY_FIRST && c <= ED_KEY_FIRST + ED_KEY_MASK
+              ? ed_cmd[c - ED_KEY_FIRST](ed) : invalid_cmd (ed));
     }
 }
 
-- 
2.43.0


From 0f4839c8347caacc3d0776e9c6d5b373ec767e19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:39 +0000
Subject: [PATCH 56/75] fix: lines read before an error are deleted by the next
 append

---
 src/io.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/io.c b/src/io.c
index 6897234..2888cb0 100644
--- a/src/io.c
+++ b/src/io.c
@@ -195,6 +195,7 @@ read_pipe (const char *fn, off_t after, off_t *addr,
         }                                                                     \
       (lp) = (lp)->q_forw;                                                    \
       APPEND_UNDO_NODE ((lp), (up), (addr), ed);                              \
+      ed->state->is_empty = 0;                                                \
       spl0 ();                                                                \
     }                                                                         \
   while (0)
-- 
2.43.0


From b96a98000c614a1da1f82869bc4942fc61cfd6dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:43 +0000
Subject: [PATCH 57/75] fix: crash if memory is exhausted while file arguments
 are copied

---
 src/buf.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/buf.c b/src/buf.c
index 374f279..892534d 100644
--- a/src/buf.c
+++ b/src/buf.c
@@ -43,8 +43,9 @@ one_time_init (int argc, char *argv[], ed_buffer_t *ed)
    * shell level. The results are stored in the file_glob structure
    * even if file globbing support is not enabled.
    */
+  if (!(ed->file->list->gl_pathv = dup_argv (argc, argv, ed)))
+    return ERR;
   ed->file->list->gl_pathc = argc;
-  ed->file->list->gl_pathv = dup_argv (argc, argv, ed);
 
   /*
    * Reset file_glob->gl_offs after first glob(3) -- see file_glob().
-- 
2.43.0


From 0075c088c4e4b40847c70e3097680a09c8cb7448 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:48 +0000
Subject: [PATCH 58/75] fix: wrong text is stored after memory is exhausted
 adding a line

---
 src/buf.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/buf.c b/src/buf.c
index 892534d..0361d62 100644
--- a/src/buf.c
+++ b/src/buf.c
@@ -440,7 +440,10 @@ put_buffer_line (const char *t, size_t len, ed_buffer_t *ed)
       return NULL;
     }
   if (!append_line_node (len, ed->core->offset, ed->state->dot, ed))
-    return NULL;
+    {
+      ed->core->seek_on_write = 1;         /* Text is not referenced. */
+      return NULL;
+    }
 
   /* Editing, e.g., in the C locale, may leave part of a UTF-8 character. */
   if (ed->state->is_utf8)
-- 
2.43.0


From 971211e59e3ed68012c18666a079e014a4cf6942 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:53 +0000
Subject: [PATCH 59/75] fix: buffer is inconsistent after memory is exhausted
 recording undo

---
 src/buf.c  | 17 +++++++++++++++++
 src/cmds.c | 18 +++++++++++++++---
 src/ed.h   |  2 ++
 src/sub.c  |  2 +-
 4 files changed, 35 insertions(+), 4 deletions(-)

diff --git a/src/buf.c b/src/buf.c
index 0361d62..f5fceb6 100644
--- a/src/buf.c
+++ b/src/buf.c
@@ -490,6 +490,23 @@ append_line_node (size_t len, off_t offset, off_t addr, ed_buffer_t *ed)
 }
 
 
+/* remove_line_node: Remove a line just added that can't be undone. */
+void
+remove_line_node (off_t addr, ed_buffer_t *ed)
+{
+  ed_line_node_t *lp = get_line_node (addr, ed);
+
+  /* Assert: spl1 () */
+
+  /* This get_line_node last! */
+  get_line_node (addr - 1, ed);
+  UNLINK_NODE (lp);
+  free (lp);
+  --ed->state->lines;
+  ed->state->dot = addr - 1;
+}
+
+
 /* get_line_node: Return pointer to line node in the ed buffer. */
 ed_line_node_t *
 get_line_node (off_t n, ed_buffer_t *ed)
diff --git a/src/cmds.c b/src/cmds.c
index a5b96b4..aa52467 100644
--- a/src/cmds.c
+++ b/src/cmds.c
@@ -174,12 +174,17 @@ join_lines (off_t from, off_t to, ed_buffer_t *ed)
       return ERR;
     }
   ed->state->dot = from - 1;
-  if (!put_buffer_line (lj, len, ed)
-      || !append_undo_node (UADD, ed->state->dot, ed->state->dot, ed))
+  if (!put_buffer_line (lj, len, ed))
     {
       spl0 ();
       return ERR;
     }
+  if (!append_undo_node (UADD, ed->state->dot, ed->state->dot, ed))
+    {
+      remove_line_node (ed->state->dot, ed);
+      spl0 ();
+      return ERR;
+    }
   ed->state->is_modified = 1;
   spl0 ();
   return 0;
@@ -193,6 +198,7 @@ int
 move_lines (off_t from, off_t to, off_t after, ed_buffer_t *ed)
 {
   ed_line_node_t *b1, *a1, *b2, *a2;
+  ed_undo_node_t *up = NULL;
   off_t succ = INC_MOD (to, ed->state->lines);
   off_t prec = from - 1;
   int done = (after == from - 1 || after == to);
@@ -206,10 +212,16 @@ move_lines (off_t from, off_t to, off_t after, ed_buffer_t *ed)
         delete_global_nodes (b2->q_forw, a2, ed);
       ed->state->dot = to;
     }
-  else if (!append_undo_node (UMOV, prec, succ, ed)
+  else if (!(up = append_undo_node (UMOV, prec, succ, ed))
            || !append_undo_node (UMOV, after,
                                  INC_MOD (after, ed->state->lines), ed))
     {
+      /* Undo nodes of a move come in pairs. */
+      if (up)
+        {
+          UNLINK_NODE (up);
+          free (up);
+        }
       spl0 ();
       return ERR;
     }
diff --git a/src/ed.h b/src/ed.h
index c39a052..e4f661a 100644
--- a/src/ed.h
+++ b/src/ed.h
@@ -695,6 +695,7 @@ enum search_type
         (up)->t = (lp);                                                       \
       else if (!((up) = append_undo_node (UADD, (addr), (addr), (ed))))       \
         {                                                                     \
+          remove_line_node ((addr), (ed));                                    \
           spl0 ();                                                            \
           return ERR;                                                         \
         }                                                                     \
@@ -974,6 +975,7 @@ int put_des_char (int, FILE *);
 #endif
 
 void quit (int, ed_buffer_t *);
+void remove_line_node (off_t, ed_buffer_t *);
 int read_file (const char *, off_t, off_t *, off_t *, int, ed_buffer_t *);
 int read_pipe (const char *, off_t, off_t *, off_t *, ed_buffer_t *);
 int read_stream_r (FILE *, off_t, off_t *, ed_buffer_t *);
diff --git a/src/sub.c b/src/sub.c
index 8f10acd..8fc7869 100644
--- a/src/sub.c
+++ b/src/sub.c
@@ -407,8 +407,8 @@ substitute_lines (off_t from, off_t to, regex_t *re, off_t s_nth,
                   return ERR;
                 }
               mp = get_line_node (ed->state->dot, ed);
-              transfer_marks (mp, lp, ed);
               APPEND_UNDO_NODE (mp, up, ed->state->dot, ed);
+              transfer_marks (mp, lp, ed);
             }
           while (txt != eot);
           ++nsubs;
-- 
2.43.0


From ff90ee6493a4f71cbc2e3a1fcac8f26735d660ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:05 +0000
Subject: [PATCH 60/75] fix: editor continues in a child process after an
 interrupt during a filter

---
 src/aux.c  | 17 ++++++++++++++---
 src/cmds.c |  5 +++++
 2 files changed, 19 insertions(+), 3 deletions(-)

diff --git a/src/aux.c b/src/aux.c
index c4e675a..e4feca2 100644
--- a/src/aux.c
+++ b/src/aux.c
@@ -81,10 +81,16 @@ filter_lines (off_t from, off_t to, const char *sc, ed_buffer_t *ed)
       return ERR;
     }
 
-  /* Create first child process for shell command. */
+  /*
+   * Create first child process for shell command. No signal handler
+   * may run in a child process, since it would return to the editor's
+   * command loop or save the buffer.
+   */
+  spl1 ();
   switch (shell_pid = fork ())
     {
     case -1:
+      spl0 ();
       fprintf (stderr, "%s\n", strerror (errno));
       ed->exec->err = _("Fork error");
       close (ip[0]), close (ip[1]);
@@ -93,6 +99,7 @@ filter_lines (off_t from, off_t to, const char *sc, ed_buffer_t *ed)
       goto err;
     case 0:
       /* Reset signals for shell. */
+      signal (SIGHUP, SIG_DFL);
       signal (SIGINT, SIG_DFL);
       signal (SIGQUIT, SIG_DFL);
 
@@ -117,7 +124,6 @@ filter_lines (off_t from, off_t to, const char *sc, ed_buffer_t *ed)
   /* Close write end of pipe op, op[1], so that EOF is seen. */
   close (op[1]);
 
-  spl1 ();
   if (ed->exec->region->addrs && (status = delete_lines (from, to, ed)) < 0)
     {
       kill (shell_pid, SIGINT);
@@ -131,12 +137,12 @@ filter_lines (off_t from, off_t to, const char *sc, ed_buffer_t *ed)
       ed->state->is_binary = 0;
       ed->state->is_empty = 1;
     }
-  spl0 ();
 
   /* Create second child process for writing to shell command. */
   switch (write_pid = fork ())
     {
     case -1:
+      spl0 ();
       fprintf (stderr, "%s\n", strerror (errno));
       ed->exec->err = _("Fork error");
       (void) close (ip[1]);
@@ -144,6 +150,10 @@ filter_lines (off_t from, off_t to, const char *sc, ed_buffer_t *ed)
       status = ERR;
       goto err;
     case 0:
+      /* Reset signals for writer. */
+      signal (SIGHUP, SIG_DFL);
+      signal (SIGINT, SIG_DFL);
+      signal (SIGQUIT, SIG_DFL);
 
       /*
        * Close unused pipe ends, then open and write to shell
@@ -170,6 +180,7 @@ filter_lines (off_t from, off_t to, const char *sc, ed_buffer_t *ed)
       /* Avoid exit (3). */
       _exit (status < 0 ? 127 << 8 : 0);
     }
+  spl0 ();
 
   /* Close unused pipe ends, then open shell process's standard output. */
   if (close (ip[0]) < 0 || close (ip[1]) < 0 || !(opp = fdopen (op[0], "r")))
diff --git a/src/cmds.c b/src/cmds.c
index aa52467..eaeb559 100644
--- a/src/cmds.c
+++ b/src/cmds.c
@@ -330,15 +330,19 @@ system_shell (const char *sc, ed_buffer_t *ed)
   int wstatus;
   pid_t shell_pid;
 
+  /* No signal handler may run in child process, whose memory is shared. */
+  spl1 ();
   switch (shell_pid = vfork ())
     {
     case -1:
+      spl0 ();
       fprintf (stderr, "%s\n", strerror (errno));
       ed->exec->err = _("Fork error");
       status = ERR;
       goto err;
     case 0:
       /* Reset signals for shell. */
+      signal (SIGHUP, SIG_DFL);
       signal (SIGINT, SIG_DFL);
       signal (SIGQUIT, SIG_DFL);
 
@@ -350,6 +354,7 @@ system_shell (const char *sc, ed_buffer_t *ed)
 
       /* NOTREACHED */
     }
+  spl0 ();
 
   while (waitpid (shell_pid, &wstatus, 0) < 0)
     if (errno != EINTR)
-- 
2.43.0


From 610ef7af8e10f6d4274d2b2665fc34b441d909e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:12 +0000
Subject: [PATCH 61/75] fix: hang after a filter fails

---
 src/aux.c | 92 +++++++++++++++++++++++++++----------------------------
 1 file changed, 45 insertions(+), 47 deletions(-)

diff --git a/src/aux.c b/src/aux.c
index e4feca2..6fa5cdd 100644
--- a/src/aux.c
+++ b/src/aux.c
@@ -8,42 +8,20 @@
 #include "ed.h"
 
 #if defined (HAVE_FORK) && defined (WANT_EXTERNAL_FILTER)
-# define WAITPID()                                                            \
-  do                                                                          \
-    {                                                                         \
-      pid_t any_pid;                                                          \
-      int pid_status = 0;                                                     \
-      int saved_pid_status = 0;                                               \
-      int waiting = write_pid == -1 ? 1 : 2;                                  \
-                                                                              \
-      while (waiting)                                                         \
-        if ((any_pid = waitpid (-1, &pid_status, 0)) < 0)                     \
-          {                                                                   \
-            if (errno != EINTR)                                               \
-              {                                                               \
-                fprintf (stderr, "%s\n", strerror (errno));                   \
-                ed->exec->err = _("Child process error");                     \
-                status = ERR;                                                 \
-                goto end;                                                     \
-              }                                                               \
-            errno = 0;                                                        \
-          }                                                                   \
-        else                                                                  \
-          {                                                                   \
-            if (any_pid == shell_pid)                                         \
-              saved_pid_status = pid_status;                                  \
-            --waiting;                                                        \
-          }                                                                   \
-                                                                              \
-      if (WIFEXITED (saved_pid_status) && WEXITSTATUS (saved_pid_status))     \
-        {                                                                     \
-          snprintf (exit_status, sizeof exit_status, _("Exit status: %#x"),   \
-                    WEXITSTATUS (saved_pid_status));                          \
-          ed->exec->err = exit_status;                                        \
-        }                                                                     \
-    end:                                                                      \
-    }                                                                         \
-  while (0)
+
+/* wait_child: Wait for child process; return status. */
+static int
+wait_child (pid_t pid, int *pid_status, ed_buffer_t *ed)
+{
+  while (waitpid (pid, pid_status, 0) < 0)
+    if (errno != EINTR)
+      {
+        fprintf (stderr, "%s\n", strerror (errno));
+        ed->exec->err = _("Child process error");
+        return ERR;
+      }
+  return 0;
+}
 
 
 /*
@@ -58,9 +36,10 @@ filter_lines (off_t from, off_t to, const char *sc, ed_buffer_t *ed)
   FILE *ipp, *opp;
   ed_line_node_t *lp = get_line_node (from, ed);
   off_t n = from ? to - from + 1 : 0;
-  pid_t shell_pid, write_pid;
+  pid_t shell_pid, write_pid = -1;
   off_t size = 0;
   int ip[2], op[2];
+  int pid_status = 0;
   int status = 0;
 
   /* Flush any buffered I/O. */
@@ -74,10 +53,17 @@ filter_lines (off_t from, off_t to, const char *sc, ed_buffer_t *ed)
    * Create two pipes: one for writing to the shell command and
    * another for reading from it.
    */
-  if (pipe (ip) < 0 || pipe (op) < 0)
+  if (pipe (ip) < 0)
+    {
+      fprintf (stderr, "%s\n", strerror (errno));
+      ed->exec->err = _("Pipe open error");
+      return ERR;
+    }
+  if (pipe (op) < 0)
     {
       fprintf (stderr, "%s\n", strerror (errno));
       ed->exec->err = _("Pipe open error");
+      close (ip[0]), close (ip[1]);
       return ERR;
     }
 
@@ -95,8 +81,7 @@ filter_lines (off_t from, off_t to, const char *sc, ed_buffer_t *ed)
       ed->exec->err = _("Fork error");
       close (ip[0]), close (ip[1]);
       close (op[0]), close (op[1]);
-      status = ERR;
-      goto err;
+      return ERR;
     case 0:
       /* Reset signals for shell. */
       signal (SIGHUP, SIG_DFL);
@@ -126,7 +111,8 @@ filter_lines (off_t from, off_t to, const char *sc, ed_buffer_t *ed)
 
   if (ed->exec->region->addrs && (status = delete_lines (from, to, ed)) < 0)
     {
-      kill (shell_pid, SIGINT);
+      kill (shell_pid, SIGKILL);
+      close (ip[0]), close (ip[1]), close (op[0]);
       spl0 ();
       goto err;
     }
@@ -145,8 +131,7 @@ filter_lines (off_t from, off_t to, const char *sc, ed_buffer_t *ed)
       spl0 ();
       fprintf (stderr, "%s\n", strerror (errno));
       ed->exec->err = _("Fork error");
-      (void) close (ip[1]);
-      (void) close (op[0]);
+      close (ip[0]), close (ip[1]), close (op[0]);
       status = ERR;
       goto err;
     case 0:
@@ -183,17 +168,22 @@ filter_lines (off_t from, off_t to, const char *sc, ed_buffer_t *ed)
   spl0 ();
 
   /* Close unused pipe ends, then open shell process's standard output. */
-  if (close (ip[0]) < 0 || close (ip[1]) < 0 || !(opp = fdopen (op[0], "r")))
+  status = close (ip[0]);
+  if (close (ip[1]) < 0 || status < 0 || !(opp = fdopen (op[0], "r")))
     {
       fprintf (stderr, "%s\n", strerror (errno));
       ed->exec->err = _("Pipe open error");
+      close (op[0]);
       status = ERR;
       goto err;
     }
 
   /* Read standard output of shell process via reentrant read_stream. */
   if ((status = read_stream_r (opp, ed->state->dot, &size, ed)) < 0)
-    goto err;
+    {
+      fclose (opp);
+      goto err;
+    }
 
   printf (ed->exec->opt & SCRIPTED ? "" : "%" OFF_T_FORMAT_STRING "\n", size);
 
@@ -206,8 +196,16 @@ filter_lines (off_t from, off_t to, const char *sc, ed_buffer_t *ed)
     }
 
  err:
-  if (shell_pid != -1)
-    WAITPID ();
+  if (write_pid != -1 && wait_child (write_pid, &pid_status, ed) < 0)
+    status = ERR;
+  if (wait_child (shell_pid, &pid_status, ed) < 0)
+    status = ERR;
+  else if (status >= 0 && WIFEXITED (pid_status) && WEXITSTATUS (pid_status))
+    {
+      snprintf (exit_status, sizeof exit_status, _("Exit status: %#x"),
+                WEXITSTATUS (pid_status));
+      ed->exec->err = exit_status;
+    }
   return status;
 }
 #endif  /* defined (HAVE_FORK) && defined (WANT_EXTERNAL_FILTER) */
-- 
2.43.0


From 8c522804712a05b9cf1a833ab7d86bdc408234e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:23 +0000
Subject: [PATCH 62/75] fix: failure of a filter's child process is not
 reported

---
 src/aux.c  | 22 ++++++++++++++++++----
 src/cmds.c |  2 +-
 2 files changed, 19 insertions(+), 5 deletions(-)

diff --git a/src/aux.c b/src/aux.c
index 6fa5cdd..243107f 100644
--- a/src/aux.c
+++ b/src/aux.c
@@ -100,7 +100,7 @@ filter_lines (off_t from, off_t to, const char *sc, ed_buffer_t *ed)
           || execl ("/bin/sh", "sh", "-c", sc, NULL) < 0)
         {
           fprintf (stderr, "%s\n", strerror (errno));
-          _exit (127 << 8);
+          _exit (127);
         }
 
       /* NOTREACHED */
@@ -139,6 +139,7 @@ filter_lines (off_t from, off_t to, const char *sc, ed_buffer_t *ed)
       signal (SIGHUP, SIG_DFL);
       signal (SIGINT, SIG_DFL);
       signal (SIGQUIT, SIG_DFL);
+      signal (SIGPIPE, SIG_DFL);
 
       /*
        * Close unused pipe ends, then open and write to shell
@@ -163,7 +164,7 @@ filter_lines (off_t from, off_t to, const char *sc, ed_buffer_t *ed)
         }
 
       /* Avoid exit (3). */
-      _exit (status < 0 ? 127 << 8 : 0);
+      _exit (status < 0 ? 127 : 0);
     }
   spl0 ();
 
@@ -196,8 +197,21 @@ filter_lines (off_t from, off_t to, const char *sc, ed_buffer_t *ed)
     }
 
  err:
-  if (write_pid != -1 && wait_child (write_pid, &pid_status, ed) < 0)
-    status = ERR;
+  if (write_pid != -1)
+    {
+      if (wait_child (write_pid, &pid_status, ed) < 0)
+        status = ERR;
+
+      /* The shell command need not read all lines. */
+      else if (status >= 0
+               && (WIFSIGNALED (pid_status)
+                   ? WTERMSIG (pid_status) != SIGPIPE
+                   : WEXITSTATUS (pid_status) != 0))
+        {
+          ed->exec->err = _("Pipe write error");
+          status = ERR;
+        }
+    }
   if (wait_child (shell_pid, &pid_status, ed) < 0)
     status = ERR;
   else if (status >= 0 && WIFEXITED (pid_status) && WEXITSTATUS (pid_status))
diff --git a/src/cmds.c b/src/cmds.c
index eaeb559..eed06a8 100644
--- a/src/cmds.c
+++ b/src/cmds.c
@@ -349,7 +349,7 @@ system_shell (const char *sc, ed_buffer_t *ed)
       if (execl ("/bin/sh", "sh", "-c", sc, NULL) < 0)
         {
           fprintf (stderr, "%s\n", strerror (errno));
-          _exit (127 << 8);
+          _exit (127);
         }
 
       /* NOTREACHED */
-- 
2.43.0


From 0ce0fe93b067bde5dc237784aa6f06c267b2ef42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:03 +0000
Subject: [PATCH 63/75] fix: file operand with odd name edits another file

---
 src/ed.h    |  1 +
 src/main.c  |  4 ++++
 src/parse.c | 34 ++++++++++++++++++++++++++--------
 3 files changed, 31 insertions(+), 8 deletions(-)

diff --git a/src/ed.h b/src/ed.h
index e4f661a..52e836c 100644
--- a/src/ed.h
+++ b/src/ed.h
@@ -951,6 +951,7 @@ int inter_register_move (int, ed_buffer_t *);
 #endif
 
 int is_fifo (const char *, ed_buffer_t *);
+int is_literal_name (const char *, ed_buffer_t *);
 int is_utf8_str (const char *, size_t);
 int join_lines (off_t, off_t, ed_buffer_t *);
 int mark_global_nodes (int, ed_buffer_t *);
diff --git a/src/main.c b/src/main.c
index b04e22a..63ae421 100644
--- a/src/main.c
+++ b/src/main.c
@@ -570,6 +570,8 @@ next_edit (int status, ed_buffer_t *ed)
       ed->exec->err = _("File name too long");
       return ERR;
     }
+  else if (is_literal_name (*ed->file->list->gl_pathv, ed) < 0)
+    return ERR;
 
   /* Allocate for string `r <filename>\n\0' */
   REALLOC_THROW (buf, buf_size, len + 4, ERR, ed);
@@ -642,6 +644,8 @@ save_edit (int status, ed_buffer_t *ed)
       ed->exec->err = _("File name too long");
       return FATAL;
     }
+  else if (is_literal_name (name, ed) < 0)
+    return FATAL;
 
   /* Allocate for string `w <filename>\n\0' */
   REALLOC_THROW (buf, buf_size, len + 4, ERR, ed);
diff --git a/src/parse.c b/src/parse.c
index 0f803fe..2c1c2c6 100644
--- a/src/parse.c
+++ b/src/parse.c
@@ -554,6 +554,24 @@ expand_glob (char *pattern, int append, glob_t *gp, ed_buffer_t *ed)
 }
 
 
+/* is_literal_name: Return status of file name check. A name is passed
+   literally as argument of a command unless it begins with white space,
+   has an embedded newline or ends with an escape. */
+int
+is_literal_name (const char *name, ed_buffer_t *ed)
+{
+  size_t len = strlen (name);
+
+  if (isspace ((unsigned char) *name) || strchr (name, '\n')
+      || (len && *(name + len - 1) == '\\'))
+    {
+      ed->exec->err = _("Invalid file name");
+      return ERR;
+    }
+  return 0;
+}
+
+
 /* is_valid_name: Return status of file name check. */
 static char *
 is_valid_name (const char *name, ed_buffer_t *ed)
@@ -571,14 +589,14 @@ is_valid_name (const char *name, ed_buffer_t *ed)
       return NULL;
     }
 
-  /* Push file name onto command buffer. Append newline if missing. */
-  len = strlen (ed->input = (char *) name);
-  if (name[len - 1] != '\n')
-    {
-      REALLOC_THROW (fn, fn_size, len + 2, NULL, ed);
-      strcpy (ed->input = fn, name);
-      strcpy (fn + len, "\n");
-    }
+  if (is_literal_name (name, ed) < 0)
+    return NULL;
+
+  /* Push file name onto command buffer. Append newline. */
+  len = strlen (name);
+  REALLOC_THROW (fn, fn_size, len + 2, NULL, ed);
+  strcpy (ed->input = fn, name);
+  strcpy (fn + len, "\n");
   if ((s = file_name (&len, ed)) && strcmp (name, s))
     {
       ed->exec->err = _("Invalid file name");
-- 
2.43.0


From d9337ddfef646f5552d355746e40a9714394c4c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:24:12 +0000
Subject: [PATCH 64/75] fix: commands m and t are rejected in POSIX and
 traditional modes

---
 src/exec.c | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/exec.c b/src/exec.c
index 9b8c799..86723f1 100644
--- a/src/exec.c
+++ b/src/exec.c
@@ -326,14 +326,15 @@ exec_command (ed_buffer_t *ed)
   /* Validate command prefix, if any. */
   switch (c = *ed->input++)
     {
-    case 'm':
-    case 't':
 #ifdef WANT_ED_MACRO
     case '@':
-#endif
       if (ed->exec->opt & (POSIXLY_CORRECT | TRADITIONAL))
         return invalid_cmd (ed);
-      else if (ed->file->is_glob)
+      /* Fall through. */
+#endif
+    case 'm':
+    case 't':
+      if (ed->file->is_glob)
         {
           ed->exec->err = _("Command prefix unexpected");
           return ERR;
-- 
2.43.0


From 4b553eed26906969acc10551ba0ae3b3c77f9778 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:03 +0000
Subject: [PATCH 65/75] fix: memory allocator is interrupted by a signal during
 a filter or scroll

---
 src/buf.c  | 2 ++
 src/io.c   | 5 +++++
 src/page.c | 2 ++
 3 files changed, 9 insertions(+)

diff --git a/src/buf.c b/src/buf.c
index f5fceb6..7de875c 100644
--- a/src/buf.c
+++ b/src/buf.c
@@ -709,9 +709,11 @@ init_text_deque (ed_text_node_t *th)
   char *t;
   size_t len;
 
+  spl1 ();
   while ((t = shift_text_node (th, &len)))
     free (t);
   INIT_DEQUE (th);
+  spl0 ();
 }
 
 
diff --git a/src/io.c b/src/io.c
index 2888cb0..830621a 100644
--- a/src/io.c
+++ b/src/io.c
@@ -340,13 +340,16 @@ is_encrypted (const FILE *fp, ed_buffer_t *ed)
   do                                                                          \
     {                                                                         \
       char *_t;                                                               \
+      spl1 ();                                                                \
       if (!(_t = (char *) malloc ((len) + 1))                                 \
           || !append_text_node ((th), memcpy (_t, (s), (len) + 1), (len)))    \
         {                                                                     \
+          spl0 ();                                                            \
           fprintf (stderr, "%s\n", strerror (errno));                         \
           (ed)->exec->err = _("Memory exhausted");                            \
           return ERR;                                                         \
         }                                                                     \
+      spl0 ();                                                                \
     }                                                                         \
   while (0)
 
@@ -413,7 +416,9 @@ read_stream_r (FILE *fp, off_t after, off_t *size, ed_buffer_t *ed)
   while ((t = shift_text_node (&th, &len)))
     {
       PUT_BUFFER_LINE (lp, t, len, up, ed->state->dot);
+      spl1 ();
       free (t);
+      spl0 ();
     }
 
   /*
diff --git a/src/page.c b/src/page.c
index bf462f7..f0ba4b0 100644
--- a/src/page.c
+++ b/src/page.c
@@ -251,6 +251,7 @@ put_tty_line (ed_line_node_t *lp, off_t addr, ed_buffer_t *ed)
 # define RESET_FB_PREV(fb, ed)                                                \
   do                                                                          \
     {                                                                         \
+      spl1 ();                                                                \
       if ((fb)->prev_first)                                                   \
         {                                                                     \
           free ((fb)->prev_first);                                            \
@@ -263,6 +264,7 @@ put_tty_line (ed_line_node_t *lp, off_t addr, ed_buffer_t *ed)
         }                                                                     \
       (ed)->display->underflow = 0;                                           \
       (ed)->display->overflow = 0;                                            \
+      spl0 ();                                                                \
     }                                                                         \
   while (0)
 
-- 
2.43.0


From c6b0d512646a0f96ddba3b4fba4bb929c721c24e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:11:16 +0000
Subject: [PATCH 66/75] fix: files stay open after the editor has left them

---
 src/buf.c |  3 ---
 src/io.c  | 25 ++++++++++++++++++++++---
 2 files changed, 22 insertions(+), 6 deletions(-)

diff --git a/src/buf.c b/src/buf.c
index 7de875c..e84a6a2 100644
--- a/src/buf.c
+++ b/src/buf.c
@@ -198,13 +198,10 @@ init_ed_command (int init_glob, ed_buffer_t *ed)
   /* File info */
 #ifdef WANT_FILE_LOCK
 
-  /* XXX: GNU/Linux double-frees on fclose().  */
-#ifndef __linux__
   if (ed->file->handle)
 
     /* Assert: No writes since fopen(3). */
     (void) fclose (ed->file->handle);
-#endif  /* __linux__ */
 
   ed->file->handle = NULL;
   ed->file->inode = 0;
diff --git a/src/io.c b/src/io.c
index 830621a..f85eb6f 100644
--- a/src/io.c
+++ b/src/io.c
@@ -109,6 +109,8 @@ read_file (const char *fn, off_t after, off_t *addr,
   if (!already_open && is_default)
     {
       spl1 ();
+      if (ed->file->handle)
+        (void) fclose (ed->file->handle);
       ed->file->inode = inode;
       ed->file->handle = fp;
       ed->file->is_writable = !read_only && !unlockable;
@@ -127,7 +129,13 @@ read_file (const char *fn, off_t after, off_t *addr,
 
 
   if ((status = read_stream (fp, after, size, ed)) < 0)
-    return status;
+    {
+#ifdef WANT_FILE_LOCK
+      if (fp != ed->file->handle)
+#endif
+        (void) fclose (fp);
+      return status;
+    }
   *addr = ed->state->dot - after;
 
   if (read_only
@@ -173,7 +181,10 @@ read_pipe (const char *fn, off_t after, off_t *addr,
       return ERR;
     }
   if ((status = read_stream (fp, after, size, ed)) < 0)
-    return status;
+    {
+      pclose (fp);
+      return status;
+    }
   *addr = ed->state->dot - after;
 
   /* Ignore "no child" error. */
@@ -694,6 +705,8 @@ write_file (const char *fn, int is_default, off_t from, off_t to,
       if (is_default)
         {
           spl1 ();
+          if (ed->file->handle)
+            (void) fclose (ed->file->handle);
           ed->file->inode = inode;
           ed->file->handle = fp;
           ed->file->is_writable = 1;
@@ -705,7 +718,13 @@ write_file (const char *fn, int is_default, off_t from, off_t to,
     }
 #endif  /* WANT_FILE_LOCK */
   if ((status = write_stream (fp, lp, n, size, ed)) < 0)
-    return status;
+    {
+#ifdef WANT_FILE_LOCK
+      if (fp != ed->file->handle)
+#endif
+        (void) fclose (fp);
+      return status;
+    }
 
   /* Allow writing an empty buffer. */
   *addr = n;
-- 
2.43.0


From 84104af2542d9261af1267c2d8364995c94d6893 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:03:34 +0000
Subject: [PATCH 67/75] fix: many case conversions in a replacement overflow
 their stack

---
 src/sub.c | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/sub.c b/src/sub.c
index 8fc7869..8773d70 100644
--- a/src/sub.c
+++ b/src/sub.c
@@ -663,8 +663,7 @@ apply_subst_template (const char *boln, const regmatch_t *rm,
   int n;
   int change_once = 0;
 
-  if (cc_size < rhs_i / 2 + 1)
-    REALLOC_THROW (cc, cc_size, rhs_i /  2 + 1, ERR, ed);
+  REALLOC_THROW (cc, cc_size, (rhs_i / 2 + 1) * sizeof (int), ERR, ed);
   cc[cc_top++] = 0;
 
   for (; sub < rhs + rhs_i; ++sub)
-- 
2.43.0


From 881aed0a31a5a805be1f707db58b5d58e41c3865 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:21:49 +0000
Subject: [PATCH 68/75] fix: scrolling may resume in a line that has taken the
 place of a deleted one

---
 src/ed.h   |  2 ++
 src/page.c | 19 +++++++++++++++----
 2 files changed, 17 insertions(+), 4 deletions(-)

diff --git a/src/ed.h b/src/ed.h
index 52e836c..9307bf6 100644
--- a/src/ed.h
+++ b/src/ed.h
@@ -257,6 +257,8 @@ typedef struct ed_line_node
 typedef struct ed_frame_node
 {
   ed_line_node_t *lp;           /* Line pointer. */
+  size_t len;                   /* Line length. */
+  off_t seek;                   /* Line offset in on-disk buffer. */
   char *text;                   /* Text buffer. */
   size_t text_size;             /* Text buffer size. */
   size_t text_i;                /* Current text index in row. */
diff --git a/src/page.c b/src/page.c
index f0ba4b0..407ff4b 100644
--- a/src/page.c
+++ b/src/page.c
@@ -229,12 +229,19 @@ put_tty_line (ed_line_node_t *lp, off_t addr, ed_buffer_t *ed)
   do                                                                          \
     {                                                                         \
       (fb)->row[(fb)->row_i]->lp = (bp);                                      \
+      (fb)->row[(fb)->row_i]->len = (bp)->len;                                \
+      (fb)->row[(fb)->row_i]->seek = (bp)->seek;                              \
       (fb)->row[(fb)->row_i]->addr = (caddr);                                 \
       (fb)->row[(fb)->row_i]->offset = (off);                                 \
       (fb)->row[(fb)->row_i]->text_i = 0;                                     \
     }                                                                         \
   while (0)
 
+/* IS_ROW_LINE: True if row, rp, of a previous frame is of line, lp. The
+   node of a deleted line may have been allocated again for another. */
+# define IS_ROW_LINE(lp_, rp)                                                 \
+  ((rp)->lp == (lp_) && (rp)->len == (lp_)->len && (rp)->seek == (lp_)->seek)
+
 /* INC_FB_ROW: Increment frame buffer row. */
 # define INC_FB_ROW(ok_to_wrap, fb)                                           \
   do                                                                          \
@@ -327,7 +334,7 @@ display_lines (off_t from, off_t to, ed_buffer_t *ed)
        * forward, then resume with truncated part at top of page.
        */
       if (!(ed->display->io_f & ZBWD) &&  ed->display->underflow
-          && fb->prev_last && bp == fb->prev_last->lp)
+          && fb->prev_last && IS_ROW_LINE (bp, fb->prev_last))
         {
           fb->row[fb->row_i]->offset = bp->len - fb->rem_chars;
           ed->display->io_f |= OFFB;
@@ -339,7 +346,7 @@ display_lines (off_t from, off_t to, ed_buffer_t *ed)
        * backward, then resume with truncated part at bottom of page.
        */
       else if (!(ed->display->io_f & ZFWD) && ed->display->overflow
-               && fb->prev_first && bp == fb->prev_first->lp)
+               && fb->prev_first && IS_ROW_LINE (bp, fb->prev_first))
         {
           fb->rem_chars = fb->prev_first->offset;
 
@@ -577,7 +584,7 @@ put_frame_buffer_line (ed_line_node_t *lp, off_t addr,
     s += fb->row[fb->row_i]->offset;
 
   if (ed->display->overflow && fb->prev_first
-      && fb->prev_first->lp == lp && is_utf8)
+      && IS_ROW_LINE (lp, fb->prev_first) && is_utf8)
 
     /*
      * XXX: For multibyte streams, adjust fb->rem_chars upward.
@@ -771,7 +778,7 @@ inc_mod_fb_row (ed_line_node_t *lp, off_t addr, int ok_to_wrap,
 
   if (!fb->is_full)
     {
-      if (fb->prev_first && fb->prev_first->lp == lp)
+      if (fb->prev_first && IS_ROW_LINE (lp, fb->prev_first))
         {
           /* XXX: See tests zb[12].tso. */
           offset = (ok_to_wrap ? fb->prev_first->offset : lp->len);
@@ -851,6 +858,8 @@ init_frame_node (ed_frame_node_t *rp)
 {
   rp->addr = 0;
   rp->lp = NULL;
+  rp->len = 0;
+  rp->seek = 0;
   rp->offset = 0;
   rp->text = NULL;
   rp->text_size = 0;
@@ -874,6 +883,8 @@ dup_frame_node (const ed_frame_node_t *rp, ed_buffer_t *ed)
     }
   np->addr = rp->addr;
   np->lp = rp->lp;
+  np->len = rp->len;
+  np->seek = rp->seek;
   np->offset = rp->offset;
   np->text = rp->text;
   np->text_size = rp->text_size;
-- 
2.43.0


From 16212c8d49b50b3480bee49c5f324fc35804151a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:26:07 +0000
Subject: [PATCH 69/75] fix: scrolling back over the rest of a folded line
 drops text and reads outside it

---
 src/page.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/page.c b/src/page.c
index 407ff4b..10e1c9e 100644
--- a/src/page.c
+++ b/src/page.c
@@ -346,6 +346,7 @@ display_lines (off_t from, off_t to, ed_buffer_t *ed)
        * backward, then resume with truncated part at bottom of page.
        */
       else if (!(ed->display->io_f & ZFWD) && ed->display->overflow
+               && bp->q_forw == ep
                && fb->prev_first && IS_ROW_LINE (bp, fb->prev_first))
         {
           fb->rem_chars = fb->prev_first->offset;
-- 
2.43.0


From 56bd14fedd2998b9371af64e4c26e6ee45b28ac8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:33:38 +0000
Subject: [PATCH 70/75] fix: paging resumes a folded line that is not at the
 top of the page

---
 src/page.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/page.c b/src/page.c
index 10e1c9e..2e77c43 100644
--- a/src/page.c
+++ b/src/page.c
@@ -334,6 +334,7 @@ display_lines (off_t from, off_t to, ed_buffer_t *ed)
        * forward, then resume with truncated part at top of page.
        */
       if (!(ed->display->io_f & ZBWD) &&  ed->display->underflow
+          && !fb->row_i
           && fb->prev_last && IS_ROW_LINE (bp, fb->prev_last))
         {
           fb->row[fb->row_i]->offset = bp->len - fb->rem_chars;
-- 
2.43.0


From 8a2627a88e1a6f03c3c5afc30c3c8bc97863ae7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:39:45 +0000
Subject: [PATCH 71/75] fix: rows of folded lines get wrong offsets when paging
 backward

---
 src/page.c | 43 ++++++++++++-------------------------------
 1 file changed, 12 insertions(+), 31 deletions(-)

diff --git a/src/page.c b/src/page.c
index 2e77c43..c3e7226 100644
--- a/src/page.c
+++ b/src/page.c
@@ -19,7 +19,7 @@ static int init_frame_buffer (ed_frame_buffer_t *, ed_buffer_t *);
 static void init_frame_node (ed_frame_node_t *);
 static int put_frame_buffer_line (ed_line_node_t *, off_t,
                                   ed_frame_buffer_t *, ed_buffer_t *);
-static void inc_mod_fb_row (ed_line_node_t *, off_t, int,
+static void inc_mod_fb_row (ed_line_node_t *, off_t, size_t, int,
                             ed_frame_buffer_t *, ed_buffer_t *);
 
 #endif
@@ -516,7 +516,7 @@ put_frame_buffer_line (ed_line_node_t *lp, off_t addr,
 
   off_t n;
   char line_no[OFF_T_LEN + TAB_WIDTH + 1];
-  char *cp, *s;
+  char *cp, *s, *txt;
   size_t col = 0;
   size_t len;
   unsigned int sgr_len = 0;     /* Length of ANSI SGR sequence. */
@@ -579,7 +579,7 @@ put_frame_buffer_line (ed_line_node_t *lp, off_t addr,
       col += GET_CHAR_WIDTH ('\t', lines_len);
     }
 
-  if (!(s = get_buffer_line (lp, ed)))
+  if (!(s = txt = get_buffer_line (lp, ed)))
     return ERR;
 
   if (ed->display->io_f & OFFB)
@@ -632,7 +632,8 @@ put_frame_buffer_line (ed_line_node_t *lp, off_t addr,
            * line -- indented to the current column.
            */
           if ((form_feed = (*s == '\f')))
-            inc_mod_fb_row (lp, addr, ed->display->io_f & ZBWD, fb, ed);
+            inc_mod_fb_row (lp, addr, s - txt + 1, ed->display->io_f & ZBWD,
+                            fb, ed);
         }
       else
         {
@@ -677,7 +678,9 @@ put_frame_buffer_line (ed_line_node_t *lp, off_t addr,
           if (ed->display->io_f & LIST)
             FB_PUTS (ed->exec->opt & (POSIXLY_CORRECT | TRADITIONAL)
                      ? "" : "\\\n", fb, ed);
-          inc_mod_fb_row (lp, addr, ed->display->io_f & ZBWD, fb, ed);
+          inc_mod_fb_row (lp, addr, s - txt
+                          + (is_utf8 ? utf8_char_size (s, fb->rem_chars) : 1),
+                          ed->display->io_f & ZBWD, fb, ed);
           col = 0;
         }
 
@@ -769,37 +772,15 @@ display_frame_buffer (const ed_frame_buffer_t *fb, ed_buffer_t *ed)
 }
 
 
-/* inc_mod_fb_row: Increment fb->row_i and calculate text offset. */
+/* inc_mod_fb_row: Increment fb->row_i and set text offset. */
 static void
-inc_mod_fb_row (ed_line_node_t *lp, off_t addr, int ok_to_wrap,
-                ed_frame_buffer_t *fb, ed_buffer_t *ed)
+inc_mod_fb_row (ed_line_node_t *lp, off_t addr, size_t offset,
+                int ok_to_wrap, ed_frame_buffer_t *fb, ed_buffer_t *ed)
 {
-  size_t offset = 0;
-
   INC_FB_ROW (ok_to_wrap, fb);
 
   if (!fb->is_full)
-    {
-      if (fb->prev_first && IS_ROW_LINE (lp, fb->prev_first))
-        {
-          /* XXX: See tests zb[12].tso. */
-          offset = (ok_to_wrap ? fb->prev_first->offset : lp->len);
-          if (offset < fb->rem_chars - 1)
-            offset = lp->len - fb->rem_chars + 1;
-          else
-            offset -= fb->rem_chars - 1;
-        }
-      else
-        {
-          /* XXX: See tests zb[34].tso. */
-          offset = (ok_to_wrap && fb->prev_first ? fb->prev_first->offset
-                    : lp->len - fb->rem_chars + 1);
-          if (offset < fb->rem_chars - 1)
-            offset = lp->len - fb->rem_chars + 1;
-        }
-
-      INIT_FB_ROW (lp, addr, offset, fb);
-    }
+    INIT_FB_ROW (lp, addr, offset, fb);
 }
 
 
-- 
2.43.0


From c2df2328d62a143919fe5c21efcdd5fc9ec6e596 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:56:33 +0000
Subject: [PATCH 72/75] fix: paging after a listed page of UTF-8 text hangs or
 reads outside the line

---
 src/page.c | 10 ----------
 1 file changed, 10 deletions(-)

diff --git a/src/page.c b/src/page.c
index c3e7226..e2969d1 100644
--- a/src/page.c
+++ b/src/page.c
@@ -585,16 +585,6 @@ put_frame_buffer_line (ed_line_node_t *lp, off_t addr,
   if (ed->display->io_f & OFFB)
     s += fb->row[fb->row_i]->offset;
 
-  if (ed->display->overflow && fb->prev_first
-      && IS_ROW_LINE (lp, fb->prev_first) && is_utf8)
-
-    /*
-     * XXX: For multibyte streams, adjust fb->rem_chars upward.
-     * See test zb7.tso.
-     */
-    while (utf8_strlen (s, fb->rem_chars) == ERR)
-      ++fb->rem_chars;
-
   /* Offset of paged line if form feed (\f) is split across pages. */
   for (; fb->ff_offset; --fb->ff_offset)
     if (fb_putc (' ', fb, ed) < 0)
-- 
2.43.0


From 3b337553af7f82fd63866c6d5960814aafd36ace Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:39:22 +0000
Subject: [PATCH 73/75] fix: line numbers of script errors are wrong after
 macros and G or V commands

---
 src/cmds.c | 2 +-
 src/ed.h   | 7 +++++++
 src/glbl.c | 3 ++-
 src/io.c   | 2 +-
 4 files changed, 11 insertions(+), 3 deletions(-)

diff --git a/src/cmds.c b/src/cmds.c
index eed06a8..407749a 100644
--- a/src/cmds.c
+++ b/src/cmds.c
@@ -44,7 +44,7 @@ append_lines (off_t after, ed_buffer_t *ed)
               clearerr (stdin);
               return ERR;
             }
-          ++ed->exec->line_no;
+          COUNT_LINE (ed);
         }
       else if (*ed->input == '\0')
         return 0;
diff --git a/src/ed.h b/src/ed.h
index 9307bf6..521621d 100644
--- a/src/ed.h
+++ b/src/ed.h
@@ -926,6 +926,13 @@ int get_marked_node_address (int, off_t *, ed_buffer_t *);
 int get_matching_node_address (const regex_t *, int, off_t *, ed_buffer_t *);
 size_t get_path_max (const char *);
 #define get_stdin_line(len, ed) get_stream_line (stdin, len, ed)
+
+/* COUNT_LINE: Count line read from script, unless it is of a macro. */
+#ifdef WANT_ED_MACRO
+# define COUNT_LINE(ed) ((ed)->exec->line_no += !(ed)->core->sp)
+#else
+# define COUNT_LINE(ed) (++(ed)->exec->line_no)
+#endif
 char *get_stream_line (FILE *, size_t *, ed_buffer_t *);
 
 #ifdef WANT_ED_ENCRYPTION
diff --git a/src/glbl.c b/src/glbl.c
index e954d0d..0817cab 100644
--- a/src/glbl.c
+++ b/src/glbl.c
@@ -111,7 +111,8 @@ exec_global (ed_buffer_t *ed)
             return status;
           else if (!(ed->input = get_stdin_line (&len, ed))
                    || *(ed->input + len - 1) != '\n'
-                   || !(ed->input = get_extended_line (&len, 0, 1, ed)))
+                   || (COUNT_LINE (ed),
+                       !(ed->input = get_extended_line (&len, 0, 1, ed))))
             {
               /* For an interactive global command, permit EOF to cancel. */
               status = feof (stdin) ? 0 : ERR;
diff --git a/src/io.c b/src/io.c
index f85eb6f..61567c2 100644
--- a/src/io.c
+++ b/src/io.c
@@ -534,7 +534,7 @@ get_extended_line (size_t *len, int nonl, int escape, ed_buffer_t *ed)
       REALLOC_THROW (xl, xl_size, *len + n + 1, NULL, ed);
       memcpy (xl + *len, ed->input, n);
       *len += n;
-      ++ed->exec->line_no;
+      COUNT_LINE (ed);
       p = trailing_escapes (xl, xl + *len - 1);
     }
   *len -= nonl;                 /* strip newline, if nonl */
-- 
2.43.0


From 080a3e82b63fe440c2d48920b1f363e9fea0f0c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:22:24 +0000
Subject: [PATCH 74/75] fix: a change of window size during z could page past
 the end of the buffer

The display height is volatile, and min() and max() evaluate it twice.
---
 src/exec.c | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/src/exec.c b/src/exec.c
index 86723f1..d3d8ce1 100644
--- a/src/exec.c
+++ b/src/exec.c
@@ -1569,6 +1569,7 @@ Z_cmd (ed_buffer_t *ed)
   size_t len = 0;
   off_t addr = 0;
   int c = *(ed->input - 1);
+  int rows;                     /* Display height. */
   int status = 0;               /* Return status */
 
   /* scroll backward */
@@ -1617,8 +1618,10 @@ Z_cmd (ed_buffer_t *ed)
    * page. Otherwise, display page preceding current address.
    */
   ed->display->io_f |= ZBWD;
-  return display_lines (max (1, (off_t) ed->exec->region->end -
-                             ed->display->ws_row + 2),
+
+  /* Read display height once, since SIGWINCH may change it. */
+  rows = ed->display->ws_row;
+  return display_lines (max (1, (off_t) ed->exec->region->end - rows + 2),
                         ed->exec->region->end, ed);
 }
 
@@ -1628,6 +1631,7 @@ z_cmd (ed_buffer_t *ed)
   off_t addr = 0;
   size_t len = 0;
   int c = *(ed->input - 1);
+  int rows;                     /* Display height. */
   int status = 0;               /* Return status */
 
   /* scroll forward */
@@ -1668,6 +1672,9 @@ z_cmd (ed_buffer_t *ed)
   COMMAND_SUFFIX (ed->display->io_f, ed);
   ++ed->display->paging;
 
+  /* Read display height once, since SIGWINCH may change it. */
+  rows = ed->display->ws_row;
+
   switch (c)
     {
     case 'z':
@@ -1683,8 +1690,7 @@ z_cmd (ed_buffer_t *ed)
        *
        *    addr = region->end + (ws_row - 1) - 1
        */
-      addr = min (ed->state->lines, (ed->exec->region->end +
-                                     ed->display->ws_row - 2));
+      addr = min (ed->state->lines, ed->exec->region->end + rows - 2);
       ed->display->io_f |= ZFWD;
       break;
     case '[':
@@ -1704,8 +1710,8 @@ z_cmd (ed_buffer_t *ed)
        * NB: In this case, region->end is displayed in the middle of
        *     the screen.
        */
-      addr = min (ed->state->lines, (ed->exec->region->end +
-                                     ((ed->display->ws_row - 1) >> 1) - 1));
+      addr = min (ed->state->lines,
+                  ed->exec->region->end + ((rows - 1) >> 1) - 1);
       ed->display->io_f |= ZFWD | ZHFW;
       break;
     }
-- 
2.43.0


From 3d57a7076cab6cc14a80edab82f7ef11c76f454b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:22:24 +0000
Subject: [PATCH 75/75] fix: environment variable ED of nothing but blanks
 crashes

---
 src/main.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/main.c b/src/main.c
index 63ae421..41c0e9f 100644
--- a/src/main.c
+++ b/src/main.c
@@ -699,6 +699,10 @@ getenv_init_argv (const char *s, int *argc, ed_buffer_t *ed)
                          (*argc + 2) * sizeof (char *), NULL, ed);
           *((char **) argv + ++*argc) = v;
         }
+
+      /* Nothing but separators. */
+      if (!*argc)
+        return NULL;
       *((char **) argv + ++*argc) = NULL;
       *((char **) argv) = (char *) s;
     }
-- 
2.43.0

