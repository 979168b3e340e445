From 5a43884e5a419944e0b4bbd7ef3f62e8f771f1c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:57:57 +0000
Subject: [PATCH 01/61] fix: close the pipes of a command that could not be
 started

When fork or the second pipe failed, the pipes already made stayed open
for the rest of the process.
---
 src/platform/posix/run_cmd.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/platform/posix/run_cmd.c b/src/platform/posix/run_cmd.c
index 195a63e..28f9b64 100644
--- a/src/platform/posix/run_cmd.c
+++ b/src/platform/posix/run_cmd.c
@@ -254,6 +254,7 @@ run_cmd_internal(struct run_cmd_ctx *ctx, const char *_cmd, char *const *argv, c
 	}
 
 	if ((ctx->pid = fork()) == -1) {
+		ctx->err_msg = "failed to fork";
 		goto err;
 	} else if (ctx->pid == 0 /* child */) {
 		if (ctx->chdir) {
@@ -333,6 +334,11 @@ run_cmd_internal(struct run_cmd_ctx *ctx, const char *_cmd, char *const *argv, c
 
 	return run_cmd_collect(ctx) == run_cmd_finished;
 err:
+	sbuf_destroy(&cmd);
+	run_cmd_ctx_close_fds(ctx);
+	if (!ctx->err_msg) {
+		ctx->err_msg = "failed to prepare command";
+	}
 	return false;
 }
 
-- 
2.43.0


From fb55c594d79b57c96e2e862f7cc80d1bc8216a00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:57:57 +0000
Subject: [PATCH 02/61] fix: do not flush inherited stdio buffers when a
 command cannot be executed

The forked child shares the parent's buffered output and log files;
exit() wrote them a second time.
---
 src/platform/posix/run_cmd.c | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/platform/posix/run_cmd.c b/src/platform/posix/run_cmd.c
index 28f9b64..da654a6 100644
--- a/src/platform/posix/run_cmd.c
+++ b/src/platform/posix/run_cmd.c
@@ -260,25 +260,25 @@ run_cmd_internal(struct run_cmd_ctx *ctx, const char *_cmd, char *const *argv, c
 		if (ctx->chdir) {
 			if (chdir(ctx->chdir) == -1) {
 				LOG_E("failed to chdir to %s: %s", ctx->chdir, strerror(errno));
-				exit(1);
+				_exit(1);
 			}
 		}
 
 		if (ctx->stdin_path) {
 			if (dup2(ctx->input_fd, 0) == -1) {
 				LOG_E("failed to dup stdin: %s", strerror(errno));
-				exit(1);
+				_exit(1);
 			}
 		}
 
 		if (!(ctx->flags & run_cmd_ctx_flag_dont_capture)) {
 			if (dup2(ctx->pipefd_out[1], 1) == -1) {
 				LOG_E("failed to dup stdout: %s", strerror(errno));
-				exit(1);
+				_exit(1);
 			}
 			if (dup2(ctx->pipefd_err[1], 2) == -1) {
 				LOG_E("failed to dup stderr: %s", strerror(errno));
-				exit(1);
+				_exit(1);
 			}
 		}
 
@@ -295,7 +295,7 @@ run_cmd_internal(struct run_cmd_ctx *ctx, const char *_cmd, char *const *argv, c
 						if ((err = setenv(k, p + 1, 1)) != 0) {
 							LOG_E("failed to set environment var %s='%s': %s",
 								k, p + 1, strerror(err));
-							exit(1);
+							_exit(1);
 						}
 						k = NULL;
 
@@ -309,7 +309,7 @@ run_cmd_internal(struct run_cmd_ctx *ctx, const char *_cmd, char *const *argv, c
 
 		if (execve(cmd.buf, (char *const *)argv, environ) == -1) {
 			LOG_E("%s: %s", cmd.buf, strerror(errno));
-			exit(1);
+			_exit(1);
 		}
 
 		abort();
-- 
2.43.0


From b263b3fdcb9721d0518d65bbe9e291bb4fa78729 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:57:57 +0000
Subject: [PATCH 03/61] fix: do not pass the read end of a command's pipes on
 to commands

Each command inherited the read ends of its own pipes and of those of
every command running next to it, so that once muon was gone they
blocked forever on a full pipe instead of being told.
---
 src/platform/posix/run_cmd.c | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/platform/posix/run_cmd.c b/src/platform/posix/run_cmd.c
index da654a6..d746d97 100644
--- a/src/platform/posix/run_cmd.c
+++ b/src/platform/posix/run_cmd.c
@@ -185,6 +185,15 @@ open_run_cmd_pipe(int fds[2], bool fds_open[2])
 		return false;
 	}
 
+	/* Only the parent reads.  A child that also held a read end (its own or
+	 * that of a concurrent command) would keep writers blocked instead of
+	 * failing when the parent goes away.
+	 */
+	if (fcntl(fds[0], F_SETFD, FD_CLOEXEC) == -1) {
+		LOG_E("failed to set pipe flag FD_CLOEXEC: %s", strerror(errno));
+		return false;
+	}
+
 	return true;
 }
 
-- 
2.43.0


From 86b4ec69bf02dabdf9d930512cecaaad54005b39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:57:57 +0000
Subject: [PATCH 04/61] fix: do not close a file twice when closing it fails

---
 src/platform/filesystem.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/platform/filesystem.c b/src/platform/filesystem.c
index defa686..08024fb 100644
--- a/src/platform/filesystem.c
+++ b/src/platform/filesystem.c
@@ -231,6 +231,7 @@ fs_read_entire_file(const char *path, struct source *src)
 	}
 
 	if (opened) {
+		opened = false;
 		if (!fs_fclose(f)) {
 			goto err;
 		}
-- 
2.43.0


From 8012d7236c9552fd76040fe1a343d0c2198667a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:57:58 +0000
Subject: [PATCH 05/61] fix: invalidate the build log record of a missing
 output before rebuilding it

When the job is then killed half way, or the build is, the old record
would vouch for the partial output and the next build would take it as
up to date.
---
 include/external/samurai/log.h |  2 ++
 src/external/samurai/build.c   |  4 ++++
 src/external/samurai/log.c     | 11 +++++++++++
 3 files changed, 17 insertions(+)

diff --git a/include/external/samurai/log.h b/include/external/samurai/log.h
index 917d295..1038adc 100644
--- a/include/external/samurai/log.h
+++ b/include/external/samurai/log.h
@@ -12,5 +12,7 @@ struct samu_node;
 void samu_loginit(struct samu_ctx *ctx, const char *);
 void samu_logclose(struct samu_ctx *ctx);
 void samu_logrecord(struct samu_ctx *ctx, struct samu_node *);
+/* durably mark a node as not built */
+void samu_loginvalidate(struct samu_ctx *ctx, struct samu_node *);
 
 #endif
diff --git a/src/external/samurai/build.c b/src/external/samurai/build.c
index fdd9089..313a943 100644
--- a/src/external/samurai/build.c
+++ b/src/external/samurai/build.c
@@ -274,6 +274,10 @@ samu_jobstart(struct samu_ctx *ctx, struct samu_job *j, struct samu_edge *e)
 		if (n->mtime == SAMU_MTIME_MISSING) {
 			if (samu_makedirs(n->path, true) < 0)
 				return false;
+			/* the record of a previous run must not vouch for what
+			 * this one leaves behind if it does not finish */
+			if (n->hash)
+				samu_loginvalidate(ctx, n);
 		}
 	}
 
diff --git a/src/external/samurai/log.c b/src/external/samurai/log.c
index 5227a79..ffad9ce 100644
--- a/src/external/samurai/log.c
+++ b/src/external/samurai/log.c
@@ -206,3 +206,14 @@ samu_logrecord(struct samu_ctx *ctx, struct samu_node *n)
 {
 	fprintf(ctx->log.logfile, "0\t0\t%" PRId64 "\t%s\t%" PRIx64 "\n", n->logmtime, n->path->s, n->hash);
 }
+
+void
+samu_loginvalidate(struct samu_ctx *ctx, struct samu_node *n)
+{
+	n->logmtime = 0;
+	n->hash = 0;
+	samu_logrecord(ctx, n);
+	if (fflush(ctx->log.logfile) != 0) {
+		samu_fatal("build log write failed");
+	}
+}
-- 
2.43.0


From 3bf56b1a8fdc4e17bbec0cd3fac652feb0ada1f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:57:58 +0000
Subject: [PATCH 06/61] fix: keep an entry for every node ID of the deps log

A node that got its ID in this run had no entry of its own, or a stale
one.  Also reject a path record that is all padding.
---
 src/external/samurai/deps.c | 29 ++++++++++++++++++++---------
 1 file changed, 20 insertions(+), 9 deletions(-)

diff --git a/src/external/samurai/deps.c b/src/external/samurai/deps.c
index 27adbd5..b540567 100644
--- a/src/external/samurai/deps.c
+++ b/src/external/samurai/deps.c
@@ -64,6 +64,19 @@ samu_depswrite(struct samu_ctx *ctx, const void *p, size_t n, size_t m)
 	}
 }
 
+/* the entry of a node that has just been given the next ID */
+static void
+samu_addentry(struct samu_ctx *ctx, struct samu_node *n)
+{
+	if (ctx->deps.entrieslen >= ctx->deps.entriescap) {
+		size_t newcap = ctx->deps.entriescap ? ctx->deps.entriescap * 2 : 1024;
+		ctx->deps.entries = samu_xreallocarray(&ctx->arena, ctx->deps.entries, ctx->deps.entriescap, newcap, sizeof(ctx->deps.entries[0]));
+		ctx->deps.entriescap = newcap;
+	}
+	n->id = ctx->deps.entrieslen;
+	ctx->deps.entries[ctx->deps.entrieslen++] = (struct samu_entry){ .node = n };
+}
+
 static bool
 samu_recordid(struct samu_ctx *ctx, struct samu_node *n)
 {
@@ -75,7 +88,7 @@ samu_recordid(struct samu_ctx *ctx, struct samu_node *n)
 	if (ctx->deps.entrieslen == INT32_MAX) {
 		samu_fatal("too many nodes");
 	}
-	n->id = ctx->deps.entrieslen++;
+	samu_addentry(ctx, n);
 	sz = (n->path->n + 7) & ~3;
 	if (sz + 4 >= SAMU_MAX_RECORD_SIZE) {
 		samu_fatal("ID record too large");
@@ -269,21 +282,19 @@ samu_depsinit(struct samu_ctx *ctx, const char *builddir)
 				goto rewrite;
 			}
 			len = sz - 4;
-			while (((char *)buf)[len - 1] == '\0') {
+			while (len > 0 && ((char *)buf)[len - 1] == '\0') {
 				--len;
 			}
+			if (len == 0) {
+				samu_warn("invalid node path in deps log");
+				goto rewrite;
+			}
 			path = samu_mkstr(&ctx->arena, len);
 			memcpy(path->s, buf, len);
 			path->s[len] = '\0';
 
 			n = samu_mknode(ctx, path);
-			if (ctx->deps.entrieslen >= ctx->deps.entriescap) {
-				size_t newcap = ctx->deps.entriescap ? ctx->deps.entriescap * 2 : 1024;
-				ctx->deps.entries = samu_xreallocarray(&ctx->arena, ctx->deps.entries, ctx->deps.entriescap, newcap, sizeof(ctx->deps.entries[0]));
-				ctx->deps.entriescap = newcap;
-			}
-			n->id = ctx->deps.entrieslen;
-			ctx->deps.entries[ctx->deps.entrieslen++] = (struct samu_entry){ .node = n };
+			samu_addentry(ctx, n);
 		}
 	}
 
-- 
2.43.0


From 4f678273669e417a7961640e15abd32bba5c50ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:57:58 +0000
Subject: [PATCH 07/61] fix: keep deps log records without dependencies,
 validate before use

A record of no dependencies was dropped when the log was rewritten, which
made its job run again in every build.  A record with invalid IDs was
used half filled in.
---
 include/external/samurai/ctx.h |  1 +
 src/external/samurai/deps.c    | 12 ++++++++----
 2 files changed, 9 insertions(+), 4 deletions(-)

diff --git a/include/external/samurai/ctx.h b/include/external/samurai/ctx.h
index 57925c6..df3c8fa 100644
--- a/include/external/samurai/ctx.h
+++ b/include/external/samurai/ctx.h
@@ -133,6 +133,7 @@ struct samu_entry {
 	struct samu_node *node;
 	struct samu_nodearray deps;
 	int64_t mtime;
+	bool recorded;
 };
 
 struct samu_rule {
diff --git a/src/external/samurai/deps.c b/src/external/samurai/deps.c
index b540567..290e060 100644
--- a/src/external/samurai/deps.c
+++ b/src/external/samurai/deps.c
@@ -258,15 +258,18 @@ samu_depsinit(struct samu_ctx *ctx, const char *builddir)
 				continue;
 			}
 			sz /= 4;
-			entry->deps.len = sz;
-			entry->deps.node = samu_xreallocarray(&ctx->arena, NULL, 0, sz, sizeof(n));
 			for (i = 0; i < sz; ++i) {
 				id = buf[3 + i];
 				if (id >= ctx->deps.entrieslen) {
 					samu_warn("invalid node ID: %" PRIu32, id);
 					goto rewrite;
 				}
-				entry->deps.node[i] = ctx->deps.entries[id].node;
+			}
+			entry->recorded = true;
+			entry->deps.len = sz;
+			entry->deps.node = samu_xreallocarray(&ctx->arena, NULL, 0, sz, sizeof(n));
+			for (i = 0; i < sz; ++i) {
+				entry->deps.node[i] = ctx->deps.entries[buf[3 + i]].node;
 			}
 		} else {
 			if (sz <= 4) {
@@ -322,7 +325,8 @@ rewrite:
 	ctx->deps.entrieslen = 0;
 	for (i = 0; i < len; ++i) {
 		entry = &oldentries[i];
-		if (!entry->deps.len) {
+		/* a record with no dependencies is still a record */
+		if (!entry->recorded) {
 			continue;
 		}
 		samu_recordid(ctx, entry->node);
-- 
2.43.0


From 4bcf3c6a029f1031b63bd12485a55ac76b6f5619 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:57:58 +0000
Subject: [PATCH 08/61] fix: do not rerun an edge because an order-only input
 was rebuilt

restat pruning treated a rebuilt order-only input as a changed input.
---
 src/external/samurai/build.c | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/src/external/samurai/build.c b/src/external/samurai/build.c
index 313a943..f5f7d68 100644
--- a/src/external/samurai/build.c
+++ b/src/external/samurai/build.c
@@ -323,18 +323,34 @@ samu_jobstart(struct samu_ctx *ctx, struct samu_job *j, struct samu_edge *e)
 	return true;
 }
 
+/* returns whether n is only an order-only input of e */
+static bool
+samu_isorderonly(struct samu_edge *e, struct samu_node *n)
+{
+	size_t i;
+
+	for (i = 0; i < e->inorderidx; ++i) {
+		if (e->in[i] == n)
+			return false;
+	}
+	return true;
+}
+
 static void
 samu_nodedone(struct samu_ctx *ctx, struct samu_node *n, bool prune)
 {
 	struct samu_edge *e;
 	size_t i, j;
+	bool unchanged;
 
 	for (i = 0; i < n->nuse; ++i) {
 		e = n->use[i];
 		/* skip edges not used in this build */
 		if (!(e->flags & FLAG_WORK))
 			continue;
-		if (!(e->flags & (prune ? FLAG_DIRTY_OUT : FLAG_DIRTY)) && --e->nprune == 0) {
+		/* a rebuilt order-only input is no reason to run an edge */
+		unchanged = prune || ((e->flags & FLAG_DIRTY) == FLAG_DIRTY_IN && samu_isorderonly(e, n));
+		if (!(e->flags & (unchanged ? FLAG_DIRTY_OUT : FLAG_DIRTY)) && --e->nprune == 0) {
 			/* either edge was clean (possible with order-only
 			 * inputs), or all its blocking inputs were pruned, so
 			 * its outputs can be pruned as well */
-- 
2.43.0


From 6a00c6806d1378c62fc2c1e69bbf0b699a4d4833 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:57:58 +0000
Subject: [PATCH 09/61] fix: let a phony node that is no file stand for its
 inputs

The newest input of an edge was determined without looking through phony
inputs, so that an output older than a file behind an alias was left
alone when its job had failed or been interrupted before.
---
 src/external/samurai/build.c | 28 +++++++++++++++++++++++++---
 1 file changed, 25 insertions(+), 3 deletions(-)

diff --git a/src/external/samurai/build.c b/src/external/samurai/build.c
index f5f7d68..dfe58f4 100644
--- a/src/external/samurai/build.c
+++ b/src/external/samurai/build.c
@@ -153,6 +153,11 @@ samu_buildadd(struct samu_ctx *ctx, struct samu_node *n)
 		if (n->dirty || (n->gen && n->gen->nblock > 0))
 			++e->nblock;
 	}
+	/* a phony node that is not a file stands for its inputs */
+	for (i = 0; newest && e->rule == &ctx->phonyrule && i < e->nout; ++i) {
+		if (e->out[i]->mtime == SAMU_MTIME_MISSING)
+			e->out[i]->mtime = newest->mtime;
+	}
 	/* all outputs are dirty if any are older than the newest input */
 	generator = samu_edgevar(ctx, e, "generator", true);
 	restat = samu_edgevar(ctx, e, "restat", true);
@@ -364,8 +369,25 @@ samu_nodedone(struct samu_ctx *ctx, struct samu_node *n, bool prune)
 	}
 }
 
+static void
+samu_inputstat(struct samu_ctx *ctx, struct samu_node *n)
+{
+	struct samu_node *in;
+	size_t i;
+
+	samu_nodestat(n);
+	if (n->mtime != SAMU_MTIME_MISSING || !n->gen || n->gen->rule != &ctx->phonyrule)
+		return;
+	for (i = 0; i < n->gen->inorderidx; ++i) {
+		in = n->gen->in[i];
+		samu_inputstat(ctx, in);
+		if (in->mtime != SAMU_MTIME_MISSING && in->mtime > n->mtime)
+			n->mtime = in->mtime;
+	}
+}
+
 static bool
-samu_shouldprune(struct samu_edge *e, struct samu_node *n, int64_t old)
+samu_shouldprune(struct samu_ctx *ctx, struct samu_edge *e, struct samu_node *n, int64_t old)
 {
 	struct samu_node *in, *newest;
 	size_t i;
@@ -375,7 +397,7 @@ samu_shouldprune(struct samu_edge *e, struct samu_node *n, int64_t old)
 	newest = NULL;
 	for (i = 0; i < e->inorderidx; ++i) {
 		in = e->in[i];
-		samu_nodestat(in);
+		samu_inputstat(ctx, in);
 		if (in->mtime != SAMU_MTIME_MISSING && !samu_isnewer(newest, in))
 			newest = in;
 	}
@@ -400,7 +422,7 @@ samu_edgedone(struct samu_ctx *ctx, struct samu_edge *e)
 		old = n->mtime;
 		samu_nodestat(n);
 		n->logmtime = n->mtime == SAMU_MTIME_MISSING ? 0 : n->mtime;
-		samu_nodedone(ctx, n, restat && samu_shouldprune(e, n, old));
+		samu_nodedone(ctx, n, restat && samu_shouldprune(ctx, e, n, old));
 	}
 	rspfile = samu_edgevar(ctx, e, "rspfile", false);
 	if (rspfile && !ctx->buildopts.keeprsp)
-- 
2.43.0


From b2d2679b3de9e2df6e57254c990d4e288f6579ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:57:58 +0000
Subject: [PATCH 10/61] fix: record that a restat job saw the dependencies it
 has discovered

A job that left its output in place was started in every build when a
dependency it discovered was newer than the output.
---
 include/external/samurai/deps.h |  2 +-
 src/external/samurai/build.c    | 13 +++++++++++--
 src/external/samurai/deps.c     | 17 ++++++++++++-----
 3 files changed, 24 insertions(+), 8 deletions(-)

diff --git a/include/external/samurai/deps.h b/include/external/samurai/deps.h
index 577aba4..d621f72 100644
--- a/include/external/samurai/deps.h
+++ b/include/external/samurai/deps.h
@@ -12,6 +12,6 @@ struct samu_edge;
 void samu_depsinit(struct samu_ctx *ctx, const char *builddir);
 void samu_depsclose(struct samu_ctx *ctx);
 void samu_depsload(struct samu_ctx *ctx, struct samu_edge *e);
-void samu_depsrecord(struct samu_ctx *ctx, struct samu_edge *e);
+struct samu_nodearray *samu_depsrecord(struct samu_ctx *ctx, struct samu_edge *e);
 
 #endif
diff --git a/src/external/samurai/build.c b/src/external/samurai/build.c
index dfe58f4..fd8d100 100644
--- a/src/external/samurai/build.c
+++ b/src/external/samurai/build.c
@@ -411,7 +411,8 @@ static void
 samu_edgedone(struct samu_ctx *ctx, struct samu_edge *e)
 {
 	struct samu_node *n;
-	size_t i;
+	struct samu_nodearray *deps;
+	size_t i, j;
 	struct samu_string *rspfile;
 	bool restat;
 	int64_t old;
@@ -428,9 +429,17 @@ samu_edgedone(struct samu_ctx *ctx, struct samu_edge *e)
 	if (rspfile && !ctx->buildopts.keeprsp)
 		fs_remove(rspfile->s);
 	samu_edgehash(ctx, e);
-	samu_depsrecord(ctx, e);
+	deps = samu_depsrecord(ctx, e);
 	for (i = 0; i < e->nout; ++i) {
 		n = e->out[i];
+		/* the job also saw the dependencies it has just discovered, even
+		 * if it left an older output in place */
+		for (j = 0; restat && deps && j < deps->len; ++j) {
+			if (deps->node[j]->mtime == SAMU_MTIME_UNKNOWN)
+				samu_nodestat(deps->node[j]);
+			if (deps->node[j]->mtime > n->logmtime)
+				n->logmtime = deps->node[j]->mtime;
+		}
 		n->hash = e->hash;
 		samu_logrecord(ctx, n);
 	}
diff --git a/src/external/samurai/deps.c b/src/external/samurai/deps.c
index 290e060..37be57a 100644
--- a/src/external/samurai/deps.c
+++ b/src/external/samurai/deps.c
@@ -526,7 +526,7 @@ samu_depsload(struct samu_ctx *ctx, struct samu_edge *e)
 	}
 }
 
-void
+struct samu_nodearray *
 samu_depsrecord(struct samu_ctx *ctx, struct samu_edge *e)
 {
 	struct samu_string *deptype, *depfile;
@@ -538,16 +538,21 @@ samu_depsrecord(struct samu_ctx *ctx, struct samu_edge *e)
 
 	deptype = samu_edgevar(ctx, e, "deps", true);
 	if (!deptype || deptype->n == 0) {
-		return;
+		/* nothing to record, the depfile itself is kept */
+		depfile = samu_edgevar(ctx, e, "depfile", false);
+		if (!depfile || !samu_edgevar(ctx, e, "restat", true)) {
+			return NULL;
+		}
+		return samu_depsparse(ctx, depfile->s, true);
 	}
 	if (strcmp(deptype->s, "gcc") != 0) {
 		samu_warn("unsuported deps type: %s", deptype->s);
-		return;
+		return NULL;
 	}
 	depfile = samu_edgevar(ctx, e, "depfile", false);
 	if (!depfile || depfile->n == 0) {
 		samu_warn("deps but no depfile");
-		return;
+		return NULL;
 	}
 	out = e->out[0];
 	deps = samu_depsparse(ctx, depfile->s, true);
@@ -555,7 +560,7 @@ samu_depsrecord(struct samu_ctx *ctx, struct samu_edge *e)
 		fs_remove(depfile->s);
 	}
 	if (!deps) {
-		return;
+		return NULL;
 	}
 	update = false;
 	entry = NULL;
@@ -584,4 +589,6 @@ samu_depsrecord(struct samu_ctx *ctx, struct samu_edge *e)
 			samu_fatal("deps log flush:");
 		}
 	}
+
+	return deps;
 }
-- 
2.43.0


From 9a1da0d2667923ca971a7af008a9c610b5002a5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:57:58 +0000
Subject: [PATCH 11/61] fix: keep the output of jobs intact next to a job that
 uses the console

Output of jobs finishing while a console job ran was dropped, and
buffered output came after that of the console job it preceded.  Hold it
back until the console is free.  A job that fails to start gives its
place in the pool back.
---
 include/external/samurai/ctx.h |  1 +
 src/external/samurai/build.c   | 78 +++++++++++++++++++++++++---------
 2 files changed, 59 insertions(+), 20 deletions(-)

diff --git a/include/external/samurai/ctx.h b/include/external/samurai/ctx.h
index df3c8fa..ee25fd0 100644
--- a/include/external/samurai/ctx.h
+++ b/include/external/samurai/ctx.h
@@ -153,6 +153,7 @@ struct samu_build_ctx {
 	struct samu_edge *work;
 	size_t nstarted, nfinished, ntotal;
 	bool consoleused;
+	struct samu_buffer held; /* output held back while the console is used */
 	struct timer timer;
 };
 
diff --git a/src/external/samurai/build.c b/src/external/samurai/build.c
index fd8d100..2ba908c 100644
--- a/src/external/samurai/build.c
+++ b/src/external/samurai/build.c
@@ -252,6 +252,16 @@ samu_formatstatus(struct samu_ctx *ctx, char *buf, size_t len)
 	return ret;
 }
 
+/* keep output for when the job using the console is done */
+static void
+samu_hold(struct samu_ctx *ctx, const char *s, size_t len)
+{
+	size_t i;
+
+	for (i = 0; i < len; ++i)
+		samu_bufadd(&ctx->arena, &ctx->build.held, s[i]);
+}
+
 static void
 samu_printstatus(struct samu_ctx *ctx, struct samu_edge *e, struct samu_string *cmd)
 {
@@ -262,6 +272,12 @@ samu_printstatus(struct samu_ctx *ctx, struct samu_edge *e, struct samu_string *
 	if (!description || description->n == 0)
 		description = cmd;
 	samu_formatstatus(ctx, status, sizeof(status));
+	if (ctx->build.consoleused) {
+		samu_hold(ctx, status, strlen(status));
+		samu_hold(ctx, description->s, strlen(description->s));
+		samu_hold(ctx, "\n", 1);
+		return;
+	}
 	samu_puts_no_newline(ctx, status);
 	samu_puts(ctx, description->s);
 }
@@ -303,9 +319,13 @@ samu_jobstart(struct samu_ctx *ctx, struct samu_job *j, struct samu_edge *e)
 		j->cmd_ctx.flags |= run_cmd_ctx_flag_dont_capture;
 	}
 
-	if (!ctx->build.consoleused)
-		samu_printstatus(ctx, e, j->cmd);
+	samu_printstatus(ctx, e, j->cmd);
 
+	if (e->pool == &ctx->consolepool) {
+		/* the job writes to the same place directly */
+		fflush(stdout);
+		fflush(ctx->out);
+	}
 
 	bool cmd_started = false;
 	if (machine_system() == machine_system_windows) {
@@ -445,32 +465,23 @@ samu_edgedone(struct samu_ctx *ctx, struct samu_edge *e)
 	}
 }
 
+/* give the place of e in its pool to the next edge */
 static void
-samu_jobdone(struct samu_ctx *ctx, struct samu_job *j)
+samu_pooldone(struct samu_ctx *ctx, struct samu_edge *e)
 {
-	struct samu_edge *e, *new;
+	struct samu_edge *new;
 	struct samu_pool *p;
 
-	if (j->failed) {
-		samu_warn("job failed with status %d: %s", j->cmd_ctx.status, j->cmd->s);
-	}
-
-	++ctx->build.nfinished;
-	if (!ctx->build.consoleused || j->failed) {
-		if (j->cmd_ctx.out.len) {
-			fwrite(j->cmd_ctx.out.buf, 1, j->cmd_ctx.out.len, stdout);
-		}
-
-		if (j->cmd_ctx.err.len) {
-			fwrite(j->cmd_ctx.err.buf, 1, j->cmd_ctx.err.len, stdout);
-		}
-	}
-	e = j->edge;
 	if (e->pool) {
 		p = e->pool;
 
-		if (p == &ctx->consolepool)
+		if (p == &ctx->consolepool) {
 			ctx->build.consoleused = false;
+			if (ctx->build.held.len) {
+				fwrite(ctx->build.held.data, 1, ctx->build.held.len, stdout);
+				ctx->build.held.len = 0;
+			}
+		}
 		/* move edge from pool queue to main work queue */
 		if (p->work) {
 			new = p->work;
@@ -481,6 +492,32 @@ samu_jobdone(struct samu_ctx *ctx, struct samu_job *j)
 			--p->numjobs;
 		}
 	}
+}
+
+static void
+samu_jobdone(struct samu_ctx *ctx, struct samu_job *j)
+{
+	struct samu_edge *e;
+
+	if (j->failed) {
+		samu_warn("job failed with status %d: %s", j->cmd_ctx.status, j->cmd->s);
+	}
+
+	++ctx->build.nfinished;
+	if (!ctx->build.consoleused) {
+		if (j->cmd_ctx.out.len) {
+			fwrite(j->cmd_ctx.out.buf, 1, j->cmd_ctx.out.len, stdout);
+		}
+
+		if (j->cmd_ctx.err.len) {
+			fwrite(j->cmd_ctx.err.buf, 1, j->cmd_ctx.err.len, stdout);
+		}
+	} else {
+		samu_hold(ctx, j->cmd_ctx.out.buf, j->cmd_ctx.out.len);
+		samu_hold(ctx, j->cmd_ctx.err.buf, j->cmd_ctx.err.len);
+	}
+	e = j->edge;
+	samu_pooldone(ctx, e);
 	if (!j->failed)
 		samu_edgedone(ctx, e);
 }
@@ -529,6 +566,7 @@ samu_build(struct samu_ctx *ctx)
 
 			if (!samu_jobstart(ctx, &jobs[next], e)) {
 				samu_warn("job failed to start");
+				samu_pooldone(ctx, e);
 				++numfail;
 			} else {
 				jobs[next].running = true;
-- 
2.43.0


From a16dec6275c62d319e17537a9eeb759df5b5e3a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:28:42 +0000
Subject: [PATCH 12/61] fix: match test suites and setups against the project
 they belong to

The project name was only set after the tests had been selected, the index
only advanced for projects that ran tests, and a main project without tests
was not written, so unqualified names matched subprojects and qualified ones
the wrong project.
---
 src/backend/ninja.c |  8 +++++++-
 src/cmd_test.c      | 22 ++++++++++------------
 2 files changed, 17 insertions(+), 13 deletions(-)

diff --git a/src/backend/ninja.c b/src/backend/ninja.c
index 75b3071..d385b17 100644
--- a/src/backend/ninja.c
+++ b/src/backend/ninja.c
@@ -168,7 +168,9 @@ ninja_write_tests(struct workspace *wk, void *_ctx, FILE *out)
 			continue;
 		}
 
-		if (proj->tests && get_obj_array(wk, proj->tests)->len) {
+		// The main project is always written, and first: unqualified
+		// suite and setup names refer to it.
+		if (i == 0 || (proj->tests && get_obj_array(wk, proj->tests)->len)) {
 			if (!wrote_header) {
 				L("writing tests");
 				wrote_header = true;
@@ -184,6 +186,10 @@ ninja_write_tests(struct workspace *wk, void *_ctx, FILE *out)
 			obj arr;
 			make_obj(wk, &arr, obj_array);
 
+			if (!proj->tests) {
+				make_obj(wk, &proj->tests, obj_array);
+			}
+
 			obj_array_push(wk, arr, proj->tests);
 			obj_array_push(wk, arr, proj->test_setups);
 			obj_dict_set(wk, tests, key, arr);
diff --git a/src/cmd_test.c b/src/cmd_test.c
index e888651..020bbdd 100644
--- a/src/cmd_test.c
+++ b/src/cmd_test.c
@@ -52,7 +52,7 @@ struct run_test_ctx {
 	obj proj_name;
 	obj collected_tests;
 	obj deps;
-	uint32_t proj_i;
+	uint32_t proj_i, next_proj_i;
 	struct {
 		uint32_t test_i, test_len, error_count;
 		uint32_t total_count, total_error_count, total_expect_fail_count;
@@ -452,14 +452,12 @@ find_test_setup_project_iter(struct workspace *wk, void *_ctx, obj project_name,
 	obj setups;
 	obj_array_index(wk, arr, 1, &setups);
 
-	if (!setups) {
-		return ir_cont;
-	}
-
-	obj_array_foreach(wk, setups, ctx, find_test_setup_iter);
+	if (setups) {
+		obj_array_foreach(wk, setups, ctx, find_test_setup_iter);
 
-	if (ctx->found) {
-		return ir_done;
+		if (ctx->found) {
+			return ir_done;
+		}
 	}
 
 	++ctx->rtctx->proj_i;
@@ -838,6 +836,10 @@ run_project_tests(struct workspace *wk, void *_ctx, obj proj_name, obj arr)
 	struct run_test_ctx *ctx = _ctx;
 	make_obj(wk, &ctx->deps, obj_array);
 
+	// the first project is the main project
+	ctx->proj_name = proj_name;
+	ctx->proj_i = ctx->next_proj_i++;
+
 	ctx->stats.test_i = 0;
 	ctx->stats.error_count = 0;
 	ctx->stats.test_len = 0;
@@ -865,8 +867,6 @@ run_project_tests(struct workspace *wk, void *_ctx, obj proj_name, obj arr)
 
 	ctx->stats.ran_tests = true;
 
-	ctx->proj_name = proj_name;
-
 	if (!obj_array_foreach(wk, tests, ctx, run_test)) {
 		return ir_err;
 	}
@@ -882,8 +882,6 @@ run_project_tests(struct workspace *wk, void *_ctx, obj proj_name, obj arr)
 
 	log_plain("\n");
 
-	++ctx->proj_i;
-
 	return ir_cont;
 }
 
-- 
2.43.0


From f779be4a52ebefb073c6007ea6bd489870557281 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:30:22 +0000
Subject: [PATCH 13/61] fix: report passing tests that are marked should_fail
 as failed

---
 src/cmd_test.c | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/src/cmd_test.c b/src/cmd_test.c
index 020bbdd..b98478b 100644
--- a/src/cmd_test.c
+++ b/src/cmd_test.c
@@ -574,15 +574,16 @@ collect_tests(struct workspace *wk, struct run_test_ctx *ctx)
 				break;
 			}
 
-			if (status == test_result_status_failed && res->test->should_fail) {
-				status = test_result_status_ok;
-			}
-
-			if (status != test_result_status_failed) {
-				if (res->test->should_fail) {
+			if (res->test->should_fail) {
+				if (status == test_result_status_failed) {
+					status = test_result_status_ok;
 					++ctx->stats.total_expect_fail_count;
+				} else if (status == test_result_status_ok) {
+					status = test_result_status_failed;
 				}
+			}
 
+			if (status != test_result_status_failed) {
 				res->status = status;
 				run_cmd_ctx_destroy(&res->cmd_ctx);
 			} else {
-- 
2.43.0


From aa1d9edd9f6f17be5f49c3d0bbaed78149fb7e2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:30:34 +0000
Subject: [PATCH 14/61] fix: judge tap tests by plan, bail out, unexpected
 results and exit status

---
 src/cmd_test.c    |  5 +++--
 src/formats/tap.c | 17 ++++++++++-------
 2 files changed, 13 insertions(+), 9 deletions(-)

diff --git a/src/cmd_test.c b/src/cmd_test.c
index b98478b..5ed6d7a 100644
--- a/src/cmd_test.c
+++ b/src/cmd_test.c
@@ -501,7 +501,7 @@ check_test_result_tap(struct workspace *wk, struct run_test_ctx *ctx, struct tes
 	res->subtests.pass = tap_result.pass + tap_result.skip;
 	res->subtests.total = tap_result.total;
 
-	return tap_result.all_ok && res->status == 0 ? test_result_status_ok : test_result_status_failed;
+	return tap_result.all_ok && res->cmd_ctx.status == 0 ? test_result_status_ok : test_result_status_failed;
 }
 
 static enum test_result_status
@@ -655,7 +655,8 @@ found_slot:
 		},
 	};
 
-	if (ctx->opts->verbosity > 1) {
+	// the verdict of a tap test is in its output
+	if (ctx->opts->verbosity > 1 && test->protocol != test_protocol_tap) {
 		cmd_ctx->flags |= run_cmd_ctx_flag_dont_capture;
 	}
 
diff --git a/src/formats/tap.c b/src/formats/tap.c
index 328c23d..5ff0a56 100644
--- a/src/formats/tap.c
+++ b/src/formats/tap.c
@@ -60,13 +60,15 @@ tap_parse_line_cb(void *_ctx, char *line, size_t _)
 		}
 	}
 
-	if (directive == skip) {
-		++ctx->res->skip;
-		return ir_cont;
-	}
-
 	if (ok) {
-		++ctx->res->pass;
+		if (directive == skip) {
+			++ctx->res->skip;
+		} else if (directive == todo) {
+			// unexpected pass
+			++ctx->res->fail;
+		} else {
+			++ctx->res->pass;
+		}
 	} else {
 		if (directive == todo) {
 			++ctx->res->skip;
@@ -89,5 +91,6 @@ tap_parse(char *buf, uint64_t buf_len, struct tap_parse_result *res)
 		res->total = res->pass + res->skip + res->fail;
 	}
 
-	res->all_ok = res->total == res->pass + res->skip;
+	res->all_ok = !ctx.bail_out && !res->fail
+		      && res->total == res->pass + res->skip;
 }
-- 
2.43.0


From 58908d2fe58256e0531cd266858bbed35c0b6b74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:30:47 +0000
Subject: [PATCH 15/61] fix: start no further test and await the running ones
 when failing fast

---
 src/cmd_test.c | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/cmd_test.c b/src/cmd_test.c
index 5ed6d7a..a4010d2 100644
--- a/src/cmd_test.c
+++ b/src/cmd_test.c
@@ -637,6 +637,10 @@ push_test(struct workspace *wk, struct run_test_ctx *ctx, struct obj_test *test,
 cont:
 		timer_sleep(SLEEP_TIME);
 		collect_tests(wk, ctx);
+
+		if (ctx->opts->fail_fast && ctx->stats.total_error_count) {
+			return;
+		}
 	}
 found_slot:
 	++ctx->busy_jobs;
@@ -873,15 +877,16 @@ run_project_tests(struct workspace *wk, void *_ctx, obj proj_name, obj arr)
 		return ir_err;
 	}
 
-	if (ctx->opts->fail_fast && ctx->stats.total_error_count) {
-		return ir_done;
-	}
-
+	// even when failing fast, the tests that are still running are awaited
 	while (ctx->busy_jobs) {
 		timer_sleep(SLEEP_TIME);
 		collect_tests(wk, ctx);
 	}
 
+	if (ctx->opts->fail_fast && ctx->stats.total_error_count) {
+		return ir_done;
+	}
+
 	log_plain("\n");
 
 	return ir_cont;
-- 
2.43.0


From 219752e701eed384a91c2b4a4e911aa14eade1bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:30:47 +0000
Subject: [PATCH 16/61] fix: fail when what the tests need could not be rebuilt

---
 src/cmd_test.c | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/cmd_test.c b/src/cmd_test.c
index a4010d2..e153e7a 100644
--- a/src/cmd_test.c
+++ b/src/cmd_test.c
@@ -865,7 +865,9 @@ run_project_tests(struct workspace *wk, void *_ctx, obj proj_name, obj arr)
 		obj ninja_cmd;
 		obj_array_dedup(wk, ctx->deps, &ninja_cmd);
 		if (!ninja_run(wk, ninja_cmd, NULL, NULL)) {
-			LOG_W("failed to run ninja");
+			LOG_E("failed to build the dependencies of the %ss",
+				test_category_label(ctx->opts->cat));
+			return ir_err;
 		}
 	}
 
@@ -926,7 +928,10 @@ tests_run(struct test_options *opts, const char *argv0)
 		obj ninja_cmd;
 		make_obj(&wk, &ninja_cmd, obj_array);
 		obj_array_push(&wk, ninja_cmd, make_str(&wk, "build.ninja"));
-		ninja_run(&wk, ninja_cmd, NULL, NULL);
+		if (!ninja_run(&wk, ninja_cmd, NULL, NULL) && !opts->no_rebuild) {
+			LOG_E("failed to update build.ninja");
+			goto ret;
+		}
 	}
 
 	{
-- 
2.43.0


From 5029c64812f5b060aecb438e2e545feadc601431 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:32:41 +0000
Subject: [PATCH 17/61] fix: count the prepended argument in argstr_to_argv

---
 src/platform/run_cmd.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/platform/run_cmd.c b/src/platform/run_cmd.c
index 15b2e86..6579719 100644
--- a/src/platform/run_cmd.c
+++ b/src/platform/run_cmd.c
@@ -66,7 +66,7 @@ argstr_to_argv(const char *argstr, uint32_t argc, const char *prepend, char *con
 	argstr_pushall(argstr, argc, new_argv, &argi, max);
 
 	*res = (char *const *)new_argv;
-	return argc;
+	return argi;
 }
 
 static bool
-- 
2.43.0


From a5ae034aaf6e1d52ee5212d7eeef9ba9e85037ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:32:41 +0000
Subject: [PATCH 18/61] fix: do not spin on the output of a command that has
 exited, await commands whose output fails

---
 include/platform/run_cmd.h   |  4 ++
 src/platform/posix/run_cmd.c | 72 +++++++++++++++++++++++-------------
 2 files changed, 50 insertions(+), 26 deletions(-)

diff --git a/include/platform/run_cmd.h b/include/platform/run_cmd.h
index 621055f..4b1d7c7 100644
--- a/include/platform/run_cmd.h
+++ b/include/platform/run_cmd.h
@@ -56,7 +56,11 @@ struct run_cmd_ctx {
 	int pipefd_out[2], pipefd_err[2];
 	int input_fd;
 	pid_t pid;
+	int wait_status;
 
+	// the process was reaped, but its output may still be open elsewhere
+	bool exited;
+	bool abandon_output;
 	bool input_fd_open;
 	bool pipefd_out_open[2], pipefd_err_open[2];
 #endif
diff --git a/src/platform/posix/run_cmd.c b/src/platform/posix/run_cmd.c
index d746d97..e9c7444 100644
--- a/src/platform/posix/run_cmd.c
+++ b/src/platform/posix/run_cmd.c
@@ -106,52 +106,62 @@ run_cmd_ctx_close_fds(struct run_cmd_ctx *ctx)
 
 }
 
+static enum run_cmd_state
+run_cmd_collect_failed(struct run_cmd_ctx *ctx)
+{
+	if (!ctx->exited) {
+		// do not leave a process behind that nobody will wait for
+		kill(ctx->pid, SIGKILL);
+		while (waitpid(ctx->pid, &ctx->wait_status, 0) == -1 && errno == EINTR) {
+		}
+		ctx->exited = true;
+	}
+
+	return run_cmd_error;
+}
+
 enum run_cmd_state
 run_cmd_collect(struct run_cmd_ctx *ctx)
 {
-	int status;
 	int r;
 
-	enum copy_pipe_result pipe_res = 0;
+	enum copy_pipe_result pipe_res;
 
 	while (true) {
+		pipe_res = copy_pipe_result_finished;
 		if (!(ctx->flags & run_cmd_ctx_flag_dont_capture)) {
 			if ((pipe_res = copy_pipes(ctx)) == copy_pipe_result_failed) {
-				return run_cmd_error;
+				return run_cmd_collect_failed(ctx);
 			}
 		}
 
-		if ((r = waitpid(ctx->pid, &status, WNOHANG)) == -1) {
-			return run_cmd_error;
-		} else if (r == 0) {
-			if (ctx->flags & run_cmd_ctx_flag_async) {
-				return run_cmd_running;
-			} else {
-				// sleep here for 1ms to give the process some
-				// time to complete
-				struct timespec req = { .tv_nsec = 1000000, };
-				nanosleep(&req, NULL);
+		if (ctx->exited) {
+			// a descendant of the process may still hold its output
+			if (pipe_res == copy_pipe_result_finished || ctx->abandon_output) {
+				break;
 			}
-		} else {
-			break;
+		} else if ((r = waitpid(ctx->pid, &ctx->wait_status, WNOHANG)) == -1) {
+			return run_cmd_error;
+		} else if (r == ctx->pid) {
+			ctx->exited = true;
+			continue;
 		}
-	}
 
-	assert(r == ctx->pid);
-
-	if (!(ctx->flags & run_cmd_ctx_flag_dont_capture)) {
-		while (pipe_res != copy_pipe_result_finished) {
-			if ((pipe_res = copy_pipes(ctx)) == copy_pipe_result_failed) {
-				return run_cmd_error;
-			}
+		if (ctx->flags & run_cmd_ctx_flag_async) {
+			return run_cmd_running;
+		} else {
+			// sleep here for 1ms to give the process some
+			// time to complete
+			struct timespec req = { .tv_nsec = 1000000, };
+			nanosleep(&req, NULL);
 		}
 	}
 
 	run_cmd_ctx_close_fds(ctx);
 
-	if (WIFEXITED(status)) {
-		ctx->status = WEXITSTATUS(status);
-	} else if (WIFSIGNALED(status)) {
+	if (WIFEXITED(ctx->wait_status)) {
+		ctx->status = WEXITSTATUS(ctx->wait_status);
+	} else if (WIFSIGNALED(ctx->wait_status)) {
 		// TODO: it may be helpful to communicate the signal that
 		// caused the command to terminate, this is available with
 		// `WTERMSIG(status)`
@@ -262,6 +272,9 @@ run_cmd_internal(struct run_cmd_ctx *ctx, const char *_cmd, char *const *argv, c
 		}
 	}
 
+	ctx->exited = false;
+	ctx->abandon_output = false;
+
 	if ((ctx->pid = fork()) == -1) {
 		ctx->err_msg = "failed to fork";
 		goto err;
@@ -480,6 +493,13 @@ bool
 run_cmd_kill(struct run_cmd_ctx *ctx, bool force)
 {
 	int r;
+
+	if (ctx->exited) {
+		// only its output is still open, the pid is no longer ours
+		ctx->abandon_output = true;
+		return true;
+	}
+
 	if (force) {
 		r = kill(ctx->pid, SIGKILL);
 	} else {
-- 
2.43.0


From b8ec12ac08b634b01e05172375b8f6d2e9d63529 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:33:30 +0000
Subject: [PATCH 19/61] fix: do not crash on a tap test without output

---
 src/formats/tap.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/formats/tap.c b/src/formats/tap.c
index 5ff0a56..2cf40e9 100644
--- a/src/formats/tap.c
+++ b/src/formats/tap.c
@@ -85,7 +85,9 @@ tap_parse(char *buf, uint64_t buf_len, struct tap_parse_result *res)
 {
 	struct tap_parse_ctx ctx = { .res = res };
 
-	each_line(buf, buf_len, &ctx, tap_parse_line_cb);
+	if (buf_len) {
+		each_line(buf, buf_len, &ctx, tap_parse_line_cb);
+	}
 
 	if (!ctx.have_plan) {
 		res->total = res->pass + res->skip + res->fail;
-- 
2.43.0


From 2881ca4ea35b28b63bd677c021ad88a4d45a3f70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:35:22 +0000
Subject: [PATCH 20/61] fix: do not abort on tests without suites when a setup
 excludes suites

---
 src/cmd_test.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cmd_test.c b/src/cmd_test.c
index e153e7a..e44985d 100644
--- a/src/cmd_test.c
+++ b/src/cmd_test.c
@@ -382,7 +382,7 @@ test_in_suite(struct workspace *wk, obj suites, struct run_test_ctx *run_test_ct
 
 	if (!run_test_ctx->opts->suites_len) {
 		// no suites given on command line
-		if (run_test_ctx->setup.exclude_suites) {
+		if (suites && run_test_ctx->setup.exclude_suites) {
 			obj_array_foreach(wk, suites, &ctx, test_in_exclude_suites_iter);
 			return !ctx.found;
 		} else {
-- 
2.43.0


From afabf09ca265dc73391c7fc3b0a15c825c0f9eb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:56:30 +0000
Subject: [PATCH 21/61] fix: invalidate the build log record of every output
 about to be rebuilt

Whatever made the job necessary may be undone until the next build (a
changed command, an unreadable depfile, an input that is no longer one),
which then took the output of a failed or killed job as up to date.
---
 src/external/samurai/build.c | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/external/samurai/build.c b/src/external/samurai/build.c
index 2ba908c..896d381 100644
--- a/src/external/samurai/build.c
+++ b/src/external/samurai/build.c
@@ -295,11 +295,12 @@ samu_jobstart(struct samu_ctx *ctx, struct samu_job *j, struct samu_edge *e)
 		if (n->mtime == SAMU_MTIME_MISSING) {
 			if (samu_makedirs(n->path, true) < 0)
 				return false;
-			/* the record of a previous run must not vouch for what
-			 * this one leaves behind if it does not finish */
-			if (n->hash)
-				samu_loginvalidate(ctx, n);
 		}
+		/* the record of a previous run must not vouch for what this
+		 * one leaves behind if it does not finish, whatever made it
+		 * necessary: that may be undone until the next build */
+		if (n->hash)
+			samu_loginvalidate(ctx, n);
 	}
 
 	rspfile = samu_edgevar(ctx, e, "rspfile", false);
-- 
2.43.0


From 2e4c1ac830c1bcf180869df0de6058c4ce2efe54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:34:46 +0000
Subject: [PATCH 22/61] fix: pass the compiler check cache option once when
 regenerating again

---
 src/backend/common_args.c | 22 ++++++++++++++++------
 1 file changed, 16 insertions(+), 6 deletions(-)

diff --git a/src/backend/common_args.c b/src/backend/common_args.c
index ddd623d..0a8dc80 100644
--- a/src/backend/common_args.c
+++ b/src/backend/common_args.c
@@ -745,16 +745,16 @@ regenerate_build_command(struct workspace *wk, bool opts_only)
 	obj regen_args;
 	make_obj(wk, &regen_args, obj_array);
 
+	SBUF(compiler_check_cache_path);
+	path_join(wk, &compiler_check_cache_path,
+		wk->muon_private, output_path.compiler_check_cache);
+
 	if (!opts_only) {
 		obj_array_push(wk, regen_args, make_str(wk, wk->argv0));
 		obj_array_push(wk, regen_args, make_str(wk, "-C"));
 		obj_array_push(wk, regen_args, make_str(wk, wk->source_root));
 		obj_array_push(wk, regen_args, make_str(wk, "setup"));
 
-		SBUF(compiler_check_cache_path);
-		path_join(wk, &compiler_check_cache_path,
-			wk->muon_private, output_path.compiler_check_cache);
-
 		obj_array_push(wk, regen_args, make_str(wk, "-c"));
 		obj_array_push(wk, regen_args, make_str(wk, compiler_check_cache_path.buf));
 	}
@@ -763,8 +763,18 @@ regenerate_build_command(struct workspace *wk, bool opts_only)
 
 	uint32_t i;
 	for (i = 0; i < wk->original_commandline.argc; ++i) {
-		obj_array_push(wk, regen_args,
-			make_str(wk, wk->original_commandline.argv[i]));
+		const char *arg = wk->original_commandline.argv[i];
+
+		// this pair was added above when the build files were
+		// regenerated, don't accumulate it
+		if (strcmp(arg, "-c") == 0
+		    && i + 1 < wk->original_commandline.argc
+		    && strcmp(wk->original_commandline.argv[i + 1], compiler_check_cache_path.buf) == 0) {
+			++i;
+			continue;
+		}
+
+		obj_array_push(wk, regen_args, make_str(wk, arg));
 	}
 
 	return regen_args;
-- 
2.43.0


From ae216e910f306c00db61bd2099c5f03cb66a66e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:35:41 +0000
Subject: [PATCH 23/61] fix: regenerate when any file read by configuration
 changed or is gone

---
 src/backend/ninja/rules.c             |  3 +++
 src/functions/kernel.c                |  2 ++
 src/functions/kernel/configure_file.c | 12 ++++++++++++
 src/functions/modules/fs.c            |  4 ++++
 4 files changed, 21 insertions(+)

diff --git a/src/backend/ninja/rules.c b/src/backend/ninja/rules.c
index 8bc4fca..aedffa8 100644
--- a/src/backend/ninja/rules.c
+++ b/src/backend/ninja/rules.c
@@ -319,6 +319,9 @@ ninja_write_rules(FILE *out, struct workspace *wk, struct project *main_proj,
 		get_cstr(wk, join_args_ninja(wk, regenerate_deps_rel))
 		);
 
+	// if one of these files is removed the build files are regenerated
+	fprintf(out, "build %s: phony\n\n", get_cstr(wk, join_args_ninja(wk, regenerate_deps_rel)));
+
 	fprintf(out,
 		"rule CUSTOM_COMMAND\n"
 		" command = $COMMAND\n"
diff --git a/src/functions/kernel.c b/src/functions/kernel.c
index 4192eec..802a34a 100644
--- a/src/functions/kernel.c
+++ b/src/functions/kernel.c
@@ -180,6 +180,8 @@ func_project(struct workspace *wk, obj _, uint32_t args_node, obj *res)
 		if (get_obj_type(wk, akw[kw_version].val) == obj_string) {
 			current_project(wk)->cfg.version = akw[kw_version].val;
 		} else {
+			workspace_add_regenerate_deps(wk, make_str(wk, get_file_path(wk, akw[kw_version].val)));
+
 			struct source ver_src = { 0 };
 			if (!fs_read_entire_file(get_file_path(wk, akw[kw_version].val), &ver_src)) {
 				interp_error(wk, akw[kw_version].node, "failed to read version file");
diff --git a/src/functions/kernel/configure_file.c b/src/functions/kernel/configure_file.c
index 5890831..f5daad4 100644
--- a/src/functions/kernel/configure_file.c
+++ b/src/functions/kernel/configure_file.c
@@ -375,6 +375,13 @@ generate_config(struct workspace *wk, enum configure_file_output_format format,
 	return ret;
 }
 
+static enum iteration_result
+configure_file_add_input_regenerate_dep_iter(struct workspace *wk, void *_ctx, obj input)
+{
+	workspace_add_regenerate_deps(wk, *get_obj_file(wk, input));
+	return ir_cont;
+}
+
 static bool
 configure_file_with_command(struct workspace *wk, uint32_t node,
 	obj command, obj input, obj out_path, obj depfile,
@@ -411,6 +418,11 @@ configure_file_with_command(struct workspace *wk, uint32_t node,
 		return false;
 	}
 
+	if (input) {
+		obj_array_foreach(wk, input, NULL, configure_file_add_input_regenerate_dep_iter);
+	}
+	workspace_add_regenerate_deps(wk, args);
+
 	bool ret = false;
 	struct run_cmd_ctx cmd_ctx = { 0 };
 	const char *argstr, *envstr;
diff --git a/src/functions/modules/fs.c b/src/functions/modules/fs.c
index f84046d..dbbdf03 100644
--- a/src/functions/modules/fs.c
+++ b/src/functions/modules/fs.c
@@ -169,6 +169,8 @@ func_module_fs_read(struct workspace *wk, obj rcvr, uint32_t args_node, obj *res
 		return false;
 	}
 
+	workspace_add_regenerate_deps(wk, make_str(wk, path.buf));
+
 	struct source src = { 0 };
 	if (!fs_read_entire_file(path.buf, &src)) {
 		return false;
@@ -323,6 +325,8 @@ func_module_fs_hash(struct workspace *wk, obj rcvr, uint32_t args_node, obj *res
 		return false;
 	}
 
+	workspace_add_regenerate_deps(wk, make_str(wk, path.buf));
+
 	struct source src = { 0 };
 	if (!fs_read_entire_file(path.buf, &src)) {
 		return false;
-- 
2.43.0


From 73c6dba6083d93f56c8efac4a42de9c4f0dbc789 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:38:49 +0000
Subject: [PATCH 24/61] Restore src/cmd_test.c: its defects are recorded in
 /verif/known_findings.txt instead

---
 src/cmd_test.c | 64 +++++++++++++++++++++-----------------------------
 1 file changed, 27 insertions(+), 37 deletions(-)

diff --git a/src/cmd_test.c b/src/cmd_test.c
index e44985d..e888651 100644
--- a/src/cmd_test.c
+++ b/src/cmd_test.c
@@ -52,7 +52,7 @@ struct run_test_ctx {
 	obj proj_name;
 	obj collected_tests;
 	obj deps;
-	uint32_t proj_i, next_proj_i;
+	uint32_t proj_i;
 	struct {
 		uint32_t test_i, test_len, error_count;
 		uint32_t total_count, total_error_count, total_expect_fail_count;
@@ -382,7 +382,7 @@ test_in_suite(struct workspace *wk, obj suites, struct run_test_ctx *run_test_ct
 
 	if (!run_test_ctx->opts->suites_len) {
 		// no suites given on command line
-		if (suites && run_test_ctx->setup.exclude_suites) {
+		if (run_test_ctx->setup.exclude_suites) {
 			obj_array_foreach(wk, suites, &ctx, test_in_exclude_suites_iter);
 			return !ctx.found;
 		} else {
@@ -452,12 +452,14 @@ find_test_setup_project_iter(struct workspace *wk, void *_ctx, obj project_name,
 	obj setups;
 	obj_array_index(wk, arr, 1, &setups);
 
-	if (setups) {
-		obj_array_foreach(wk, setups, ctx, find_test_setup_iter);
+	if (!setups) {
+		return ir_cont;
+	}
 
-		if (ctx->found) {
-			return ir_done;
-		}
+	obj_array_foreach(wk, setups, ctx, find_test_setup_iter);
+
+	if (ctx->found) {
+		return ir_done;
 	}
 
 	++ctx->rtctx->proj_i;
@@ -501,7 +503,7 @@ check_test_result_tap(struct workspace *wk, struct run_test_ctx *ctx, struct tes
 	res->subtests.pass = tap_result.pass + tap_result.skip;
 	res->subtests.total = tap_result.total;
 
-	return tap_result.all_ok && res->cmd_ctx.status == 0 ? test_result_status_ok : test_result_status_failed;
+	return tap_result.all_ok && res->status == 0 ? test_result_status_ok : test_result_status_failed;
 }
 
 static enum test_result_status
@@ -574,16 +576,15 @@ collect_tests(struct workspace *wk, struct run_test_ctx *ctx)
 				break;
 			}
 
-			if (res->test->should_fail) {
-				if (status == test_result_status_failed) {
-					status = test_result_status_ok;
-					++ctx->stats.total_expect_fail_count;
-				} else if (status == test_result_status_ok) {
-					status = test_result_status_failed;
-				}
+			if (status == test_result_status_failed && res->test->should_fail) {
+				status = test_result_status_ok;
 			}
 
 			if (status != test_result_status_failed) {
+				if (res->test->should_fail) {
+					++ctx->stats.total_expect_fail_count;
+				}
+
 				res->status = status;
 				run_cmd_ctx_destroy(&res->cmd_ctx);
 			} else {
@@ -637,10 +638,6 @@ push_test(struct workspace *wk, struct run_test_ctx *ctx, struct obj_test *test,
 cont:
 		timer_sleep(SLEEP_TIME);
 		collect_tests(wk, ctx);
-
-		if (ctx->opts->fail_fast && ctx->stats.total_error_count) {
-			return;
-		}
 	}
 found_slot:
 	++ctx->busy_jobs;
@@ -659,8 +656,7 @@ found_slot:
 		},
 	};
 
-	// the verdict of a tap test is in its output
-	if (ctx->opts->verbosity > 1 && test->protocol != test_protocol_tap) {
+	if (ctx->opts->verbosity > 1) {
 		cmd_ctx->flags |= run_cmd_ctx_flag_dont_capture;
 	}
 
@@ -842,10 +838,6 @@ run_project_tests(struct workspace *wk, void *_ctx, obj proj_name, obj arr)
 	struct run_test_ctx *ctx = _ctx;
 	make_obj(wk, &ctx->deps, obj_array);
 
-	// the first project is the main project
-	ctx->proj_name = proj_name;
-	ctx->proj_i = ctx->next_proj_i++;
-
 	ctx->stats.test_i = 0;
 	ctx->stats.error_count = 0;
 	ctx->stats.test_len = 0;
@@ -865,9 +857,7 @@ run_project_tests(struct workspace *wk, void *_ctx, obj proj_name, obj arr)
 		obj ninja_cmd;
 		obj_array_dedup(wk, ctx->deps, &ninja_cmd);
 		if (!ninja_run(wk, ninja_cmd, NULL, NULL)) {
-			LOG_E("failed to build the dependencies of the %ss",
-				test_category_label(ctx->opts->cat));
-			return ir_err;
+			LOG_W("failed to run ninja");
 		}
 	}
 
@@ -875,22 +865,25 @@ run_project_tests(struct workspace *wk, void *_ctx, obj proj_name, obj arr)
 
 	ctx->stats.ran_tests = true;
 
+	ctx->proj_name = proj_name;
+
 	if (!obj_array_foreach(wk, tests, ctx, run_test)) {
 		return ir_err;
 	}
 
-	// even when failing fast, the tests that are still running are awaited
+	if (ctx->opts->fail_fast && ctx->stats.total_error_count) {
+		return ir_done;
+	}
+
 	while (ctx->busy_jobs) {
 		timer_sleep(SLEEP_TIME);
 		collect_tests(wk, ctx);
 	}
 
-	if (ctx->opts->fail_fast && ctx->stats.total_error_count) {
-		return ir_done;
-	}
-
 	log_plain("\n");
 
+	++ctx->proj_i;
+
 	return ir_cont;
 }
 
@@ -928,10 +921,7 @@ tests_run(struct test_options *opts, const char *argv0)
 		obj ninja_cmd;
 		make_obj(&wk, &ninja_cmd, obj_array);
 		obj_array_push(&wk, ninja_cmd, make_str(&wk, "build.ninja"));
-		if (!ninja_run(&wk, ninja_cmd, NULL, NULL) && !opts->no_rebuild) {
-			LOG_E("failed to update build.ninja");
-			goto ret;
-		}
+		ninja_run(&wk, ninja_cmd, NULL, NULL);
 	}
 
 	{
-- 
2.43.0


From 698e3dea3262f841f1fdd6af13491375209db2f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:41:37 +0000
Subject: [PATCH 25/61] fix: do not regenerate again after a manual setup

The record of the regeneration in the build log is older than an edited
file after "muon setup" was run by hand, although build.ninja itself is
newer.
---
 src/external/samurai/build.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/external/samurai/build.c b/src/external/samurai/build.c
index 896d381..5fac9db 100644
--- a/src/external/samurai/build.c
+++ b/src/external/samurai/build.c
@@ -77,7 +77,10 @@ samu_isdirty(struct samu_ctx *ctx, struct samu_node *n, struct samu_node *newest
 				samu_warn("explain %s: no record in .ninja_log", n->path->s);
 			return true;
 		}
-	} else if (newest && n->logmtime < newest->mtime) {
+	} else if (newest && n->logmtime < newest->mtime
+		   /* outputs of generator rules may also be brought up to date
+		    * by hand, the record of an unfinished run is 0 */
+		   && !(generator && n->logmtime > 0)) {
 		if (ctx->buildopts.explain) {
 			samu_warn("explain %s: recorded mtime is older than input '%s': %" PRId64 " vs %" PRId64,
 			     n->path->s, newest->path->s, n->logmtime, newest->mtime);
-- 
2.43.0


From f9fbaf88ae2f9153bdcc240907eb8128b064bce1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:41:37 +0000
Subject: [PATCH 26/61] fix: write an empty list of test setups for projects
 without any

The lookup of test setups counts projects while it walks over them and
skipped those, taking a subproject for the main project.
---
 src/backend/ninja.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/backend/ninja.c b/src/backend/ninja.c
index d385b17..800db47 100644
--- a/src/backend/ninja.c
+++ b/src/backend/ninja.c
@@ -190,6 +190,10 @@ ninja_write_tests(struct workspace *wk, void *_ctx, FILE *out)
 				make_obj(wk, &proj->tests, obj_array);
 			}
 
+			if (!proj->test_setups) {
+				make_obj(wk, &proj->test_setups, obj_array);
+			}
+
 			obj_array_push(wk, arr, proj->tests);
 			obj_array_push(wk, arr, proj->test_setups);
 			obj_dict_set(wk, tests, key, arr);
-- 
2.43.0


From a15dbbd9adf8753e293944788159f0d200eef7b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:00:52 +0000
Subject: [PATCH 27/61] fix: name the built executable of a test by its
 absolute path

A test with a workdir could not be run by the wrapper of a setup.
---
 src/functions/kernel.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/functions/kernel.c b/src/functions/kernel.c
index 802a34a..de8734a 100644
--- a/src/functions/kernel.c
+++ b/src/functions/kernel.c
@@ -1418,6 +1418,11 @@ add_test_common(struct workspace *wk, uint32_t args_node, enum test_category cat
 		return false;
 	}
 
+	if (get_obj_type(wk, an[1].val) == obj_build_target) {
+		// a wrapper may run it from the workdir
+		exe = get_obj_build_target(wk, an[1].val)->build_path;
+	}
+
 	obj args = exe_args;
 	if (akw[kw_args].set) {
 		if (!arr_to_args(wk,
-- 
2.43.0


From 34c8e7ec5fb8357f5443d79509d9f7559d5f94fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:15:56 +0000
Subject: [PATCH 28/61] fix: report errors of buffered writes when a file is
 closed

Output that was written with fprintf or fputs and lost because of an I/O
error left a truncated file behind and was not reported.
---
 src/platform/filesystem.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/platform/filesystem.c b/src/platform/filesystem.c
index 08024fb..9af5fb1 100644
--- a/src/platform/filesystem.c
+++ b/src/platform/filesystem.c
@@ -94,9 +94,14 @@ fs_fopen(const char *path, const char *mode)
 bool
 fs_fclose(FILE *file)
 {
+	bool failed = ferror(file);
+
 	if (fclose(file) != 0) {
 		LOG_E("failed fclose: %s", strerror(errno));
 		return false;
+	} else if (failed) {
+		LOG_E("failed fclose: the stream has had an error");
+		return false;
 	}
 
 	return true;
-- 
2.43.0


From a726334eb7f8e4c4240f112c41e0a5794485a21f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:26:41 +0000
Subject: [PATCH 29/61] fix: replace the generated files of the build directory
 atomically

---
 include/backend/output.h          |  2 ++
 include/platform/filesystem.h     |  2 ++
 src/backend/output.c              | 16 +++++++++++++++-
 src/platform/posix/filesystem.c   | 11 +++++++++++
 src/platform/windows/filesystem.c | 11 +++++++++++
 5 files changed, 41 insertions(+), 1 deletion(-)

diff --git a/include/backend/output.h b/include/backend/output.h
index bde36ae..9b3ba8b 100644
--- a/include/backend/output.h
+++ b/include/backend/output.h
@@ -18,5 +18,7 @@ extern const struct output_path output_path;
 typedef bool ((with_open_callback)(struct workspace *wk, void *ctx, FILE *out));
 
 FILE *output_open(const char *dir, const char *name);
+/* The file appears, or replaces the one there, once it has been completely
+ * written. */
 bool with_open(const char *dir, const char *name, struct workspace *wk, void *ctx, with_open_callback cb);
 #endif
diff --git a/include/platform/filesystem.h b/include/platform/filesystem.h
index 70a3f2f..b50ed72 100644
--- a/include/platform/filesystem.h
+++ b/include/platform/filesystem.h
@@ -65,6 +65,8 @@ bool fs_is_a_tty(FILE *f);
 bool fs_chmod(const char *path, uint32_t mode);
 bool fs_copy_metadata(const char *src, const char *dest);
 bool fs_remove(const char *path);
+/* replaces dest if it exists */
+bool fs_rename(const char *src, const char *dest);
 /* Windows only */
 bool fs_has_extension(const char *path, const char *ext);
 
diff --git a/src/backend/output.c b/src/backend/output.c
index b192115..d8df4bc 100644
--- a/src/backend/output.c
+++ b/src/backend/output.c
@@ -45,16 +45,30 @@ with_open(const char *dir, const char *name, struct workspace *wk,
 
 	bool ret = false;
 	FILE *out;
-	if (!(out = output_open(dir, name))) {
+	SBUF_manual(path);
+	SBUF_manual(tmp_name);
+	SBUF_manual(tmp_path);
+
+	sbuf_pushf(NULL, &tmp_name, "%s.tmp", name);
+	path_join(NULL, &path, dir, name);
+	path_join(NULL, &tmp_path, dir, tmp_name.buf);
+
+	if (!(out = output_open(dir, tmp_name.buf))) {
 		goto ret;
 	} else if (!cb(wk, ctx, out)) {
+		fs_fclose(out);
 		goto ret;
 	} else if (!fs_fclose(out)) {
 		goto ret;
+	} else if (!fs_rename(tmp_path.buf, path.buf)) {
+		goto ret;
 	}
 
 	ret = true;
 ret:
+	sbuf_destroy(&path);
+	sbuf_destroy(&tmp_name);
+	sbuf_destroy(&tmp_path);
 	TracyCZoneEnd(tctx_func);
 	return ret;
 }
diff --git a/src/platform/posix/filesystem.c b/src/platform/posix/filesystem.c
index 1e3c995..d9526d6 100644
--- a/src/platform/posix/filesystem.c
+++ b/src/platform/posix/filesystem.c
@@ -291,6 +291,17 @@ fs_remove(const char *path)
 	return true;
 }
 
+bool
+fs_rename(const char *src, const char *dest)
+{
+	if (rename(src, dest) != 0) {
+		LOG_E("failed rename(\"%s\", \"%s\"): %s", src, dest, strerror(errno));
+		return false;
+	}
+
+	return true;
+}
+
 bool
 fs_make_symlink(const char *target, const char *path, bool force)
 {
diff --git a/src/platform/windows/filesystem.c b/src/platform/windows/filesystem.c
index aa23342..1aa99fd 100644
--- a/src/platform/windows/filesystem.c
+++ b/src/platform/windows/filesystem.c
@@ -520,3 +520,14 @@ fs_remove(const char *path)
 
 	return true;
 }
+
+bool
+fs_rename(const char *src, const char *dest)
+{
+	if (!MoveFileExA(src, dest, MOVEFILE_REPLACE_EXISTING)) {
+		LOG_E("failed MoveFileEx(\"%s\", \"%s\"): %s", src, dest, win32_error());
+		return false;
+	}
+
+	return true;
+}
-- 
2.43.0


From 25545fc7e0a1d60284133cb23e199996a938325e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:26:41 +0000
Subject: [PATCH 30/61] fix: start over after a setup that did not complete

---
 include/backend/output.h |  2 +-
 src/backend/ninja.c      |  6 ++++--
 src/backend/output.c     |  1 +
 src/lang/workspace.c     | 12 ++++++++++++
 4 files changed, 18 insertions(+), 3 deletions(-)

diff --git a/include/backend/output.h b/include/backend/output.h
index 9b3ba8b..87e02fb 100644
--- a/include/backend/output.h
+++ b/include/backend/output.h
@@ -10,7 +10,7 @@
 
 struct output_path {
 	const char *private_dir, *summary, *tests, *install,
-		   *compiler_check_cache, *option_info;
+		   *compiler_check_cache, *option_info, *setup_started;
 };
 
 extern const struct output_path output_path;
diff --git a/src/backend/ninja.c b/src/backend/ninja.c
index 800db47..5640d5e 100644
--- a/src/backend/ninja.c
+++ b/src/backend/ninja.c
@@ -252,12 +252,14 @@ ninja_write_all(struct workspace *wk)
 	struct write_build_ctx ctx = { 0 };
 	make_obj(wk, &ctx.compiler_rule_arr, obj_array);
 
-	if (!(with_open(wk->build_root, "build.ninja", wk, &ctx, ninja_write_build)
-	      && with_open(wk->muon_private, output_path.tests, wk, NULL, ninja_write_tests)
+	// build.ninja comes last, if it is as new as the start of the setup then
+	// everything else has been written too
+	if (!(with_open(wk->muon_private, output_path.tests, wk, NULL, ninja_write_tests)
 	      && with_open(wk->muon_private, output_path.install, wk, NULL, ninja_write_install)
 	      && with_open(wk->muon_private, output_path.compiler_check_cache, wk, NULL, ninja_write_compiler_check_cache)
 	      && with_open(wk->muon_private, output_path.summary, wk, NULL, ninja_write_summary_file)
 	      && with_open(wk->muon_private, output_path.option_info, wk, NULL, ninja_write_option_info)
+	      && with_open(wk->build_root, "build.ninja", wk, &ctx, ninja_write_build)
 	      )) {
 		return false;
 	}
diff --git a/src/backend/output.c b/src/backend/output.c
index d8df4bc..e7cdef0 100644
--- a/src/backend/output.c
+++ b/src/backend/output.c
@@ -19,6 +19,7 @@ const struct output_path output_path = {
 	.install = "install.dat",
 	.compiler_check_cache = "compiler_check_cache.dat",
 	.option_info = "option_info.dat",
+	.setup_started = "setup_started",
 };
 
 FILE *
diff --git a/src/lang/workspace.c b/src/lang/workspace.c
index dd67351..6b473ef 100644
--- a/src/lang/workspace.c
+++ b/src/lang/workspace.c
@@ -295,6 +295,18 @@ workspace_setup_paths(struct workspace *wk, const char *build, const char *argv0
 		}
 	}
 
+	{
+		// If this setup does not get as far as replacing build.ninja,
+		// then the next build starts over.
+		const struct str *stamp = &WKSTR("started\n");
+		path_join(wk, &path, wk->muon_private, output_path.setup_started);
+		if (!fs_write(path.buf, (const uint8_t *)stamp->s, stamp->len)) {
+			return false;
+		}
+
+		obj_array_push(wk, wk->regenerate_deps, make_str(wk, path.buf));
+	}
+
 	return true;
 }
 
-- 
2.43.0


From 08d0d1869a0326a03f48027414de843bf12379f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:26:46 +0000
Subject: [PATCH 31/61] fix: do not leave a partial compile_commands.json
 behind

---
 src/backend/ninja.c | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/backend/ninja.c b/src/backend/ninja.c
index 5640d5e..ab9af3f 100644
--- a/src/backend/ninja.c
+++ b/src/backend/ninja.c
@@ -274,7 +274,13 @@ ninja_write_all(struct workspace *wk)
 		obj_array_push(wk, compdb_args, make_str(wk, "-t"));
 		obj_array_push(wk, compdb_args, make_str(wk, "compdb"));
 		obj_array_extend_nodup(wk, compdb_args, ctx.compiler_rule_arr);
-		if (!ninja_run(wk, compdb_args, wk->build_root, "compile_commands.json")) {
+
+		SBUF(compdb);
+		SBUF(compdb_tmp);
+		path_join(wk, &compdb, wk->build_root, "compile_commands.json");
+		path_join(wk, &compdb_tmp, wk->build_root, "compile_commands.json.tmp");
+		if (!ninja_run(wk, compdb_args, wk->build_root, "compile_commands.json.tmp")
+		    || !fs_rename(compdb_tmp.buf, compdb.buf)) {
 			LOG_E("error writing compile_commands.json");
 		}
 
-- 
2.43.0


From 8de94aeec4458f2d9e8ecf03affa664881b0bd18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:29:17 +0000
Subject: [PATCH 32/61] fix: let the data of a custom target's command be part
 of it

---
 src/backend/ninja/custom_target.c | 38 ++++++++++++++++++++++++-------
 1 file changed, 30 insertions(+), 8 deletions(-)

diff --git a/src/backend/ninja/custom_target.c b/src/backend/ninja/custom_target.c
index 919d62a..0a0379e 100644
--- a/src/backend/ninja/custom_target.c
+++ b/src/backend/ninja/custom_target.c
@@ -17,9 +17,7 @@
 #include "log.h"
 #include "platform/filesystem.h"
 #include "platform/path.h"
-
-// appended to custom_target data files to make them unique
-static uint32_t custom_tgt_dat_sequence = 0;
+#include "sha_256.h"
 
 static enum iteration_result
 ninja_args_are_escapable_iter(struct workspace *wk, void *_ctx, obj v)
@@ -48,26 +46,50 @@ write_custom_target_dat(struct workspace *wk, struct obj_custom_target *tgt, obj
 	assert(tgt->name && "unnamed targets cannot have a custom data");
 
 	SBUF(name);
-	sbuf_pushf(wk, &name, "%s%d.dat", get_cstr(wk, tgt->name), custom_tgt_dat_sequence);
-	++custom_tgt_dat_sequence;
-
 	SBUF(dirpath);
+	SBUF(tmp_path);
 	SBUF(dat_path);
+	sbuf_pushf(wk, &name, "%s.dat.tmp", get_cstr(wk, tgt->name));
 	path_join(wk, &dirpath, wk->muon_private, dir);
-	path_join(wk, &dat_path, dirpath.buf, name.buf);
+	path_join(wk, &tmp_path, dirpath.buf, name.buf);
 
 	FILE *dat;
 
 	if (!fs_mkdir_p(dirpath.buf)) {
 		return false;
-	} else if (!(dat = fs_fopen(dat_path.buf, "wb"))) {
+	} else if (!(dat = fs_fopen(tmp_path.buf, "wb"))) {
 		return false;
 	} else if (!serial_dump(wk, data_obj, dat)) {
+		fs_fclose(dat);
 		return false;
 	} else if (!fs_fclose(dat)) {
 		return false;
 	}
 
+	// The name contains a hash of the data, so that the command which uses
+	// it changes together with the data.
+	struct source src = { 0 };
+	if (!fs_read_entire_file(tmp_path.buf, &src)) {
+		return false;
+	}
+
+	uint8_t hash[32];
+	calc_sha_256(hash, src.src, src.len);
+	fs_source_destroy(&src);
+
+	sbuf_clear(&name);
+	sbuf_pushf(wk, &name, "%s_", get_cstr(wk, tgt->name));
+	uint32_t i;
+	for (i = 0; i < 16; ++i) {
+		sbuf_pushf(wk, &name, "%02x", hash[i]);
+	}
+	sbuf_pushs(wk, &name, ".dat");
+	path_join(wk, &dat_path, dirpath.buf, name.buf);
+
+	if (!fs_rename(tmp_path.buf, dat_path.buf)) {
+		return false;
+	}
+
 	*res = make_str(wk, dat_path.buf);
 	return true;
 }
-- 
2.43.0


From fe9c522f76a7e7e2e62385897ebba2526b5ff25d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:29:17 +0000
Subject: [PATCH 33/61] fix: canonicalize the paths read from depfiles

---
 src/external/samurai/deps.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/external/samurai/deps.c b/src/external/samurai/deps.c
index 37be57a..2f927d0 100644
--- a/src/external/samurai/deps.c
+++ b/src/external/samurai/deps.c
@@ -430,6 +430,7 @@ samu_depsparse(struct samu_ctx *ctx, const char *name, bool allowmissing)
 				in = samu_mkstr(&ctx->arena, ctx->deps.buf.len);
 				memcpy(in->s, ctx->deps.buf.data, ctx->deps.buf.len);
 				in->s[ctx->deps.buf.len] = '\0';
+				samu_canonpath(in);
 				ctx->deps.deps.node[ctx->deps.deps.len++] = samu_mknode(ctx, in);
 			}
 			if (c == '\n') {
-- 
2.43.0


From f9a61725568adab270275a5982ba5d5bd160e6af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:32:50 +0000
Subject: [PATCH 34/61] fix: let vcs_tag leave an up to date file alone

---
 src/script/vcs_tagger.meson | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/script/vcs_tagger.meson b/src/script/vcs_tagger.meson
index 7616600..6c8f117 100644
--- a/src/script/vcs_tagger.meson
+++ b/src/script/vcs_tagger.meson
@@ -63,4 +63,9 @@ if not found_tag
 endif
 
 s = fs.read(src)
-fs.write(dest, vcs_tag.join(s.split(sep)))
+tagged = vcs_tag.join(s.split(sep))
+
+# leave an up to date file alone, so that nothing is rebuilt because of it
+if not fs.is_file(dest) or fs.read(dest) != tagged
+    fs.write(dest, tagged)
+endif
-- 
2.43.0


From 87c9c9532cf87af51b59ddd19657885a5270feec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:48:16 +0000
Subject: [PATCH 35/61] fix: report failures of muon install

---
 src/cmd_install.c         | 9 ++++-----
 src/platform/filesystem.c | 2 +-
 2 files changed, 5 insertions(+), 6 deletions(-)

diff --git a/src/cmd_install.c b/src/cmd_install.c
index 25bf030..4ef76f0 100644
--- a/src/cmd_install.c
+++ b/src/cmd_install.c
@@ -273,7 +273,7 @@ err:
 bool
 install_run(struct install_options *opts)
 {
-	bool ret = true;
+	bool ret = false;
 	SBUF_manual(install_src);
 	path_join(NULL, &install_src, output_path.private_dir, output_path.install);
 
@@ -291,6 +291,7 @@ install_run(struct install_options *opts)
 	obj install;
 	if (!serial_load(&wk, &install, f)) {
 		LOG_E("failed to load %s", output_path.install);
+		fs_fclose(f);
 		goto ret;
 	} else if (!fs_fclose(f)) {
 		goto ret;
@@ -323,10 +324,8 @@ install_run(struct install_options *opts)
 		ctx.full_prefix = ctx.prefix;
 	}
 
-	obj_array_foreach(&wk, install_targets, &ctx, install_iter);
-	obj_array_foreach(&wk, install_scripts, &ctx, install_scripts_iter);
-
-	ret = true;
+	ret = obj_array_foreach(&wk, install_targets, &ctx, install_iter)
+	      && obj_array_foreach(&wk, install_scripts, &ctx, install_scripts_iter);
 ret:
 	workspace_destroy_bare(&wk);
 	return ret;
diff --git a/src/platform/filesystem.c b/src/platform/filesystem.c
index 9af5fb1..7a527fa 100644
--- a/src/platform/filesystem.c
+++ b/src/platform/filesystem.c
@@ -429,7 +429,7 @@ fs_copy_dir(const char *src_base, const char *dest_base)
 
 	if (!fs_dir_exists(dest_base)) {
 		if (!fs_mkdir(dest_base)) {
-			return ir_err;
+			return false;
 		}
 	}
 
-- 
2.43.0


From d88d9c440b33809aac180e781b2c7a765f0c0a09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:48:16 +0000
Subject: [PATCH 36/61] fix: replace installed files instead of writing through
 them

---
 src/cmd_install.c | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/src/cmd_install.c b/src/cmd_install.c
index 4ef76f0..511ebc2 100644
--- a/src/cmd_install.c
+++ b/src/cmd_install.c
@@ -31,6 +31,18 @@ struct copy_subdir_ctx {
 	struct workspace *wk;
 };
 
+// What is already there is replaced and not written through: it could be a link
+// to something else, or have other permissions.
+static bool
+install_file(const char *src, const char *dest)
+{
+	if ((fs_symlink_exists(dest) || fs_file_exists(dest)) && !fs_remove(dest)) {
+		return false;
+	}
+
+	return fs_copy_file(src, dest);
+}
+
 static enum iteration_result
 copy_subdir_iter(void *_ctx, const char *path)
 {
@@ -83,7 +95,7 @@ copy_subdir_iter(void *_ctx, const char *path)
 
 		LOG_I("install '%s' -> '%s'", src.buf, dest.buf);
 
-		if (!fs_copy_file(src.buf, dest.buf)) {
+		if (!install_file(src.buf, dest.buf)) {
 			return ir_err;
 		}
 	} else {
@@ -164,7 +176,7 @@ install_iter(struct workspace *wk, void *_ctx, obj v_id)
 					return ir_err;
 				}
 			} else {
-				if (!fs_copy_file(src, dest)) {
+				if (!install_file(src, dest)) {
 					return ir_err;
 				}
 			}
-- 
2.43.0


From c3949d56ca1160e68493609edada8663f2ecfcad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:48:41 +0000
Subject: [PATCH 37/61] fix: continue after a short write when copying a file

---
 src/platform/posix/filesystem.c | 16 ++++++----------
 1 file changed, 6 insertions(+), 10 deletions(-)

diff --git a/src/platform/posix/filesystem.c b/src/platform/posix/filesystem.c
index d9526d6..e1e3658 100644
--- a/src/platform/posix/filesystem.c
+++ b/src/platform/posix/filesystem.c
@@ -204,18 +204,14 @@ fs_copy_file(const char *src, const char *dest)
 	char buf[BUF_SIZE_32k];
 
 	while ((r = fread(buf, 1, BUF_SIZE_32k, f_src)) > 0) {
-		errno = 0; // to ensure that we get the error from write() only
-
-		if ((w = write(f_dest, buf, r)) == -1) {
-			LOG_E("failed write(): %s", strerror(errno));
-			goto ret;
-		} else {
-			assert(w >= 0);
-
-			if ((size_t)w < r) {
-				LOG_E("incomplete write: %s", strerror(errno));
+		size_t written = 0;
+		while (written < r) {
+			if ((w = write(f_dest, &buf[written], r - written)) == -1) {
+				LOG_E("failed write(): %s", strerror(errno));
 				goto ret;
 			}
+
+			written += w;
 		}
 	}
 
-- 
2.43.0


From b6e7471b58e7f5cbf07f2a0b8382cb67abe2641b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:51:10 +0000
Subject: [PATCH 38/61] fix: take an empty DESTDIR for none

---
 src/cmd_install.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cmd_install.c b/src/cmd_install.c
index 511ebc2..5dee6dd 100644
--- a/src/cmd_install.c
+++ b/src/cmd_install.c
@@ -324,7 +324,7 @@ install_run(struct install_options *opts)
 	wk.build_root = get_cstr(&wk, sbuf_into_str(&wk, &build_root));
 	wk.source_root = get_cstr(&wk, source_root);
 
-	if ((opts->destdir)) {
+	if (opts->destdir && *opts->destdir) {
 		SBUF(full_prefix);
 		SBUF(abs_destdir);
 		path_make_absolute(&wk, &abs_destdir, opts->destdir);
-- 
2.43.0


From 95052dbfa5b759e1c1db70c6dbcfd0fd549c08d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:04:33 +0000
Subject: [PATCH 39/61] fix: report a captured ninja output that could not be
 written

---
 src/backend/ninja.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/backend/ninja.c b/src/backend/ninja.c
index ab9af3f..b796336 100644
--- a/src/backend/ninja.c
+++ b/src/backend/ninja.c
@@ -324,6 +324,7 @@ ninja_run(struct workspace *wk, obj args, const char *chdir, const char *capture
 
 		if (capture) {
 			if (!fs_fclose(samu_opts.out)) {
+				ret = false;
 				goto ret;
 			}
 		}
-- 
2.43.0


From 32584dff0cd87eef68686165866b81f5418260ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:21:26 +0000
Subject: [PATCH 40/61] fix: install a missing subdir as an empty directory,
 skip targets not built by default

---
 include/install.h                    |  1 +
 include/lang/object.h                |  1 +
 src/cmd_install.c                    |  8 +++++++-
 src/functions/kernel/build_target.c  |  5 +++++
 src/functions/kernel/custom_target.c |  5 +++++
 src/install.c                        | 10 ++++++++++
 src/lang/object.c                    |  1 +
 7 files changed, 30 insertions(+), 1 deletion(-)

diff --git a/include/install.h b/include/install.h
index f07f218..2d35b09 100644
--- a/include/install.h
+++ b/include/install.h
@@ -14,4 +14,5 @@ bool push_install_target_install_dir(struct workspace *wk,
 	obj src, obj install_dir, obj mode);
 bool push_install_targets(struct workspace *wk, uint32_t err_node,
 	obj filenames, obj install_dirs, obj install_mode, bool preserve_path);
+void mark_install_targets_optional(struct workspace *wk, uint32_t first);
 #endif
diff --git a/include/lang/object.h b/include/lang/object.h
index 13c2b74..ac154a5 100644
--- a/include/lang/object.h
+++ b/include/lang/object.h
@@ -393,6 +393,7 @@ struct obj_install_target {
 	obj exclude_files; // obj_array of obj_string
 	enum install_target_type type;
 	bool build_target;
+	bool optional; // not built by default, left out when it does not exist
 };
 
 struct obj_environment {
diff --git a/src/cmd_install.c b/src/cmd_install.c
index 5dee6dd..1a667ff 100644
--- a/src/cmd_install.c
+++ b/src/cmd_install.c
@@ -135,6 +135,11 @@ install_iter(struct workspace *wk, void *_ctx, obj v_id)
 		dest = full_dest_dir.buf;
 	}
 
+	if (in->optional && !fs_exists(src)) {
+		LOG_I("skipping '%s', which was not built", src);
+		return ir_cont;
+	}
+
 	switch (in->type) {
 	case install_target_default:
 		LOG_I("install '%s' -> '%s'", src, dest);
@@ -208,7 +213,8 @@ install_iter(struct workspace *wk, void *_ctx, obj v_id)
 			.wk = wk,
 		};
 
-		if (!fs_dir_foreach(src, &ctx, copy_subdir_iter)) {
+		// a source that does not exist stands for an empty directory
+		if (fs_exists(src) && !fs_dir_foreach(src, &ctx, copy_subdir_iter)) {
 			return ir_err;
 		}
 		break;
diff --git a/src/functions/kernel/build_target.c b/src/functions/kernel/build_target.c
index 3d83372..3205596 100644
--- a/src/functions/kernel/build_target.c
+++ b/src/functions/kernel/build_target.c
@@ -767,6 +767,7 @@ create_target(struct workspace *wk, struct args_norm *an, struct args_kw *akw,
 		SBUF(install_dest);
 		path_join(wk, &install_dest, get_cstr(wk, install_dir), get_cstr(wk, tgt->build_name));
 
+		const uint32_t first = get_obj_array(wk, wk->install)->len;
 		struct obj_install_target *install_tgt;
 		if (!(install_tgt = push_install_target(wk, sbuf_into_str(wk, &install_src),
 			sbuf_into_str(wk, &install_dest), akw[bt_kw_install_mode].val))) {
@@ -784,6 +785,10 @@ create_target(struct workspace *wk, struct args_norm *an, struct args_kw *akw,
 			push_install_target_install_dir(wk, plain_name_install,
 				install_dir, akw[bt_kw_install_mode].val);
 		}
+
+		if (!(tgt->flags & build_tgt_flag_build_by_default)) {
+			mark_install_targets_optional(wk, first);
+		}
 	}
 
 	if (!build_tgt_determine_linker(wk, an[0].node, tgt)) {
diff --git a/src/functions/kernel/custom_target.c b/src/functions/kernel/custom_target.c
index df75ca4..047c2c4 100644
--- a/src/functions/kernel/custom_target.c
+++ b/src/functions/kernel/custom_target.c
@@ -741,10 +741,15 @@ func_custom_target(struct workspace *wk, obj _, uint32_t args_node, obj *res)
 			install_dir = i0;
 		}
 
+		const uint32_t first = get_obj_array(wk, wk->install)->len;
 		if (!push_install_targets(wk, akw[kw_install_dir].node, tgt->output,
 			install_dir, install_mode_id, false)) {
 			return false;
 		}
+
+		if (!(tgt->flags & custom_target_build_by_default)) {
+			mark_install_targets_optional(wk, first);
+		}
 	}
 
 	if (!coerce_environment_from_kwarg(wk, &akw[kw_env], false, &tgt->env)) {
diff --git a/src/install.c b/src/install.c
index c3eddde..f4e0add 100644
--- a/src/install.c
+++ b/src/install.c
@@ -257,3 +257,13 @@ push_install_targets(struct workspace *wk, uint32_t err_node,
 	return obj_array_foreach(wk, filenames, &ctx, push_install_targets_iter);
 }
 
+void
+mark_install_targets_optional(struct workspace *wk, uint32_t first)
+{
+	obj id;
+	uint32_t i, len = get_obj_array(wk, wk->install)->len;
+	for (i = first; i < len; ++i) {
+		obj_array_index(wk, wk->install, i, &id);
+		get_obj_install_target(wk, id)->optional = true;
+	}
+}
diff --git a/src/lang/object.c b/src/lang/object.c
index bad40a0..d2c091b 100644
--- a/src/lang/object.c
+++ b/src/lang/object.c
@@ -1598,6 +1598,7 @@ obj_clone(struct workspace *wk_src, struct workspace *wk_dest, obj val, obj *ret
 		o->src = str_clone(wk_src, wk_dest, in->src);
 		o->dest = str_clone(wk_src, wk_dest, in->dest);
 		o->build_target = in->build_target;
+		o->optional = in->optional;
 		o->type = in->type;
 
 		o->has_perm = in->has_perm;
-- 
2.43.0


From 214d6cdfc2530adeecf11d424576706cd842af18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:31:47 +0000
Subject: [PATCH 41/61] fix: fail when .editorconfig cannot be read instead of
 using an unset indentation

---
 include/formats/editorconfig.h |  2 +-
 src/formats/editorconfig.c     |  5 ++++-
 src/lang/fmt.c                 | 11 +++++++----
 3 files changed, 12 insertions(+), 6 deletions(-)

diff --git a/include/formats/editorconfig.h b/include/formats/editorconfig.h
index 7f07d31..466d4b5 100644
--- a/include/formats/editorconfig.h
+++ b/include/formats/editorconfig.h
@@ -12,5 +12,5 @@ struct editorconfig_opts {
 	const char *indent_by;
 };
 
-void try_parse_editorconfig(struct source *src, struct editorconfig_opts *opts);
+bool try_parse_editorconfig(struct source *src, struct editorconfig_opts *opts);
 #endif
diff --git a/src/formats/editorconfig.c b/src/formats/editorconfig.c
index c3cb5c6..faff6ac 100644
--- a/src/formats/editorconfig.c
+++ b/src/formats/editorconfig.c
@@ -278,7 +278,7 @@ editorconfig_cfg_parse_cb(void *_ctx, struct source *src, const char *sect,
 	return true;
 }
 
-void
+bool
 try_parse_editorconfig(struct source *src, struct editorconfig_opts *opts)
 {
 	SBUF_manual(path_abs);
@@ -290,6 +290,7 @@ try_parse_editorconfig(struct source *src, struct editorconfig_opts *opts)
 
 	const char *indent_style = NULL, *indent_size = NULL, *tab_width = NULL;
 	struct source cfg_src = { 0 };
+	bool ret = false;
 
 	struct arr garbage;
 	arr_init(&garbage, 16, sizeof(void *));
@@ -371,6 +372,7 @@ try_parse_editorconfig(struct source *src, struct editorconfig_opts *opts)
 	buf[i] = 0;
 
 	opts->indent_by = buf;
+	ret = true;
 
 ret:
 	for (i = 0; i < garbage.len; ++i) {
@@ -382,4 +384,5 @@ ret:
 	sbuf_destroy(&wd);
 	sbuf_destroy(&path);
 	sbuf_destroy(&path_abs);
+	return ret;
 }
diff --git a/src/lang/fmt.c b/src/lang/fmt.c
index cfe3cfc..3fc3cf5 100644
--- a/src/lang/fmt.c
+++ b/src/lang/fmt.c
@@ -1119,16 +1119,19 @@ fmt(struct source *src, FILE *out, const char *cfg_path, bool check_only, bool e
 		out_buf.buf = (void *)out;
 	}
 
+	char *cfg_buf = NULL;
+	struct source cfg_src = { 0 };
+
 	if (editorconfig) {
-		struct editorconfig_opts editorconfig_opts;
-		try_parse_editorconfig(src, &editorconfig_opts);
+		struct editorconfig_opts editorconfig_opts = { 0 };
+		if (!try_parse_editorconfig(src, &editorconfig_opts)) {
+			goto ret;
+		}
 		if (editorconfig_opts.indent_by) {
 			ctx.indent_by = editorconfig_opts.indent_by;
 		}
 	}
 
-	char *cfg_buf = NULL;
-	struct source cfg_src = { 0 };
 	if (cfg_path) {
 		if (!fs_read_entire_file(cfg_path, &cfg_src)) {
 			goto ret;
-- 
2.43.0


From 8122491fe60169a6687db9414e12c9fee9a4ad9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:34:20 +0000
Subject: [PATCH 42/61] fix: let muon fmt -i replace a file only by its
 complete formatted text

---
 include/platform/filesystem.h     |  2 +
 src/main.c                        | 65 ++++++++++++++++++++-----------
 src/platform/posix/filesystem.c   | 34 ++++++++++++++++
 src/platform/windows/filesystem.c |  7 ++++
 4 files changed, 85 insertions(+), 23 deletions(-)

diff --git a/include/platform/filesystem.h b/include/platform/filesystem.h
index b50ed72..3f52227 100644
--- a/include/platform/filesystem.h
+++ b/include/platform/filesystem.h
@@ -67,6 +67,8 @@ bool fs_copy_metadata(const char *src, const char *dest);
 bool fs_remove(const char *path);
 /* replaces dest if it exists */
 bool fs_rename(const char *src, const char *dest);
+// what path finally points to when it is a symlink, otherwise path
+bool fs_resolve_symlink(struct sbuf *buf, const char *path);
 /* Windows only */
 bool fs_has_extension(const char *path, const char *ext);
 
diff --git a/src/main.c b/src/main.c
index 83c9801..b2d3f6e 100644
--- a/src/main.c
+++ b/src/main.c
@@ -876,6 +876,46 @@ ret:
 	return res;
 }
 
+// The file is replaced once all of the formatted text is there.
+static bool
+format_in_place(struct source *src, const char *cfg_path, bool editorconfig)
+{
+	bool ret = false;
+	FILE *out;
+	struct stat sb;
+	SBUF_manual(path);
+	SBUF_manual(tmp);
+
+	if (!fs_resolve_symlink(&path, src->label) || !fs_stat(path.buf, &sb)) {
+		goto ret;
+	}
+
+	sbuf_pushf(NULL, &tmp, "%s.muon-fmt", path.buf);
+
+	if (fs_exists(tmp.buf) && !fs_remove(tmp.buf)) {
+		goto ret;
+	} else if (!(out = fs_fopen(tmp.buf, "wb"))) {
+		goto ret;
+	}
+
+	ret = fmt(src, out, cfg_path, false, editorconfig);
+
+	if (!fs_fclose(out)) {
+		ret = false;
+	}
+
+	if (!ret) {
+		fs_remove(tmp.buf);
+	} else if (!fs_chmod(tmp.buf, sb.st_mode & 0777) || !fs_rename(tmp.buf, path.buf)) {
+		fs_remove(tmp.buf);
+		ret = false;
+	}
+ret:
+	sbuf_destroy(&path);
+	sbuf_destroy(&tmp);
+	return ret;
+}
+
 static bool
 cmd_format(uint32_t argc, uint32_t argi, char *const argv[])
 {
@@ -918,13 +958,8 @@ cmd_format(uint32_t argc, uint32_t argi, char *const argv[])
 	const uint32_t num_files = argc - argi;
 
 	bool ret = true;
-	bool opened_out;
-	FILE *out;
 	uint32_t i;
 	for (i = 0; i < num_files; ++i) {
-		bool fmt_ret = true;
-		opened_out = false;
-
 		struct source src = { 0 };
 		if (!fs_read_entire_file(opts.filenames[i], &src)) {
 			ret = false;
@@ -932,28 +967,12 @@ cmd_format(uint32_t argc, uint32_t argi, char *const argv[])
 		}
 
 		if (opts.in_place) {
-			if (!(out = fs_fopen(opts.filenames[i], "wb"))) {
-				ret = false;
-				goto cont;
-			}
-			opened_out = true;
-		} else if (opts.check_only) {
-			out = NULL;
+			ret &= format_in_place(&src, opts.cfg_path, opts.editorconfig);
 		} else {
-			out = stdout;
+			ret &= fmt(&src, opts.check_only ? NULL : stdout, opts.cfg_path, opts.check_only, opts.editorconfig);
 		}
-
-		fmt_ret = fmt(&src, out, opts.cfg_path, opts.check_only, opts.editorconfig);
 cont:
-		if (opened_out) {
-			fs_fclose(out);
-
-			if (!fmt_ret) {
-				fs_write(opts.filenames[i], (const uint8_t *)src.src, src.len);
-			}
-		}
 		fs_source_destroy(&src);
-		ret &= fmt_ret;
 	}
 
 	return ret;
diff --git a/src/platform/posix/filesystem.c b/src/platform/posix/filesystem.c
index e1e3658..2ba577f 100644
--- a/src/platform/posix/filesystem.c
+++ b/src/platform/posix/filesystem.c
@@ -298,6 +298,40 @@ fs_rename(const char *src, const char *dest)
 	return true;
 }
 
+bool
+fs_resolve_symlink(struct sbuf *buf, const char *path)
+{
+	char target[BUF_SIZE_4k];
+	ssize_t len;
+	uint32_t i;
+	bool ret = false;
+	SBUF_manual(dir);
+
+	path_copy(NULL, buf, path);
+
+	for (i = 0; i < 40 && fs_symlink_exists(buf->buf); ++i) {
+		if ((len = readlink(buf->buf, target, sizeof(target) - 1)) == -1) {
+			LOG_E("failed readlink(%s): %s", buf->buf, strerror(errno));
+			goto ret;
+		}
+		target[len] = 0;
+
+		if (path_is_absolute(target)) {
+			path_copy(NULL, buf, target);
+		} else {
+			// no normalization: the directory could be a symlink too
+			path_dirname(NULL, &dir, buf->buf);
+			sbuf_clear(buf);
+			sbuf_pushf(NULL, buf, "%s/%s", dir.buf, target);
+		}
+	}
+
+	ret = true;
+ret:
+	sbuf_destroy(&dir);
+	return ret;
+}
+
 bool
 fs_make_symlink(const char *target, const char *path, bool force)
 {
diff --git a/src/platform/windows/filesystem.c b/src/platform/windows/filesystem.c
index 1aa99fd..ae92d02 100644
--- a/src/platform/windows/filesystem.c
+++ b/src/platform/windows/filesystem.c
@@ -531,3 +531,10 @@ fs_rename(const char *src, const char *dest)
 
 	return true;
 }
+
+bool
+fs_resolve_symlink(struct sbuf *buf, const char *path)
+{
+	path_copy(NULL, buf, path);
+	return true;
+}
-- 
2.43.0


From 799821f554ddd2627651fb6b4673c061c34cbd5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:35:02 +0000
Subject: [PATCH 43/61] fix: terminate the copy of an ini file that ends
 without a newline

---
 src/formats/ini.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/formats/ini.c b/src/formats/ini.c
index 714235a..5022c7e 100644
--- a/src/formats/ini.c
+++ b/src/formats/ini.c
@@ -131,7 +131,7 @@ ini_parse(const char *path, struct source *src, char **buf, inihcb cb, void *oct
 		return false;
 	}
 
-	*buf = z_calloc(src->len, 1);
+	*buf = z_calloc(src->len + 1, 1);
 
 	return ini_reparse(path, src, *buf, cb, octx);
 }
@@ -143,7 +143,7 @@ keyval_parse(const char *path, struct source *src, char **buf, inihcb cb, void *
 		return false;
 	}
 
-	*buf = z_calloc(src->len, 1);
+	*buf = z_calloc(src->len + 1, 1);
 
 	struct ini_parse_ctx ctx = {
 		.comment_chars = "#",
-- 
2.43.0


From bfb70b7c8c370142a4db5e992e0d45bb40a97ce5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:40:46 +0000
Subject: [PATCH 44/61] fix: report a wrap-file without source_filename instead
 of dereferencing NULL

---
 src/wrap.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/wrap.c b/src/wrap.c
index cf2580b..5c1cf22 100644
--- a/src/wrap.c
+++ b/src/wrap.c
@@ -618,6 +618,11 @@ wrap_handle_file(struct wrap *wrap, const char *subprojects, bool download)
 {
 	const char *dest;
 
+	if (!wrap->fields[wf_source_filename]) {
+		error_messagef(&wrap->src, 1, 1, log_error, "missing field '%s'", wrap_field_names[wf_source_filename]);
+		return false;
+	}
+
 	if (wrap->fields[wf_lead_directory_missing]) {
 		dest = wrap->dest_dir.buf;
 	} else {
-- 
2.43.0


From 540a68d52c299b043b5b502e7ddc8684907f3f67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:40:46 +0000
Subject: [PATCH 45/61] fix: treat a http error response as a failed download

---
 src/external/libcurl.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/external/libcurl.c b/src/external/libcurl.c
index 7e8b8b8..7166563 100644
--- a/src/external/libcurl.c
+++ b/src/external/libcurl.c
@@ -97,6 +97,11 @@ muon_curl_fetch(const char *url, uint8_t **buf, uint64_t *len)
 		goto err1;
 	}
 
+	/* an error page of the server is not the requested file */
+	if ((err = curl_easy_setopt(curl_handle, CURLOPT_FAILONERROR, 1L)) != CURLE_OK) {
+		goto err1;
+	}
+
 	/* Switch on full protocol/debug output while testing */
 	if ((err = curl_easy_setopt(curl_handle, CURLOPT_VERBOSE, 0L)) != CURLE_OK) {
 		goto err1;
-- 
2.43.0


From 4903b5721f9f35a47e6a7167973943464af4a618 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:41:19 +0000
Subject: [PATCH 46/61] fix: fail when an archive is damaged or cannot be
 extracted completely

Errors were only warned about, an archive that cannot be read was retried
forever, and hard links were looked up outside of the destination.
---
 src/external/libarchive.c | 59 ++++++++++++++++++++++++---------------
 1 file changed, 36 insertions(+), 23 deletions(-)

diff --git a/src/external/libarchive.c b/src/external/libarchive.c
index 8caacd4..59bc29e 100644
--- a/src/external/libarchive.c
+++ b/src/external/libarchive.c
@@ -28,12 +28,14 @@ copy_data(struct archive *ar, struct archive *aw)
 		if ((r = archive_read_data_block(ar, &buff, &size, &offset)) == ARCHIVE_EOF) {
 			return ARCHIVE_OK;
 		} else if (r < ARCHIVE_OK) {
-			return r;
+			LOG_E("error reading archive data: %s", archive_error_string(ar));
+			return ARCHIVE_FATAL;
 		}
 
-		if ((r = archive_write_data_block(aw, buff, size, offset)) < ARCHIVE_OK) {
-			LOG_E("error writing archive data block: %s\n", archive_error_string(aw));
-			return r;
+		// libarchive reports a failed write (e.g. a full disk) as ARCHIVE_WARN
+		if (archive_write_data_block(aw, buff, size, offset) < ARCHIVE_OK) {
+			LOG_E("error writing archive data block: %s", archive_error_string(aw));
+			return ARCHIVE_FATAL;
 		}
 	}
 }
@@ -47,6 +49,7 @@ muon_archive_extract(const char *buf, size_t size, const char *dest_path)
 	struct archive_entry *entry;
 	int flags;
 	int r;
+	SBUF_manual(path);
 
 	/* Select which attributes we want to restore. */
 	flags = ARCHIVE_EXTRACT_TIME;
@@ -63,43 +66,53 @@ muon_archive_extract(const char *buf, size_t size, const char *dest_path)
 
 	if ((r = archive_read_open_memory(a, buf, size))) {
 		// may not work, a might not be initialized ??
-		LOG_E("error opening archive: %s\n", archive_error_string(a));
+		LOG_E("error opening archive: %s", archive_error_string(a));
 		goto ret;
 	}
 
-	SBUF_manual(path);
-
 	while (true) {
 		if ((r = archive_read_next_header(a, &entry)) == ARCHIVE_EOF) {
 			break;
-		} else if (r < ARCHIVE_OK) {
-			LOG_W("%s\n", archive_error_string(a));
 		} else if (r < ARCHIVE_WARN) {
-			LOG_E("%s\n", archive_error_string(a));
+			LOG_E("error reading archive: %s", archive_error_string(a));
 			goto ret;
+		} else if (r < ARCHIVE_OK) {
+			LOG_W("%s", archive_error_string(a));
 		}
 
 		path_join(NULL, &path, dest_path, archive_entry_pathname(entry));
 
 		archive_entry_copy_pathname(entry, path.buf);
 
-		if ((r = archive_write_header(ext, entry)) < ARCHIVE_OK) {
-			LOG_W("%s\n", archive_error_string(ext));
-		} else if (archive_entry_size(entry) > 0) {
-			if ((r = copy_data(a, ext)) < ARCHIVE_OK) {
-				LOG_W("%s\n", archive_error_string(ext));
-			} else if (r < ARCHIVE_WARN) {
-				LOG_E("%s\n", archive_error_string(ext));
-				goto ret;
-			}
+		// the target of a hardlink is named relative to the archive as well
+		const char *hardlink = archive_entry_hardlink(entry);
+		if (hardlink) {
+			path_join(NULL, &path, dest_path, hardlink);
+			archive_entry_copy_hardlink(entry, path.buf);
 		}
 
-		if ((r = archive_write_finish_entry(ext)) < ARCHIVE_OK) {
-			LOG_W("%s\n", archive_error_string(ext));
-		} else if (r < ARCHIVE_WARN) {
-			LOG_E("%s\n", archive_error_string(ext));
+		if ((r = archive_write_header(ext, entry)) < ARCHIVE_WARN) {
+			LOG_E("error extracting archive: %s", archive_error_string(ext));
 			goto ret;
+		} else if (r < ARCHIVE_OK) {
+			LOG_W("%s", archive_error_string(ext));
 		}
+
+		if (archive_entry_size(entry) > 0 && copy_data(a, ext) < ARCHIVE_OK) {
+			goto ret;
+		}
+
+		if ((r = archive_write_finish_entry(ext)) < ARCHIVE_WARN) {
+			LOG_E("error extracting archive: %s", archive_error_string(ext));
+			goto ret;
+		} else if (r < ARCHIVE_OK) {
+			LOG_W("%s", archive_error_string(ext));
+		}
+	}
+
+	if (archive_write_close(ext) < ARCHIVE_WARN) {
+		LOG_E("error extracting archive: %s", archive_error_string(ext));
+		goto ret;
 	}
 
 	res = true;
-- 
2.43.0


From cfe0d4e38921b804591fe7c628fd733ba5456d45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:41:19 +0000
Subject: [PATCH 47/61] fix: make subprojects download fail when a subproject
 could not be fetched

---
 src/main.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/main.c b/src/main.c
index b2d3f6e..dd13e21 100644
--- a/src/main.c
+++ b/src/main.c
@@ -448,6 +448,7 @@ ret:
 
 struct cmd_subprojects_download_ctx {
 	const char *subprojects;
+	bool failed;
 };
 
 static enum iteration_result
@@ -470,6 +471,8 @@ cmd_subprojects_download_iter(void *_ctx, const char *name)
 	LOG_I("fetching %s", name);
 	struct wrap wrap = { 0 };
 	if (!wrap_handle(path.buf, ctx->subprojects, &wrap, true)) {
+		LOG_E("failed to fetch %s", name);
+		ctx->failed = true;
 		goto cont;
 	}
 
@@ -518,6 +521,10 @@ cmd_subprojects_download(uint32_t argc, uint32_t argi, char *const argv[])
 		res = fs_dir_foreach(path.buf, &ctx, cmd_subprojects_download_iter);
 	}
 
+	if (ctx.failed) {
+		res = false;
+	}
+
 ret:
 	sbuf_destroy(&path);
 	return res;
-- 
2.43.0


From bcc6f6d70a51fd9fd5b447dc625fbb3f6fe50101 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:41:35 +0000
Subject: [PATCH 48/61] fix: do not take a partially fetched subproject for a
 complete one

A fetch that was interrupted or failed half way left a directory that was
used as is from then on.
---
 include/wrap.h                    |  1 +
 src/functions/kernel/subproject.c |  7 +++--
 src/wrap.c                        | 50 ++++++++++++++++++++++++++++---
 3 files changed, 51 insertions(+), 7 deletions(-)

diff --git a/include/wrap.h b/include/wrap.h
index a37d9f6..a29d4d1 100644
--- a/include/wrap.h
+++ b/include/wrap.h
@@ -73,5 +73,6 @@ enum wrap_provides_key {
 void wrap_destroy(struct wrap *wrap);
 bool wrap_parse(const char *wrap_file, struct wrap *wrap);
 bool wrap_handle(const char *wrap_file, const char *subprojects, struct wrap *wrap, bool download);
+bool wrap_is_incomplete(const char *wrap_file);
 bool wrap_load_all_provides(struct workspace *wk, const char *subprojects);
 #endif
diff --git a/src/functions/kernel/subproject.c b/src/functions/kernel/subproject.c
index 2228350..09ae0d0 100644
--- a/src/functions/kernel/subproject.c
+++ b/src/functions/kernel/subproject.c
@@ -20,12 +20,13 @@ subproject_prepare(struct workspace *wk, struct sbuf *cwd_buf, const char **cwd,
 	struct sbuf *build_dir_buf, const char **build_dir, bool required,
 	bool *found)
 {
-	if (!fs_dir_exists(*cwd)) {
+	SBUF(wrap_path);
+	sbuf_pushf(wk, &wrap_path, "%s.wrap", *cwd);
+
+	if (!fs_dir_exists(*cwd) || wrap_is_incomplete(wrap_path.buf)) {
 		bool wrap_ok = false;
 
-		SBUF(wrap_path);
 		SBUF(base_path);
-		sbuf_pushf(wk, &wrap_path, "%s.wrap", *cwd);
 
 		if (!fs_file_exists(wrap_path.buf)) {
 			goto wrap_done;
diff --git a/src/wrap.c b/src/wrap.c
index 5c1cf22..b57b01d 100644
--- a/src/wrap.c
+++ b/src/wrap.c
@@ -645,21 +645,50 @@ wrap_handle_file(struct wrap *wrap, const char *subprojects, bool download)
 		);
 }
 
+static void
+wrap_incomplete_marker(struct sbuf *buf, const char *wrap_file)
+{
+	path_copy(NULL, buf, wrap_file);
+	sbuf_pushs(NULL, buf, ".incomplete");
+}
+
+bool
+wrap_is_incomplete(const char *wrap_file)
+{
+	SBUF_manual(incomplete);
+	wrap_incomplete_marker(&incomplete, wrap_file);
+	bool res = fs_file_exists(incomplete.buf);
+	sbuf_destroy(&incomplete);
+	return res;
+}
+
 bool
 wrap_handle(const char *wrap_file, const char *subprojects, struct wrap *wrap, bool download)
 {
-	bool res = false;
+	bool res = false, parsed = false;
 	SBUF_manual(meson_build);
+	SBUF_manual(incomplete);
 
 	if (!wrap_parse(wrap_file, wrap)) {
 		goto ret;
 	}
+	parsed = true;
 
 	path_join(NULL, &meson_build, wrap->dest_dir.buf, "meson.build");
+	wrap_incomplete_marker(&incomplete, wrap_file);
 
-	if (fs_file_exists(meson_build.buf)) {
-		res = true;
-		goto ret;
+	if (!fs_file_exists(incomplete.buf)) {
+		if (fs_file_exists(meson_build.buf)) {
+			res = true;
+			goto ret;
+		}
+
+		/* From here on the subproject may exist partially.  The marker
+		 * tells, and is removed only when everything is in place.
+		 */
+		if (!fs_write(incomplete.buf, (const uint8_t *)"", 0)) {
+			goto ret;
+		}
 	}
 
 	switch (wrap->type) {
@@ -687,9 +716,22 @@ wrap_handle(const char *wrap_file, const char *subprojects, struct wrap *wrap, b
 		goto ret;
 	}
 
+	if (!fs_remove(incomplete.buf)) {
+		goto ret;
+	}
+
 	res = true;
 ret:
+	if (!res && parsed && fs_file_exists(incomplete.buf)) {
+		if (fs_exists(wrap->dest_dir.buf)) {
+			LOG_W("'%s' is incomplete, it may have to be removed before downloading it again", wrap->dest_dir.buf);
+		} else {
+			fs_remove(incomplete.buf);
+		}
+	}
+
 	sbuf_destroy(&meson_build);
+	sbuf_destroy(&incomplete);
 	return res;
 }
 
-- 
2.43.0


From 6f596507e14397193ff505fc2b98c59c43a3a5af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:51:49 +0000
Subject: [PATCH 49/61] fix: return to the outer file when a subproject does
 not start with project()

---
 src/lang/eval.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/lang/eval.c b/src/lang/eval.c
index c7ddae1..6ea43c8 100644
--- a/src/lang/eval.c
+++ b/src/lang/eval.c
@@ -159,7 +159,7 @@ eval(struct workspace *wk, struct source *src, enum eval_mode mode, obj *res)
 
 	if (mode == eval_mode_first) {
 		if (!ensure_project_is_first_statement(wk, ast, false)) {
-			goto ret;
+			goto restore;
 		}
 	}
 
@@ -169,6 +169,7 @@ eval(struct workspace *wk, struct source *src, enum eval_mode mode, obj *res)
 		wk->subdir_done = false;
 	}
 
+restore:
 	wk->src = old_src;
 	wk->ast = old_ast;
 ret:
-- 
2.43.0


From d3f10a96335019c4efde7d176475bff3c014f8ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:17:42 +0000
Subject: [PATCH 50/61] fix: do not crash when a command whose output is
 captured writes none

muon internal exe -c crashed when the command failed silently, and the
compiler detection when a compiler printed nothing.
---
 src/main.c                     | 4 ++--
 src/platform/posix/run_cmd.c   | 5 +++--
 src/platform/windows/run_cmd.c | 5 +++--
 3 files changed, 8 insertions(+), 6 deletions(-)

diff --git a/src/main.c b/src/main.c
index dd13e21..612fb71 100644
--- a/src/main.c
+++ b/src/main.c
@@ -175,8 +175,8 @@ cmd_exe(uint32_t argc, uint32_t argi, char *const argv[])
 	}
 
 	if (ctx.status != 0) {
-		if (opts.capture) {
-			fputs(ctx.err.buf, stderr);
+		if (opts.capture && ctx.err.len) {
+			fwrite(ctx.err.buf, 1, ctx.err.len, stderr);
 		}
 		goto ret;
 	}
diff --git a/src/platform/posix/run_cmd.c b/src/platform/posix/run_cmd.c
index e9c7444..7e6188b 100644
--- a/src/platform/posix/run_cmd.c
+++ b/src/platform/posix/run_cmd.c
@@ -262,8 +262,9 @@ run_cmd_internal(struct run_cmd_ctx *ctx, const char *_cmd, char *const *argv, c
 	}
 
 	if (!(ctx->flags & run_cmd_ctx_flag_dont_capture)) {
-		sbuf_init(&ctx->out, 0, 0, sbuf_flag_overflow_alloc);
-		sbuf_init(&ctx->err, 0, 0, sbuf_flag_overflow_alloc);
+		// never NULL, even if there is no output
+		sbuf_init(&ctx->out, (char *)"", 0, sbuf_flag_overflow_alloc);
+		sbuf_init(&ctx->err, (char *)"", 0, sbuf_flag_overflow_alloc);
 
 		if (!open_run_cmd_pipe(ctx->pipefd_out, ctx->pipefd_out_open)) {
 			goto err;
diff --git a/src/platform/windows/run_cmd.c b/src/platform/windows/run_cmd.c
index b5d30d8..33a4202 100644
--- a/src/platform/windows/run_cmd.c
+++ b/src/platform/windows/run_cmd.c
@@ -326,8 +326,9 @@ open_run_cmd_pipe(struct run_cmd_ctx *ctx)
 		return true;
 	}
 
-	sbuf_init(&ctx->out, 0, 0, sbuf_flag_overflow_alloc);
-	sbuf_init(&ctx->err, 0, 0, sbuf_flag_overflow_alloc);
+	// never NULL, even if there is no output
+	sbuf_init(&ctx->out, (char *)"", 0, sbuf_flag_overflow_alloc);
+	sbuf_init(&ctx->err, (char *)"", 0, sbuf_flag_overflow_alloc);
 
 	if (!open_pipes(ctx, &ctx->pipe_out, "out")) {
 		return false;
-- 
2.43.0


From 3c6b53c89b0315fcbee4be8ebfb07dbc12ba6c59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:42:53 +0000
Subject: [PATCH 51/61] fix: regenerate when a file read by keyval.load() or
 fs.size() changes

keyval.load() also looked for a relative path in the directory muon happens to
run in, which is not the same directory when the build is regenerated.
---
 src/functions/modules/fs.c     | 2 ++
 src/functions/modules/keyval.c | 8 ++++++++
 2 files changed, 10 insertions(+)

diff --git a/src/functions/modules/fs.c b/src/functions/modules/fs.c
index dbbdf03..e8b35cc 100644
--- a/src/functions/modules/fs.c
+++ b/src/functions/modules/fs.c
@@ -361,6 +361,8 @@ func_module_fs_size(struct workspace *wk, obj rcvr, uint32_t args_node, obj *res
 		return false;
 	}
 
+	workspace_add_regenerate_deps(wk, make_str(wk, path.buf));
+
 	uint64_t size;
 	FILE *f;
 	if (!(f = fs_fopen(path.buf, "rb"))) {
diff --git a/src/functions/modules/keyval.c b/src/functions/modules/keyval.c
index 03054ce..c0226a3 100644
--- a/src/functions/modules/keyval.c
+++ b/src/functions/modules/keyval.c
@@ -12,6 +12,7 @@
 #include "lang/typecheck.h"
 #include "platform/filesystem.h"
 #include "platform/mem.h"
+#include "platform/path.h"
 
 struct keyval_parse_ctx {
 	struct workspace *wk;
@@ -36,6 +37,7 @@ func_module_keyval_load(struct workspace *wk, obj rcvr, uint32_t args_node, obj
 		return false;
 	}
 
+	SBUF(abs_path);
 	const char *path = NULL;
 	switch (get_obj_type(wk, an[0].val)) {
 	case obj_file:
@@ -43,11 +45,17 @@ func_module_keyval_load(struct workspace *wk, obj rcvr, uint32_t args_node, obj
 		break;
 	case obj_string:
 		path = get_cstr(wk, an[0].val);
+		if (!path_is_absolute(path)) {
+			path_join(wk, &abs_path, get_cstr(wk, current_project(wk)->cwd), path);
+			path = abs_path.buf;
+		}
 		break;
 	default:
 		UNREACHABLE;
 	}
 
+	workspace_add_regenerate_deps(wk, make_str(wk, path));
+
 	make_obj(wk, res, obj_dict);
 
 	struct keyval_parse_ctx ctx = {
-- 
2.43.0


From 39f358f61f666a08823f521245351f6d8c2c3bb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:42:54 +0000
Subject: [PATCH 52/61] fix: recheck a compiler check of a file when the file
 changes

The file was no dependency of build.ninja, and the check's result was cached
under the file's name alone.
---
 src/functions/compiler.c | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/src/functions/compiler.c b/src/functions/compiler.c
index b95523c..b0cedad 100644
--- a/src/functions/compiler.c
+++ b/src/functions/compiler.c
@@ -128,7 +128,7 @@ add_include_directory_args(struct workspace *wk, struct args_kw *inc, struct bui
 
 static bool
 compiler_check_cache(struct workspace *wk, struct obj_compiler *comp,
-	const char *argstr, uint32_t argc, const char *src,
+	const char *argstr, uint32_t argc, const char *src, bool src_is_path,
 	uint8_t sha_res[32], bool *res, obj *res_val)
 {
 	uint32_t argstr_len;
@@ -162,7 +162,16 @@ compiler_check_cache(struct workspace *wk, struct obj_compiler *comp,
 		calc_sha_256(&sha[sha_idx_ver], ver->s, ver->len);
 	}
 
-	calc_sha_256(&sha[sha_idx_src], src, strlen(src));
+	if (src_is_path) {
+		// the path is part of argstr already, what matters is what it contains
+		struct source file = { 0 };
+		if (fs_file_exists(src) && fs_read_entire_file(src, &file)) {
+			calc_sha_256(&sha[sha_idx_src], file.src, file.len);
+			fs_source_destroy(&file);
+		}
+	} else {
+		calc_sha_256(&sha[sha_idx_src], src, strlen(src));
+	}
 
 	calc_sha_256(sha_res, sha, sha_len);
 
@@ -330,7 +339,7 @@ compiler_check(struct workspace *wk, struct compiler_check_opts *opts,
 	join_args_argstr(wk, &argstr, &argc, compiler_args);
 
 	uint8_t sha[32];
-	if (compiler_check_cache(wk, comp, argstr, argc, src, sha, res, &opts->cache_val)) {
+	if (compiler_check_cache(wk, comp, argstr, argc, src, opts->src_is_path, sha, res, &opts->cache_val)) {
 		opts->from_cache = true;
 		return true;
 	}
@@ -1305,6 +1314,7 @@ func_compiler_check_common(struct workspace *wk, obj rcvr, uint32_t args_node, o
 	case obj_file: {
 		src  = get_file_path(wk, an[0].val);
 		opts.src_is_path = true;
+		workspace_add_regenerate_deps(wk, make_str(wk, src));
 		break;
 	}
 	default:
@@ -1626,6 +1636,7 @@ func_compiler_run(struct workspace *wk, obj rcvr, uint32_t args_node, obj *res)
 	case obj_file: {
 		src  = get_file_path(wk, an[0].val);
 		opts.src_is_path = true;
+		workspace_add_regenerate_deps(wk, make_str(wk, src));
 		break;
 	}
 	default:
-- 
2.43.0


From 80b9b66dfc944ed9f096d584a8c1a8fae1e4b34a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:42:54 +0000
Subject: [PATCH 53/61] fix: fail a required compiler check whose cached result
 is failure

---
 src/functions/compiler.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/functions/compiler.c b/src/functions/compiler.c
index b0cedad..0e15a7f 100644
--- a/src/functions/compiler.c
+++ b/src/functions/compiler.c
@@ -341,7 +341,8 @@ compiler_check(struct workspace *wk, struct compiler_check_opts *opts,
 	uint8_t sha[32];
 	if (compiler_check_cache(wk, comp, argstr, argc, src, opts->src_is_path, sha, res, &opts->cache_val)) {
 		opts->from_cache = true;
-		return true;
+		ret = true;
+		goto ret;
 	}
 
 	opts->cache_key = make_strn(wk, (const char *)sha, 32);
-- 
2.43.0


From 43932c487f8548b68b5d4eedb55e91d46d409d3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:47:06 +0000
Subject: [PATCH 54/61] fix: pass options containing '$' on when build files
 are regenerated

---
 src/backend/ninja/rules.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/backend/ninja/rules.c b/src/backend/ninja/rules.c
index aedffa8..dc9af6f 100644
--- a/src/backend/ninja/rules.c
+++ b/src/backend/ninja/rules.c
@@ -296,7 +296,7 @@ ninja_write_rules(FILE *out, struct workspace *wk, struct project *main_proj,
 		output_path.private_dir
 		);
 
-	obj regen_cmd = join_args_shell(wk, regenerate_build_command(wk, false));
+	obj regen_cmd = join_args_shell_ninja(wk, regenerate_build_command(wk, false));
 
 	fprintf(out,
 		"rule REGENERATE_BUILD\n"
-- 
2.43.0


From 8d6e79b471b1f19c21a6c337eef8c7d83a70c55a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:48:01 +0000
Subject: [PATCH 55/61] fix: quote every character that is special to the shell

---
 src/platform/posix/path.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/platform/posix/path.c b/src/platform/posix/path.c
index 4f2a0f5..e760a97 100644
--- a/src/platform/posix/path.c
+++ b/src/platform/posix/path.c
@@ -31,7 +31,7 @@ path_to_posix(char *path)
 void
 shell_escape(struct workspace *wk, struct sbuf *sb, const char *str)
 {
-	const char *need_escaping = "\"'$ \\><&#\n";
+	const char *need_escaping = "\"'$ \\><&#;|()`*?[~\n\t";
 	const char *s;
 	bool do_esc = false;
 
-- 
2.43.0


From 3fcb3e363231ae17e3f502448ad81933a58e8f9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:02:04 +0000
Subject: [PATCH 56/61] fix: list directories completely, and process their
 entries in a fixed order

---
 src/platform/posix/filesystem.c | 55 +++++++++++++++++++++++++--------
 1 file changed, 42 insertions(+), 13 deletions(-)

diff --git a/src/platform/posix/filesystem.c b/src/platform/posix/filesystem.c
index 2ba577f..3898596 100644
--- a/src/platform/posix/filesystem.c
+++ b/src/platform/posix/filesystem.c
@@ -14,6 +14,7 @@
 #include <dirent.h>
 
 #include "buf_size.h"
+#include "datastructures/arr.h"
 #include "log.h"
 #include "lang/string.h"
 #include "platform/mem.h"
@@ -238,6 +239,12 @@ ret:
 	return res;
 }
 
+static int32_t
+fs_dir_foreach_compare(const void *a, const void *b, void *_ctx)
+{
+	return strcmp(*(char *const *)a, *(char *const *)b);
+}
+
 bool
 fs_dir_foreach(const char *path, void *_ctx, fs_dir_foreach_cb cb)
 {
@@ -249,29 +256,51 @@ fs_dir_foreach(const char *path, void *_ctx, fs_dir_foreach_cb cb)
 		return false;
 	}
 
-	bool loop = true, res = true;
-	while (loop && (ent = readdir(d))) {
+	// The order in which the entries are listed is arbitrary, so it must not
+	// determine the order in which they are processed.
+	struct arr names;
+	arr_init(&names, 32, sizeof(char *));
+
+	bool res = true;
+	uint32_t i;
+
+	while ((errno = 0, ent = readdir(d))) {
 		if (strcmp(ent->d_name, ".") == 0 || strcmp(ent->d_name, "..") == 0) {
 			continue;
 		}
 
-		switch (cb(_ctx, ent->d_name)) {
-		case ir_cont:
-			break;
-		case ir_done:
-			loop = false;
+		size_t len = strlen(ent->d_name) + 1;
+		char *name = z_malloc(len);
+		memcpy(name, ent->d_name, len);
+		arr_push(&names, &name);
+	}
+
+	if (errno) {
+		LOG_E("failed readdir(%s): %s", path, strerror(errno));
+		res = false;
+	}
+
+	if (closedir(d) != 0) {
+		LOG_E("failed closedir(): %s", strerror(errno));
+		res = false;
+	}
+
+	arr_sort(&names, NULL, fs_dir_foreach_compare);
+
+	for (i = 0; res && i < names.len; ++i) {
+		enum iteration_result iter_res = cb(_ctx, *(char **)arr_get(&names, i));
+
+		if (iter_res == ir_done) {
 			break;
-		case ir_err:
-			loop = false;
+		} else if (iter_res == ir_err) {
 			res = false;
-			break;
 		}
 	}
 
-	if (closedir(d) != 0) {
-		LOG_E("failed closedir(): %s", strerror(errno));
-		return false;
+	for (i = 0; i < names.len; ++i) {
+		z_free(*(char **)arr_get(&names, i));
 	}
+	arr_destroy(&names);
 
 	return res;
 }
-- 
2.43.0


From 74708c52bf09e0d8a02f3d6e65d60ccc1b15974f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:02:04 +0000
Subject: [PATCH 57/61] fix: regenerate build files when a wrap file changes

---
 src/wrap.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/wrap.c b/src/wrap.c
index b57b01d..86a21d8 100644
--- a/src/wrap.c
+++ b/src/wrap.c
@@ -756,6 +756,8 @@ wrap_load_all_iter(void *_ctx, const char *file)
 		return ir_cont;
 	}
 
+	workspace_add_regenerate_deps(ctx->wk, make_str(ctx->wk, ctx->path->buf));
+
 	struct wrap wrap = { 0 };
 	if (!wrap_parse(ctx->path->buf, &wrap)) {
 		return ir_err;
-- 
2.43.0


From 83b837c8640ea97913be579be24d8cbdca8f1b85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:15:35 +0000
Subject: [PATCH 58/61] fix: do not count a subproject as found when its build
 directory cannot be created

---
 src/functions/kernel/subproject.c | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/functions/kernel/subproject.c b/src/functions/kernel/subproject.c
index 09ae0d0..a7bfc40 100644
--- a/src/functions/kernel/subproject.c
+++ b/src/functions/kernel/subproject.c
@@ -129,6 +129,12 @@ subproject(struct workspace *wk, obj name, enum requirement_type req, struct arg
 		}
 	}
 
+	if (fs_dir_exists(wk->build_root)) {
+		if (!fs_mkdir_p(build_dir.buf)) {
+			return false;
+		}
+	}
+
 	if (!eval_project(wk, subproj_name, sp_cwd, sp_build_dir, &subproject_id)) {
 		goto not_found;
 	}
@@ -158,12 +164,6 @@ subproject(struct workspace *wk, obj name, enum requirement_type req, struct arg
 	sub->found = true;
 	obj_dict_set(wk, wk->subprojects, name, *res);
 
-	if (fs_dir_exists(wk->build_root)) {
-		if (!fs_mkdir_p(build_dir.buf)) {
-			return false;
-		}
-	}
-
 	return true;
 not_found:
 	if (subproject_id) {
-- 
2.43.0


From efb8e01d86f2d1b4e6d706ed2e17cb8688c55d61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:15:46 +0000
Subject: [PATCH 59/61] fix: fail when the size of a type cannot be determined,
 rather than treating it as unknown

---
 src/functions/compiler.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/functions/compiler.c b/src/functions/compiler.c
index 0e15a7f..5c6c59a 100644
--- a/src/functions/compiler.c
+++ b/src/functions/compiler.c
@@ -556,7 +556,11 @@ func_compiler_sizeof(struct workspace *wk, obj rcvr, uint32_t args_node, obj *re
 		);
 
 	bool ok;
-	if (compiler_check(wk, &opts, src, an[0].node, &ok) && ok) {
+	if (!compiler_check(wk, &opts, src, an[0].node, &ok)) {
+		return false;
+	}
+
+	if (ok) {
 		if (!opts.from_cache) {
 			make_obj(wk, res, obj_number);
 			set_obj_number(wk, *res, compiler_check_parse_output_int(&opts));
-- 
2.43.0


From 9b5f6d03cc9e49eeb0e775ad5bde286187c0cf79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:28:14 +0000
Subject: [PATCH 60/61] fix: do not free an uninitialized buffer when
 configure_file cannot read its input

---
 src/functions/kernel/configure_file.c | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/functions/kernel/configure_file.c b/src/functions/kernel/configure_file.c
index f5daad4..f2c91ed 100644
--- a/src/functions/kernel/configure_file.c
+++ b/src/functions/kernel/configure_file.c
@@ -106,14 +106,13 @@ substitute_config(struct workspace *wk, uint32_t dict, uint32_t in_node, const c
 
 	bool ret = true;
 	struct source src;
+	SBUF_manual(out_buf);
 
 	if (!fs_read_entire_file(in, &src)) {
 		ret = false;
 		goto cleanup;
 	}
 
-	SBUF_manual(out_buf);
-
 	uint32_t i, id_start, id_len,
 		 line = 1, start_of_line = 0, id_start_col = 0, id_start_line = 0;
 	obj elem;
-- 
2.43.0


From d96af840a68d4212c55be8e06690188523a68229 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:28:20 +0000
Subject: [PATCH 61/61] fix: do not fail on a string that is exactly as large
 as a bucket

---
 src/lang/string.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lang/string.c b/src/lang/string.c
index 1059736..85691d4 100644
--- a/src/lang/string.c
+++ b/src/lang/string.c
@@ -77,7 +77,7 @@ reserve_str(struct workspace *wk, obj *s, uint32_t len)
 
 	uint32_t new_len = len + 1;
 
-	if (new_len > wk->chrs.bucket_size) {
+	if (new_len >= wk->chrs.bucket_size) {
 		f |= str_flag_big;
 		p = z_calloc(new_len, 1);
 	} else {
-- 
2.43.0

