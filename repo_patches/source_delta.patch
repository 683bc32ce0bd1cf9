From 180a37af575bee9f2f0158bf17ad33e19fd7d0df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:20 +0000
Subject: [PATCH 01/48] fix: a process killed by a signal has terminated

Pipelines with a killed process never finished, and a continued process
was reported as dumped.
---
 pieshell/signalio/__init__.py    | 2 +-
 pieshell/signalio/signalutils.py | 8 ++++----
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/pieshell/signalio/__init__.py b/pieshell/signalio/__init__.py
index 3755118..507ff18 100644
--- a/pieshell/signalio/__init__.py
+++ b/pieshell/signalio/__init__.py
@@ -52,7 +52,7 @@ class ProcessSignalHandler(SignalHandler):
     def handle_event(self, event):
         log.log("Process event %s" % self.pid, "signal")
         self.last_event = event
-        if event["ssi_code"] == CLD_EXITED:
+        if event["ssi_code"] in (CLD_EXITED, CLD_KILLED, CLD_DUMPED):
             log.log("EXIT %s" % self.pid, "signal")
             #if exception is not None:
             #    self.done_future.set_exception(exception)
diff --git a/pieshell/signalio/signalutils.py b/pieshell/signalio/signalutils.py
index e134f1e..b339a6b 100644
--- a/pieshell/signalio/signalutils.py
+++ b/pieshell/signalio/signalutils.py
@@ -68,16 +68,16 @@ def get_sigchlds():
             if os.WIFEXITED(status):
                 res["ssi_code"] = CLD_EXITED
                 res["ssi_status"] = os.WEXITSTATUS(status)
-            elif os.WCOREDUMP(status):
-                res["ssi_code"] = CLD_DUMPED
-                res["ssi_status"] = os.WTERMSIG(status)
             elif os.WIFCONTINUED(status):
                 res["ssi_code"] = CLD_CONTINUED
             elif os.WIFSTOPPED(status):
                 res["ssi_code"] = CLD_STOPPED
                 res["ssi_status"] = os.WSTOPSIG(status)
             elif os.WIFSIGNALED(status):
-                res["ssi_code"] = CLD_KILLED
+                if os.WCOREDUMP(status):
+                    res["ssi_code"] = CLD_DUMPED
+                else:
+                    res["ssi_code"] = CLD_KILLED
                 res["ssi_status"] = os.WTERMSIG(status)
 
             yield res
-- 
2.43.0


From 86a30cd3eb6f94f42fa2d2121e53aa6aeaf2567d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:20 +0000
Subject: [PATCH 02/48] fix: wake the waiters of a pipeline whose last stage
 raised

handle_finish() was never called if a python function raised after all
other stages had finished, so that wait() never returned.
---
 pieshell/pipeline/running.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/pieshell/pipeline/running.py b/pieshell/pipeline/running.py
index 2bbe1b4..48543c6 100644
--- a/pieshell/pipeline/running.py
+++ b/pieshell/pipeline/running.py
@@ -194,8 +194,12 @@ class RunningItem(BaseRunningItem):
         self.output_content = {}
         asyncio.get_event_loop().create_task(self.await_finish())
     async def await_finish(self):
-        await self.iohandler.wait()
-        self.running_pipeline.handle_finish()
+        try:
+            await self.iohandler.wait()
+        except Exception:
+            pass # Reported by is_failed
+        finally:
+            self.running_pipeline.handle_finish()
     @property
     def is_running(self):
         return self.iohandler.is_running
-- 
2.43.0


From ccd9346531949c74691b74d3cc7050ca55f57a04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:20 +0000
Subject: [PATCH 03/48] fix: finish a pipeline even if its captured output is
 not valid text

A single undecodable byte in the captured stderr made wait() hang forever.
---
 pieshell/pipeline/running.py | 28 ++++++++++++++++------------
 1 file changed, 16 insertions(+), 12 deletions(-)

diff --git a/pieshell/pipeline/running.py b/pieshell/pipeline/running.py
index 48543c6..1b3ccab 100644
--- a/pieshell/pipeline/running.py
+++ b/pieshell/pipeline/running.py
@@ -105,17 +105,21 @@ class RunningPipeline(object):
     def __await__(self):
         return self.wait().__await__()
     def handle_finish(self):
-        if not self.is_running and not self.finished:
-            self.finished = True
-            for proc in self.processes:
-                proc.handle_pipeline_finish()
-            for proc in self.processes:
-                proc.handle_pipeline_finish_destructive()
-            if self in self.pipeline._env.running_pipelines:
-                self.pipeline._env.running_pipelines.remove(self)
-        if self.finish_future is not None:
-            self.finish_future.set_result(None)
-            self.finish_future = None
+        try:
+            if not self.is_running and not self.finished:
+                self.finished = True
+                if self in self.pipeline._env.running_pipelines:
+                    self.pipeline._env.running_pipelines.remove(self)
+                try:
+                    for proc in self.processes:
+                        proc.handle_pipeline_finish()
+                finally:
+                    for proc in self.processes:
+                        proc.handle_pipeline_finish_destructive()
+        finally:
+            if self.finish_future is not None:
+                self.finish_future.set_result(None)
+                self.finish_future = None
                 
     def remove_output_files(self):
         for proc in self.processes:
@@ -213,7 +217,7 @@ class RunningItem(BaseRunningItem):
             if not isinstance(redirect.pipe, redir.STRING): continue
             # Yes, reread the STRING pipe, it can have been modified
             # by another part of the pipeline since we finished.
-            with open(redirect.pipe.path) as f:
+            with open(redirect.pipe.path, errors="replace") as f:
                 self.output_content[fd] = f.read()
     def handle_pipeline_finish_destructive(self):
         for fd, redirect in self.cmd._redirects.redirects.items():
-- 
2.43.0


From 062fdd3e8d543bcaa5dffcb6743b6baa460b3e46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:57 +0000
Subject: [PATCH 04/48] fix: let several tasks wait for the same pipeline

A second call to wait() replaced the future of the first, which then
never returned.
---
 pieshell/pipeline/running.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pieshell/pipeline/running.py b/pieshell/pipeline/running.py
index 1b3ccab..8cb4f59 100644
--- a/pieshell/pipeline/running.py
+++ b/pieshell/pipeline/running.py
@@ -91,8 +91,10 @@ class RunningPipeline(object):
             try:
                 self.restart()
                 while not self.pipeline_suspended and self.is_running:
-                    future = self.finish_future = asyncio.get_event_loop().create_future()
-                    await future
+                    if self.finish_future is None:
+                        self.finish_future = asyncio.get_event_loop().create_future()
+                    # Shielded: the other waiters should survive one being canceled
+                    await asyncio.shield(self.finish_future)
             except KeyboardInterrupt as e:
                 raise PipelineInterrupted(self)
             if self.pipeline_suspended:
-- 
2.43.0


From c4683da321ee867f33ffd2d320e05264f1573106 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:57 +0000
Subject: [PATCH 05/48] fix: waiting for another pipeline does not unregister
 the foreground one

Any non-interactive wait() finishing while an interactive pipeline was in
the foreground made CTRL-Z stop working for the latter.
---
 pieshell/pipeline/running.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pieshell/pipeline/running.py b/pieshell/pipeline/running.py
index 8cb4f59..0b4ba00 100644
--- a/pieshell/pipeline/running.py
+++ b/pieshell/pipeline/running.py
@@ -85,6 +85,7 @@ class RunningPipeline(object):
         for process in self.processes:
             process.suspend()
     async def wait(self):
+        previous_pipeline = stop_signal_handler.current_pipeline
         try:
             if self.pipeline._env._interactive:
                 stop_signal_handler.current_pipeline = self
@@ -103,7 +104,8 @@ class RunningPipeline(object):
             if self.failed_processes:
                 raise PipelineFailed(self)
         finally:
-            stop_signal_handler.current_pipeline = None
+            if stop_signal_handler.current_pipeline is self:
+                stop_signal_handler.current_pipeline = previous_pipeline
     def __await__(self):
         return self.wait().__await__()
     def handle_finish(self):
-- 
2.43.0


From 9020877be4397fdeccac075f856d104eb2b3a44e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:57 +0000
Subject: [PATCH 06/48] fix: do not run a command whose redirections failed

Errors were ignored, and the command was executed with whatever
descriptors happened to be set up.
---
 pieshell/redir.py | 11 +++--------
 1 file changed, 3 insertions(+), 8 deletions(-)

diff --git a/pieshell/redir.py b/pieshell/redir.py
index 2aedc8a..c50548c 100644
--- a/pieshell/redir.py
+++ b/pieshell/redir.py
@@ -203,14 +203,9 @@ class Redirects(object):
         log.log("After move: %s" % repr(Redirects(*redirects)), "fd")
         return redirects
     def perform(self):
-        try:
-            for redirect in self.move_existing_fds():
-                redirect.perform()
-            self.close_other_fds()
-        except Exception as e:
-            import traceback
-            log.log(e, "fd")
-            log.log(traceback.format_exc(), "fd")
+        for redirect in self.move_existing_fds():
+            redirect.perform()
+        self.close_other_fds()
     def close_other_fds(self):
         # FIXME: Use os.closerange if available
         for i in range(0, MAXFD):
-- 
2.43.0


From c920115a1d4129067d1fed61e4702f8186a061c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:57 +0000
Subject: [PATCH 07/48] fix: never let a forked child run the code of its
 parent

The child unwound into the code that started the pipeline if writing the
error message failed, or when a subshell finished (sys.exit()). A
subshell whose failed process was not its last one exited with 0.
---
 pieshell/pipeline/builtins.py |  2 +-
 pieshell/pipeline/command.py  | 13 +++++++++----
 2 files changed, 10 insertions(+), 5 deletions(-)

diff --git a/pieshell/pipeline/builtins.py b/pieshell/pipeline/builtins.py
index 9dacdda..61f80a2 100644
--- a/pieshell/pipeline/builtins.py
+++ b/pieshell/pipeline/builtins.py
@@ -189,7 +189,7 @@ class SubShell(command.Command, builtin.Builtin):
         except Exception as e:
             sys.stderr.write(str(e))
             if isinstance(e, running.PipelineError):
-                sys.exit(e.pipeline.exit_code)
+                sys.exit(e.pipeline.exit_code or 1)
             sys.exit(1)
         sys.exit(0)
 
diff --git a/pieshell/pipeline/command.py b/pieshell/pipeline/command.py
index 5729027..625cdaf 100644
--- a/pieshell/pipeline/command.py
+++ b/pieshell/pipeline/command.py
@@ -226,11 +226,16 @@ class Command(command.BaseCommand):
             ecode = -1
             try:
                 self._child(redirects, args)
-            except Exception as e:
+            except SystemExit as e:
+                if e.code is None or isinstance(e.code, int):
+                    ecode = e.code or 0
+                sys.stdout.flush()
+            except BaseException as e:
+                ecode = getattr(e, "errno", None) or ecode
                 sys.stderr.write("Unable to execute %s: %s\n" % (repr(self), e))
-                ecode = getattr(e, "errno", ecode)
-            # If we ever get to here, all is lost...
-            os._exit(ecode)
+            finally:
+                # If we ever get to here, all is lost...
+                os._exit(ecode)
 
         log.log(indentation + "  %s: Command line %s with %s" % (pid, ' '.join(repr(arg) for arg in args), repr(redirects)), "cmd")
 
-- 
2.43.0


From 2cc16497c1708945b7279ae920c6d0238fe73c4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:28 +0000
Subject: [PATCH 08/48] fix: allow several redirections from the same
 descriptor

The source descriptor was closed once moved, so a second redirection
from it, e.g. Redirect("stderr", 1), failed.
---
 pieshell/redir.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pieshell/redir.py b/pieshell/redir.py
index c50548c..4d47b44 100644
--- a/pieshell/redir.py
+++ b/pieshell/redir.py
@@ -113,8 +113,8 @@ class Redirect(object):
         if isinstance(self.source, int):
             log.log("move dup2(%s, %s)" % (self.source, fd), "fd")
             os.dup2(self.source, fd)
-            log.log("move close(%s)" % (self.source), "fd")
-            os.close(self.source)
+            # Not closed here, as several redirects can have the same
+            # source. Redirects.close_other_fds() takes care of it.
             self.source = fd
         return self
     def make_pipe(self):
-- 
2.43.0


From c52bf07d0490b7a05eda3ba22c0dd9a4a1e4b6d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:29 +0000
Subject: [PATCH 09/48] fix: do not close descriptors the user redirects to

Running e.g. cmd | Redirect("stderr", 1) closed descriptor 1 of the shell.
---
 pieshell/pipeline/base.py | 2 ++
 pieshell/redir.py         | 3 ++-
 2 files changed, 4 insertions(+), 1 deletion(-)

diff --git a/pieshell/pipeline/base.py b/pieshell/pipeline/base.py
index c32aea3..7b59018 100644
--- a/pieshell/pipeline/base.py
+++ b/pieshell/pipeline/base.py
@@ -95,6 +95,7 @@ class Pipeline(DescribableObject):
             thing = redir.Redirect(direction, thing)
         if isinstance(thing, redir.Redirect):
             thing = redir.Redirects(thing, defaults=False)
+            thing.borrow()
         if not isinstance(thing, Pipeline) and (isinstance(thing, (types.FunctionType, types.MethodType))
                                                 or hasattr(thing, "__iter__")
                                                 or hasattr(thing, "__next__")):
@@ -145,6 +146,7 @@ class Pipeline(DescribableObject):
         a RunningPipeline instance."""
         if not isinstance(redirects, redir.Redirects):
             redirects = redir.Redirects(self._env._redirects, *redirects)
+            redirects.borrow()
         with copy.copy_session() as sess:
             self = copy.deepcopy(self)
             processes = self._run(redirects, sess)
diff --git a/pieshell/redir.py b/pieshell/redir.py
index 4d47b44..e1e1357 100644
--- a/pieshell/redir.py
+++ b/pieshell/redir.py
@@ -82,7 +82,8 @@ class Redirect(object):
         self.pipe = pipe
         self.borrowed = borrowed
     def borrow(self):
-        self.borrowed = True
+        if isinstance(self.source, int):
+            self.borrowed = True
     def __deepcopy__(self, memo = {}):
         return type(self)(self.fd, copy.deepcopy(self.source), self.flag, self.mode, self.pipe, self.borrowed)
 
-- 
2.43.0


From 7e62c9ab921da059c9a4b9d8f4358665da9326a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:29 +0000
Subject: [PATCH 10/48] fix: pass the session on when running a redirected
 pipeline

---
 pieshell/pipeline/redirect.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pieshell/pipeline/redirect.py b/pieshell/pipeline/redirect.py
index c85aab5..5c5c3a1 100644
--- a/pieshell/pipeline/redirect.py
+++ b/pieshell/pipeline/redirect.py
@@ -38,6 +38,6 @@ class CmdRedirect(base.Pipeline):
 
         log.log(indentation + "Running [%s] with %s" % (repr(self), repr(redirects)), "cmd")
 
-        res = self.pipeline._run(redirects.merge(self.cmd_redirects), indentation + "  ")
+        res = self.pipeline._run(redirects.merge(self.cmd_redirects), sess, indentation + "  ")
         self._redirects = self.pipeline._redirects
         return res
-- 
2.43.0


From 9d6d534dad3f9d4a296855bfc3087a46176491d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:29 +0000
Subject: [PATCH 11/48] fix: let both parts of a group write to the same pipe

Each part created a pipe of its own, and the output of the first was lost.
---
 pieshell/pipeline/group.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pieshell/pipeline/group.py b/pieshell/pipeline/group.py
index 9ed6b1c..a556c3d 100644
--- a/pieshell/pipeline/group.py
+++ b/pieshell/pipeline/group.py
@@ -36,6 +36,7 @@ class Group(base.Pipeline):
     def _run(self, redirects, sess, indentation = ""):
         base.Pipeline._run(self, redirects, sess, indentation)
 
+        redirects = redirects.make_pipes()
         child_redirects = redir.Redirects(redirects)
         child_redirects.borrow()
 
@@ -43,7 +44,7 @@ class Group(base.Pipeline):
         a = self.a._run(child_redirects, sess, indentation + "  ")
         b = self.b._run(child_redirects, sess, indentation + "  ")
 
-        self._redirects = self.a._redirects.merge(self.b._redirects)
+        self._redirects = redirects
 
         redirects.close_source_fds()
 
-- 
2.43.0


From e685715d1bd5b3d286c039bbba88d1aac76fd83f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:33 +0000
Subject: [PATCH 12/48] fix: close descriptors overridden by a redirection

The read end of the pipe in e.g. a | (b | Redirect("stdin", "file")) was
never closed, so that a could hang.
---
 pieshell/pipeline/redirect.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pieshell/pipeline/redirect.py b/pieshell/pipeline/redirect.py
index 5c5c3a1..b7de1c2 100644
--- a/pieshell/pipeline/redirect.py
+++ b/pieshell/pipeline/redirect.py
@@ -40,4 +40,9 @@ class CmdRedirect(base.Pipeline):
 
         res = self.pipeline._run(redirects.merge(self.cmd_redirects), sess, indentation + "  ")
         self._redirects = self.pipeline._redirects
+
+        for fd, redirect in redirects.redirects.items():
+            if fd in self.cmd_redirects.redirects:
+                redirect.close_source_fd()
+
         return res
-- 
2.43.0


From 05a5e54fc6185fe6e70301099ed1aee7bf52f292 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:33 +0000
Subject: [PATCH 13/48] fix: mark builtins as started and close their
 descriptors

Displaying a builtin that had been run ran it again, and a pipe into a
builtin was never closed.
---
 pieshell/pipeline/builtin.py  | 7 +++++++
 pieshell/pipeline/builtins.py | 7 +++++++
 2 files changed, 14 insertions(+)

diff --git a/pieshell/pipeline/builtin.py b/pieshell/pipeline/builtin.py
index 0d7edaa..76bb36f 100644
--- a/pieshell/pipeline/builtin.py
+++ b/pieshell/pipeline/builtin.py
@@ -1,3 +1,4 @@
+from . import base
 from . import command
 
 class BuiltinRegistry(object):
@@ -14,5 +15,11 @@ class BuiltinRegistry(object):
         return cls.builtins[name]
 
 class Builtin(command.BaseCommand):
+    def _start(self, redirects, sess, indentation = ""):
+        """Called first by _run() of builtins that do not pass redirects
+        on to another pipeline."""
+        base.Pipeline._run(self, redirects, sess, indentation)
+        self._redirects = redirects
+        redirects.close_source_fds()
     def _run(self, redirects, sess, indentation = ""):
         raise NotImplemented
diff --git a/pieshell/pipeline/builtins.py b/pieshell/pipeline/builtins.py
index 61f80a2..c987ddf 100644
--- a/pieshell/pipeline/builtins.py
+++ b/pieshell/pipeline/builtins.py
@@ -7,6 +7,7 @@ import sys
 import base64
 import pickle
 
+from . import base
 from . import command
 from . import builtin
 from . import running
@@ -28,6 +29,7 @@ class CdBuiltin(builtin.Builtin):
         return pth
 
     def _run(self, redirects, sess, indentation = ""):
+        self._start(redirects, sess, indentation)
         self._env._cd(self._path)
         return []
 
@@ -48,6 +50,7 @@ class BgBuiltin(builtin.Builtin):
     name = "bg"
 
     def _run(self, redirects, sess, indentation = ""):
+        self._start(redirects, sess, indentation)
         pipeline = self._env.last_pipeline
         if len(self._arg) > 1:
             pipeline = self._arg[1]
@@ -74,6 +77,7 @@ class FgBuiltin(builtin.Builtin):
     name = "fg"
 
     def _run(self, redirects, sess, indentation = ""):
+        self._start(redirects, sess, indentation)
         pipeline = self._env.last_pipeline
         if len(self._arg) > 1:
             pipeline = self._arg[1]
@@ -85,6 +89,7 @@ class ClearDirCacheBuiltin(builtin.Builtin):
     name = "clear_dir_cache"
 
     def _run(self, redirects, sess, indentation = ""):
+        self._start(redirects, sess, indentation)
         self.env._clear_dir_cache()
         return []
 
@@ -149,6 +154,7 @@ class BashSource(builtin.Builtin):
     name = "bashsource"
 
     def _run(self, redirects, sess, indentation = ""):
+        base.Pipeline._run(self, redirects, sess, indentation)
         args = []
         for arg in self._arg[1:]:
             for exp in self._env._expand_argument(arg):
@@ -197,6 +203,7 @@ class Remote(builtin.Builtin):
     name = "remote"
 
     def _run(self, redirects, sess, indentation = ""):
+        base.Pipeline._run(self, redirects, sess, indentation)
         cmd = base64.b64encode(pickle.dumps(self._arg[-1])).decode("ascii")
         sshcmd = "pieshell --pcmd='%s'" % cmd
         self._cmd = self._env.ssh(
-- 
2.43.0


From 54c123e6097b02cbb100ba5a315b24ae5d9f9406 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:13 +0000
Subject: [PATCH 14/48] fix: accept async iterables as pipeline sources

---
 pieshell/pipeline/base.py    | 3 ++-
 pieshell/pipeline/command.py | 2 +-
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/pieshell/pipeline/base.py b/pieshell/pipeline/base.py
index 7b59018..f18e013 100644
--- a/pieshell/pipeline/base.py
+++ b/pieshell/pipeline/base.py
@@ -98,7 +98,8 @@ class Pipeline(DescribableObject):
             thing.borrow()
         if not isinstance(thing, Pipeline) and (isinstance(thing, (types.FunctionType, types.MethodType))
                                                 or hasattr(thing, "__iter__")
-                                                or hasattr(thing, "__next__")):
+                                                or hasattr(thing, "__next__")
+                                                or hasattr(thing, "__aiter__")):
             thing = function.Function(self._env, thing)
         if not isinstance(thing, (Pipeline, redir.Redirects)):
             raise ValueError(type(thing))
diff --git a/pieshell/pipeline/command.py b/pieshell/pipeline/command.py
index 625cdaf..2647c8e 100644
--- a/pieshell/pipeline/command.py
+++ b/pieshell/pipeline/command.py
@@ -186,7 +186,7 @@ class Command(command.BaseCommand):
         elif isinstance(thing, (types.FunctionType, types.MethodType)):
             thing = function.Function(self._env, thing)
             direction = "stdin"
-        elif hasattr(thing, "__iter__") or hasattr(thing, "__next__"):
+        elif hasattr(thing, "__iter__") or hasattr(thing, "__next__") or hasattr(thing, "__aiter__"):
             thing = function.Function(self._env, thing)
             direction = "stdout"
         else:
-- 
2.43.0


From 0c5979faaee49d2c24cf6b7daa07cb0ee2272c06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:13 +0000
Subject: [PATCH 15/48] fix: default redirects of an environment do not exist
 in python 3 and are not shared with derived ones

---
 pieshell/environ.py | 4 ++--
 pieshell/redir.py   | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/pieshell/environ.py b/pieshell/environ.py
index 605fb63..48d3020 100644
--- a/pieshell/environ.py
+++ b/pieshell/environ.py
@@ -119,7 +119,7 @@ class Environment(object):
         if interactive is None:
             interactive = self._interactive
         if redirects is None:
-            redirects = self._redirects
+            redirects = redir.Redirects(self._redirects)
         res = type(self)(cwd = self._cwd, exports = exports, interactive = interactive, redirects = redirects)
         if cwd is not None:
             res._cd(cwd)
@@ -139,7 +139,7 @@ class Environment(object):
     def _coerce(self, thing, direction):
         if thing is None:
             thing = "/dev/null"
-        if isinstance(thing, (str, unicode)):
+        if isinstance(thing, str):
             thing = redir.Redirect(direction, thing)
         if isinstance(thing, redir.Redirect):
             thing = redir.Redirects(thing, defaults=False)
diff --git a/pieshell/redir.py b/pieshell/redir.py
index e1e1357..237c73f 100644
--- a/pieshell/redir.py
+++ b/pieshell/redir.py
@@ -232,7 +232,7 @@ class Redirects(object):
     def _coerce(cls, thing, direction):
         if thing is None:
             thing = "/dev/null"
-        if isinstance(thing, (str, unicode)):
+        if isinstance(thing, str):
             thing = Redirect(direction, thing)
         if isinstance(thing, Redirect):
             thing = Redirects(thing)
-- 
2.43.0


From f6a42f74bfb4da2e8f87de475f3249674ba7db1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:13 +0000
Subject: [PATCH 16/48] fix: an environment with no exports does not use those
 of the process

---
 pieshell/environ.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pieshell/environ.py b/pieshell/environ.py
index 48d3020..64b809c 100644
--- a/pieshell/environ.py
+++ b/pieshell/environ.py
@@ -61,7 +61,9 @@ class Environment(object):
         self.running_pipelines = utils.LineList()
     @property
     def _exports(self):
-        return self._exports_value or os.environ
+        if self._exports_value is None:
+            return os.environ
+        return self._exports_value
     @_exports.setter
     def _exports(self, exports):
         self._exports_value = exports
-- 
2.43.0


From 7472f68e3822b2a0c037c4283a7985791875be3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:56 +0000
Subject: [PATCH 17/48] fix: environments and redirections of started pipelines
 can be pickled

---
 pieshell/environ.py | 7 +++++--
 pieshell/redir.py   | 4 ++--
 2 files changed, 7 insertions(+), 4 deletions(-)

diff --git a/pieshell/environ.py b/pieshell/environ.py
index 64b809c..47b6bbc 100644
--- a/pieshell/environ.py
+++ b/pieshell/environ.py
@@ -20,6 +20,8 @@ class R(object):
     def __init__(self, str):
         self.str = str
     def __getattr__(self, name):
+        if name == "str":
+            raise AttributeError(name)
         return getattr(self.str, name)
     def __iter__(self):
         return iter(self.str)
@@ -193,9 +195,10 @@ class Environment(object):
     def __getstate__(self):
         def mangle(k, v):
             if k == "_scope": return None
-            if k == "last_pipeline": return v.pipeline
+            if k == "running_pipelines": return utils.LineList()
             return v
-        return {k: mangle(k, v) for k, v in self.__dict__.items()}
+        # What is running is local to this process
+        return {k: mangle(k, v) for k, v in self.__dict__.items() if k != "last_pipeline"}
 
 env = Environment()
 
diff --git a/pieshell/redir.py b/pieshell/redir.py
index 237c73f..7650e75 100644
--- a/pieshell/redir.py
+++ b/pieshell/redir.py
@@ -25,10 +25,10 @@ class SpecialRedirect(object):
     def __init__(self, **kws):
         object.__setattr__(self, "kws", kws)
     def __getattr__(self, name):
-        if name not in self.kws:
+        if name == "kws" or name not in self.kws:
             raise AttributeError(name)
         return self.kws[name]
-    def __setattr__(self, name):
+    def __setattr__(self, name, value):
         self.kws[name] = value
     def __str__(self):
         return repr(self)
-- 
2.43.0


From 75d3dac8925dca6059ab98a4b0226f4bfa0e3f56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:56 +0000
Subject: [PATCH 18/48] fix: complete names even if PATH lists a directory that
 does not exist

---
 pieshell/environ.py | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/pieshell/environ.py b/pieshell/environ.py
index 47b6bbc..73cb01b 100644
--- a/pieshell/environ.py
+++ b/pieshell/environ.py
@@ -169,14 +169,18 @@ class Environment(object):
     def __dir__(self):
         if self._dir_cache is None:
             e = self._exports
-            self._dir_cache = []
-            paths = e["PATH"].split(":")
+            names = []
+            paths = e.get("PATH", os.defpath).split(":")
             for pth in paths:
                 if not pth.startswith("/"):
                     pth = os.path.join(self._cwd, pth)
-                self._dir_cache.extend(os.listdir(os.path.abspath(pth)))
-            self._dir_cache.extend(pipeline.BuiltinRegistry.builtins.keys())
-            self._dir_cache.sort()
+                try:
+                    names.extend(os.listdir(os.path.abspath(pth)))
+                except OSError:
+                    pass # PATH can list directories that don't exist
+            names.extend(pipeline.BuiltinRegistry.builtins.keys())
+            names.sort()
+            self._dir_cache = names
         return self._dir_cache
     @contextlib.contextmanager
     def temporary_env(self, env):
-- 
2.43.0


From 63e2e757705fc416989d4eba6249d694cdae722c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:56 +0000
Subject: [PATCH 19/48] fix: a failed cd does not change the directory of the
 environment

---
 pieshell/environ.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pieshell/environ.py b/pieshell/environ.py
index 73cb01b..52a3daf 100644
--- a/pieshell/environ.py
+++ b/pieshell/environ.py
@@ -100,9 +100,11 @@ class Environment(object):
         cwd = self._expand_path(cwd)
         if not os.path.exists(cwd):
             raise IOError("Path does not exist: %s" % cwd)
-        self._cwd = cwd
+        if not os.path.isdir(cwd):
+            raise NotADirectoryError("Path is not a directory: %s" % cwd)
         if self._interactive:
             os.chdir(cwd)
+        self._cwd = cwd
         return self
     def __call__(self, cwd = None, exports = None, interactive = None, redirects = None):
         """Creates a new environment based on the current ones. All
-- 
2.43.0


From 2867666abf474e0ead1a72d68aba31c6c4b9076e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:56 +0000
Subject: [PATCH 20/48] fix: execute scripts that are package resources

---
 pieshell/environ.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pieshell/environ.py b/pieshell/environ.py
index 52a3daf..43e77a2 100644
--- a/pieshell/environ.py
+++ b/pieshell/environ.py
@@ -269,6 +269,8 @@ class EnvScope(dict):
             f = open(filename)
         with f as f:
             content = f.read()
+        if isinstance(content, bytes):
+            content = content.decode("utf-8")
         code.InteractiveConsole(locals=self).runsource(content, filename, "exec")
 
     def execute_expr(self, expr):
-- 
2.43.0


From 72425d317d8f64e8b1104be5e86b597af4e0fdf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:56 +0000
Subject: [PATCH 21/48] fix: programs do not inherit a blocked SIGCHLD and
 SIGTSTP

---
 pieshell/pipeline/command.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pieshell/pipeline/command.py b/pieshell/pipeline/command.py
index 2647c8e..f0f964c 100644
--- a/pieshell/pipeline/command.py
+++ b/pieshell/pipeline/command.py
@@ -175,6 +175,8 @@ class Command(command.BaseCommand):
     def _child(self, redirects, args):
         redirects.perform()
         os.chdir(self._env._cwd)
+        # The signals read using signalfd are blocked in this process
+        signal.pthread_sigmask(signal.SIG_UNBLOCK, (signal.SIGCHLD, signal.SIGTSTP))
         os.execvpe(args[0], args, self._env._exports)
 
     def _handle_arg_pipes(self, thing, orig_redirects, redirects, sess, indentation):
-- 
2.43.0


From edaffa876e0827078c00620e30231b12fb822497 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:56 +0000
Subject: [PATCH 22/48] fix: deliver SIGTSTP when signalfd is not available

---
 pieshell/signalio/manager_asyncio.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pieshell/signalio/manager_asyncio.py b/pieshell/signalio/manager_asyncio.py
index 6eb38b6..49cc730 100644
--- a/pieshell/signalio/manager_asyncio.py
+++ b/pieshell/signalio/manager_asyncio.py
@@ -12,7 +12,7 @@ class SignalManager(object):
         self.mask = mask
         self.signal_handlers = {}
         for signo in mask:
-            asyncio.get_event_loop().add_signal_handler(signo, lambda: self.handle_event(signo))
+            asyncio.get_event_loop().add_signal_handler(signo, self.handle_event, signo)
         
     def filter_to_key(self, flt):
         key = sorted(flt.items(), key=lambda item: item[0])
@@ -60,7 +60,7 @@ class SignalManager(object):
         # gets squashed into just one delivered signal event by
         # Linux...
         siginfos = [siginfo]
-        if siginfo["ssi_signo"] == signal.SIGCHLD or siginfo["ssi_signo"] == signal.SIGTSTP:
+        if siginfo["ssi_signo"] == signal.SIGCHLD:
             siginfos = signalutils.get_sigchlds()
 
         for siginfo in siginfos:
-- 
2.43.0


From fefb72104095c3d0facbd39ec855784ad2a39013 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:56 +0000
Subject: [PATCH 23/48] fix: clear_dir_cache clears the cache

---
 pieshell/pipeline/builtin.py  |  1 +
 pieshell/pipeline/builtins.py | 12 ++----------
 2 files changed, 3 insertions(+), 10 deletions(-)

diff --git a/pieshell/pipeline/builtin.py b/pieshell/pipeline/builtin.py
index 76bb36f..af77a15 100644
--- a/pieshell/pipeline/builtin.py
+++ b/pieshell/pipeline/builtin.py
@@ -21,5 +21,6 @@ class Builtin(command.BaseCommand):
         base.Pipeline._run(self, redirects, sess, indentation)
         self._redirects = redirects
         redirects.close_source_fds()
+
     def _run(self, redirects, sess, indentation = ""):
         raise NotImplemented
diff --git a/pieshell/pipeline/builtins.py b/pieshell/pipeline/builtins.py
index c987ddf..9fa6162 100644
--- a/pieshell/pipeline/builtins.py
+++ b/pieshell/pipeline/builtins.py
@@ -90,19 +90,11 @@ class ClearDirCacheBuiltin(builtin.Builtin):
 
     def _run(self, redirects, sess, indentation = ""):
         self._start(redirects, sess, indentation)
-        self.env._clear_dir_cache()
+        self._env._clear_dir_cache()
         return []
 
     def __dir__(self):
-        if self._arg[1:]:
-            pth = self.env._expand_path(self._path)
-        else:
-            pth = "."
-        try:
-            return [name for name in os.listdir(pth)
-                    if os.path.isdir(os.path.join(pth, name))]
-        except:
-            return []
+        return []
 
 def parse_declares(data):
     l = shlex.shlex(io.StringIO(data), posix=True)
-- 
2.43.0


From eaf58eb503af1d905c243fc7b5f07da422c96ca5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:56 +0000
Subject: [PATCH 24/48] fix: --log turns on logging instead of raising
 AttributeError

---
 pieshell/shell.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pieshell/shell.py b/pieshell/shell.py
index 0b0763c..57f5cd2 100644
--- a/pieshell/shell.py
+++ b/pieshell/shell.py
@@ -61,7 +61,7 @@ Where OPTIONS are any of
     else:
         if 'log' in kws:
             for name in kws['log'].split(','):
-                log.debug[name] = True
+                log.logging.getLogger(name).setLevel(log.logging.INFO)
 
         with environ.envScope:
             environ.envScope["args"] = args
-- 
2.43.0


From f45ef115cba3ce187910922772ce4648c5524287 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:56 +0000
Subject: [PATCH 25/48] fix: utils.jsonutils.filter raised NameError

---
 pieshell/utils/jsonutils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pieshell/utils/jsonutils.py b/pieshell/utils/jsonutils.py
index caf82e7..c29a6dc 100644
--- a/pieshell/utils/jsonutils.py
+++ b/pieshell/utils/jsonutils.py
@@ -17,7 +17,7 @@ def filter(func):
                 yield None
             elif func(item):
                 yield item
-    apply_map.__name__ = "filter(%s)" % (func.__name__,)
+    apply_filter.__name__ = "filter(%s)" % (func.__name__,)
     return apply_filter
 
 from_json = map(json.loads)
-- 
2.43.0


From f98de11ea4f4185ef3a5cc470c9f22c7fc7aa9d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:56 +0000
Subject: [PATCH 26/48] fix: quote the names of files sourced by bashsource

---
 pieshell/pipeline/builtins.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pieshell/pipeline/builtins.py b/pieshell/pipeline/builtins.py
index 9fa6162..503f64b 100644
--- a/pieshell/pipeline/builtins.py
+++ b/pieshell/pipeline/builtins.py
@@ -150,7 +150,7 @@ class BashSource(builtin.Builtin):
         args = []
         for arg in self._arg[1:]:
             for exp in self._env._expand_argument(arg):
-                args.append("source '%s'" % (exp,))
+                args.append("source %s" % (shlex.quote(str(exp)),))
         args.append("{ declare -x; declare -f; } > $0")
         self._cmd = self._env.bash(
             "-l", "-i", "-c",
-- 
2.43.0


From afbc52482ad73e18b415414e6589b200cad08f66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:56 +0000
Subject: [PATCH 27/48] fix: do not list pipelines that finished at once as
 running

---
 pieshell/pipeline/base.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pieshell/pipeline/base.py b/pieshell/pipeline/base.py
index f18e013..8ce2a35 100644
--- a/pieshell/pipeline/base.py
+++ b/pieshell/pipeline/base.py
@@ -153,7 +153,8 @@ class Pipeline(DescribableObject):
             processes = self._run(redirects, sess)
         pipeline = running.RunningPipeline(processes, self)
         self._env.last_pipeline = pipeline
-        self._env.running_pipelines.append(pipeline)
+        if not pipeline.finished:
+            self._env.running_pipelines.append(pipeline)
         return pipeline
     
     async def async_run_interactive(self):
-- 
2.43.0


From 87b3bfa8a8fbeb048c3323cdd91578c991fa141c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:56 +0000
Subject: [PATCH 28/48] fix: expand variables of the module in arguments of
 commands in a pysh module

---
 pieshell/module.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pieshell/module.py b/pieshell/module.py
index a41fe6a..ecc1479 100644
--- a/pieshell/module.py
+++ b/pieshell/module.py
@@ -21,6 +21,7 @@ class Loader(object):
         if fullname not in sys.modules:
             env = environ.envScope["env"]()
             scope = environ.EnvScope(env=env)
+            env._scope = scope
             sys.modules[fullname] = Module(scope, fullname.split(".")[-1])
         sys.modules[fullname]._scope.execute_file(self.path)
         return sys.modules[fullname]
-- 
2.43.0


From a5aeb7033e6c48e8b8cc475367b07fbb1da96414 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:56 +0000
Subject: [PATCH 29/48] fix: programs do not inherit the log file descriptor

---
 pieshell/log.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pieshell/log.py b/pieshell/log.py
index c3cbb21..dc70462 100644
--- a/pieshell/log.py
+++ b/pieshell/log.py
@@ -30,6 +30,6 @@ elif hasattr(sys.stderr, "fileno"):
 else:
     outfd = 1
 logfd = resource.getrlimit(resource.RLIMIT_NOFILE)[0] - 1
-os.dup2(outfd, logfd)
+os.dup2(outfd, logfd, False)
 def log(msg, category="misc"):
     logging.getLogger(category).error(msg)
-- 
2.43.0


From c480470cafc803b45d2a55837e1d64097b18387f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:56 +0000
Subject: [PATCH 30/48] fix: raise an exception that can be raised from
 abstract methods

---
 pieshell/pipeline/builtin.py | 2 +-
 pieshell/pipeline/command.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/pieshell/pipeline/builtin.py b/pieshell/pipeline/builtin.py
index af77a15..26720e7 100644
--- a/pieshell/pipeline/builtin.py
+++ b/pieshell/pipeline/builtin.py
@@ -23,4 +23,4 @@ class Builtin(command.BaseCommand):
         redirects.close_source_fds()
 
     def _run(self, redirects, sess, indentation = ""):
-        raise NotImplemented
+        raise NotImplementedError
diff --git a/pieshell/pipeline/command.py b/pieshell/pipeline/command.py
index f0f964c..6b63bf5 100644
--- a/pieshell/pipeline/command.py
+++ b/pieshell/pipeline/command.py
@@ -161,7 +161,7 @@ class BaseCommand(base.Pipeline):
         return ' '.join(quote_arg(arg) for arg in self._arg_list(*arg, **kw))
 
     def _run(self, redirects, sess, indentation = ""):
-        raise NotImplemented
+        raise NotImplementedError
 
 
 class Command(command.BaseCommand):
-- 
2.43.0


From 10489b74af2ecd4256fbfc4de740abedabdb2a4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:07 +0000
Subject: [PATCH 31/48] fix: feeding a long item to a pipeline does not block
 the event loop

---
 pieshell/iterio.py | 41 ++++++++++++++++++++++-------------------
 1 file changed, 22 insertions(+), 19 deletions(-)

diff --git a/pieshell/iterio.py b/pieshell/iterio.py
index 1fcc593..49bef87 100644
--- a/pieshell/iterio.py
+++ b/pieshell/iterio.py
@@ -70,6 +70,7 @@ class OutputHandler(IOHandler):
     def __init__(self, fd, iter, borrowed = False, usage = None):
         self.iter = iter
         self.recursion_lock = False
+        self.pending = b""
         self.done_future = asyncio.get_event_loop().create_future()
         IOHandler.__init__(self, fd, borrowed, usage)
 
@@ -96,6 +97,15 @@ class OutputHandler(IOHandler):
     def handle_event(self, event):
         asyncio.get_event_loop().create_task(self.send_output())
 
+    def encode(self, val):
+        return val
+
+    def is_writable(self):
+        # Events are handled in tasks, so this can have changed since
+        poll = select.poll()
+        poll.register(self.fd, select.POLLOUT)
+        return len(poll.poll(0)) > 0
+
     def get_iter(self):
         if not hasattr(self.iter, "__anext__"):
             if not hasattr(self.iter, "__aiter__"):
@@ -104,14 +114,20 @@ class OutputHandler(IOHandler):
         return self.iter
             
     async def send_output(self):
-        if self.recursion_lock: return
+        # Tasks can still be scheduled when we're destroyed
+        if self.recursion_lock or self.destroyed: return
         iter = self.get_iter()
         try:
             self.recursion_lock = True
-            val = await iter.__anext__()
+            if not self.pending:
+                val = await iter.__anext__()
+                if val is not None:
+                    self.pending = memoryview(self.encode(val))
             self.recursion_lock = False
-            if val is not None:
-                os.write(self.fd, val)                
+            if self.pending and self.is_writable():
+                # A bigger write could block, and with it the event loop
+                written = os.write(self.fd, self.pending[:select.PIPE_BUF])
+                self.pending = self.pending[written:]
         except StopAsyncIteration:
             self.destroy()
         except Exception as e:
@@ -125,21 +141,8 @@ class OutputHandler(IOHandler):
 
 
 class LineOutputHandler(OutputHandler):
-    async def send_output(self):
-        if self.recursion_lock: return
-        iter = self.get_iter()
-        try:
-            self.recursion_lock = True
-            val = await iter.__anext__()
-            self.recursion_lock = False
-            if val is not None:
-                os.write(self.fd, val + b"\n")
-            log.log("WRITE %s, %s" % (self.fd, repr(val)), "io")
-        except StopAsyncIteration:
-            log.log("STOP ITERATION %s" % self.fd, "ioevent")
-            self.destroy()
-        except Exception as e:
-            self.destroy(e)
+    def encode(self, val):
+        return val + b"\n"
 
 class InputHandler(IOHandler):
     events = select.POLLIN | select.POLLHUP | select.POLLERR
-- 
2.43.0


From b5bb4d7c8e67f2d230c5dd260311e86ab4a1f880 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:07 +0000
Subject: [PATCH 32/48] fix: env.last_pipeline is not a command before a
 pipeline has been run

---
 pieshell/environ.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pieshell/environ.py b/pieshell/environ.py
index 43e77a2..af2d1c5 100644
--- a/pieshell/environ.py
+++ b/pieshell/environ.py
@@ -43,6 +43,8 @@ class Environment(object):
         Command(env, "COMMAND_NAME")
     """
 
+    last_pipeline = None
+
     def __init__(self, cwd = None, exports = None, interactive = False, redirects = None):
         """Creates a new environment from scratch. Takes the same
         arguments as __call__."""
-- 
2.43.0


From 760a3620525090542fce9d78a8a52702d8f84414 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:07 +0000
Subject: [PATCH 33/48] fix: fg ends when the pipeline it continues fails or is
 suspended

---
 pieshell/pipeline/builtins.py | 26 ++++++++++++++++++++++----
 1 file changed, 22 insertions(+), 4 deletions(-)

diff --git a/pieshell/pipeline/builtins.py b/pieshell/pipeline/builtins.py
index 503f64b..922d7f8 100644
--- a/pieshell/pipeline/builtins.py
+++ b/pieshell/pipeline/builtins.py
@@ -60,17 +60,35 @@ class BgBuiltin(builtin.Builtin):
 class RunnningFg(running.BaseRunningItem):
     def __init__(self, pipeline):
         self.wrapped_pipeline = pipeline
-        asyncio.get_event_loop().create_task(self.await_finish())
+        self.task = asyncio.get_event_loop().create_task(self.await_finish())
     @property
     def is_running(self):
         return self.wrapped_pipeline.is_running
     @property
     def is_failed(self):
         return self.wrapped_pipeline.is_failed
+    @property
+    def exit_code(self):
+        return self.wrapped_pipeline.exit_code
+    def restart(self):
+        self.wrapped_pipeline.restart()
+        if self.task.done():
+            self.task = asyncio.get_event_loop().create_task(self.await_finish())
+    def suspend(self):
+        self.wrapped_pipeline.suspend()
     async def await_finish(self):
-        await self.wrapped_pipeline.wait()
-        self.running_pipeline.handle_finish()
-    
+        try:
+            await self.wrapped_pipeline.wait()
+        except running.PipelineSuspended:
+            self.running_pipeline.pipeline_suspended = True
+        except running.PipelineError:
+            pass # Reported by is_failed
+        finally:
+            self.running_pipeline.handle_finish()
+    def __repr__(self, display_output=False):
+        return "\n".join(proc.__repr__(display_output=display_output)
+                         for proc in self.wrapped_pipeline.processes)
+
 class FgBuiltin(builtin.Builtin):
     """Continue running the last pipeline in the background.
     """
-- 
2.43.0


From 76c324521455dfcc17f1997fcd1e8ff41bed52b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:50 +0000
Subject: [PATCH 34/48] fix: expand variables in arguments of commands also
 before the startup script has run

---
 pieshell/environ.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pieshell/environ.py b/pieshell/environ.py
index af2d1c5..c980565 100644
--- a/pieshell/environ.py
+++ b/pieshell/environ.py
@@ -326,3 +326,4 @@ class EnvScope(dict):
         sys.ps1 = self.ps1
     
 envScope = EnvScope(env = env(interactive=True))
+dict.__getitem__(envScope, "env")._scope = envScope
-- 
2.43.0


From 6f7e37af26df30f6d9360f7eccb575c5ad6a9d14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:48 +0000
Subject: [PATCH 35/48] fix: SignalIteratorHandler lost signals arriving before
 its reader resumed

A second event set the result of an already resolved future, which raised in
the middle of signal dispatch, and __aiter__ was a coroutine.
---
 pieshell/signalio/__init__.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pieshell/signalio/__init__.py b/pieshell/signalio/__init__.py
index 507ff18..0bed838 100644
--- a/pieshell/signalio/__init__.py
+++ b/pieshell/signalio/__init__.py
@@ -32,8 +32,9 @@ class SignalIteratorHandler(SignalHandler):
         self.buffer[0:0] = [event]
         if self.future is not None:
             self.future.set_result(None)
+            self.future = None
 
-    async def __aiter__(self):
+    def __aiter__(self):
         return self
     
     async def __anext__(self):
-- 
2.43.0


From a03a8d3e1e88a88dc59fa39e602ad4eaa767fbba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:08:42 +0000
Subject: [PATCH 36/48] fix: a subshell whose output cannot be flushed exits
 with a failure status

---
 pieshell/pipeline/command.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pieshell/pipeline/command.py b/pieshell/pipeline/command.py
index 6b63bf5..e82ed5d 100644
--- a/pieshell/pipeline/command.py
+++ b/pieshell/pipeline/command.py
@@ -229,9 +229,9 @@ class Command(command.BaseCommand):
             try:
                 self._child(redirects, args)
             except SystemExit as e:
+                sys.stdout.flush()
                 if e.code is None or isinstance(e.code, int):
                     ecode = e.code or 0
-                sys.stdout.flush()
             except BaseException as e:
                 ecode = getattr(e, "errno", None) or ecode
                 sys.stderr.write("Unable to execute %s: %s\n" % (repr(self), e))
-- 
2.43.0


From 06eadd134ff7ef7fee763523d482187ee2f11c38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:39 +0000
Subject: [PATCH 37/48] fix: redirecting to a file that opens at its own
 descriptor number no longer fails

---
 pieshell/redir.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pieshell/redir.py b/pieshell/redir.py
index 7650e75..9e8e9ed 100644
--- a/pieshell/redir.py
+++ b/pieshell/redir.py
@@ -104,7 +104,10 @@ class Redirect(object):
             os.close(self.source)
     def perform(self):
         source = self.open()
-        assert source != self.fd
+        if source == self.fd:
+            # A file that happened to be opened at the right number
+            os.set_inheritable(source, True)
+            return
         log.log("perform dup2(%s, %s)" % (source, self.fd), "fd")
         os.dup2(source, self.fd)
         log.log("perform close(%s)" % (source), "fd")
-- 
2.43.0


From 0215f811980d1de85c9da78321c34d57fbab2409 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:19 +0000
Subject: [PATCH 38/48] fix: don't write to the descriptor of a handler
 destroyed while it waited for an item

---
 pieshell/iterio.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pieshell/iterio.py b/pieshell/iterio.py
index 49bef87..dd35f12 100644
--- a/pieshell/iterio.py
+++ b/pieshell/iterio.py
@@ -124,7 +124,8 @@ class OutputHandler(IOHandler):
                 if val is not None:
                     self.pending = memoryview(self.encode(val))
             self.recursion_lock = False
-            if self.pending and self.is_writable():
+            # We can have been destroyed while waiting for the item
+            if self.pending and not self.destroyed and self.is_writable():
                 # A bigger write could block, and with it the event loop
                 written = os.write(self.fd, self.pending[:select.PIPE_BUF])
                 self.pending = self.pending[written:]
-- 
2.43.0


From 580b153d64bbc49fea665af0070b9ee8fd5a447e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:10:48 +0000
Subject: [PATCH 39/48] fix: do not expand the command line bashsource gives to
 bash

---
 pieshell/pipeline/builtins.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pieshell/pipeline/builtins.py b/pieshell/pipeline/builtins.py
index 922d7f8..fd784fb 100644
--- a/pieshell/pipeline/builtins.py
+++ b/pieshell/pipeline/builtins.py
@@ -172,7 +172,7 @@ class BashSource(builtin.Builtin):
         args.append("{ declare -x; declare -f; } > $0")
         self._cmd = self._env.bash(
             "-l", "-i", "-c",
-            "; ".join(args),
+            environ.R("; ".join(args)), # The file names are already expanded
             self.parse_decls)
         res = self._cmd._run(redirects, sess, indentation)
         #self._pid = self._cmd._pid
-- 
2.43.0


From 51824d757a0fd1c703262e4a09e86459e1ea4339 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:11:14 +0000
Subject: [PATCH 40/48] fix: quote the arguments in the command line given to
 the completion of bash

---
 pieshell/pipeline/command.py | 10 +++-------
 1 file changed, 3 insertions(+), 7 deletions(-)

diff --git a/pieshell/pipeline/command.py b/pieshell/pipeline/command.py
index e82ed5d..bfb0a94 100644
--- a/pieshell/pipeline/command.py
+++ b/pieshell/pipeline/command.py
@@ -10,6 +10,7 @@ import threading
 import signal
 import operator
 import re
+import shlex
 import builtins
 import functools
 import inspect
@@ -153,12 +154,7 @@ class BaseCommand(base.Pipeline):
         return args
 
     def _arg_list_sh(self, *arg, **kw):
-        def quote_arg(arg):
-            arg = str(arg)
-            if " " in arg:
-                arg = repr(arg)
-            return arg
-        return ' '.join(quote_arg(arg) for arg in self._arg_list(*arg, **kw))
+        return ' '.join(shlex.quote(str(arg)) for arg in self._arg_list(*arg, **kw))
 
     def _run(self, redirects, sess, indentation = ""):
         raise NotImplementedError
@@ -253,7 +249,7 @@ class Command(command.BaseCommand):
 
     def _complete(self):
         cmd = self._arg_list_sh() + " "
-        return (item.strip() for item in self._env.get_completions(cmd))
+        return (item.strip() for item in self._env.get_completions(environ.R(cmd)))
 
     @property
     def __signature__(self):
-- 
2.43.0


From 4355275265865227d34a391e8e954ffeff665e8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:11:16 +0000
Subject: [PATCH 41/48] fix: a temporary environment gives way to the one that
 was current before it

---
 pieshell/environ.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pieshell/environ.py b/pieshell/environ.py
index c980565..89eda00 100644
--- a/pieshell/environ.py
+++ b/pieshell/environ.py
@@ -188,11 +188,13 @@ class Environment(object):
         return self._dir_cache
     @contextlib.contextmanager
     def temporary_env(self, env):
-        self._scope["env"] = env
+        scope = self._scope
+        previous = scope["env"]
+        scope["env"] = env
         try:
             yield
         finally:
-            self._scope["env"] = self    
+            scope["env"] = previous
     def pyshfunction(self, fn):
         return types.FunctionType(
             fn.__code__, EnvScope(env=self, _parent_scope=fn.__globals__),
-- 
2.43.0


From 62846831776b9564ab27aacbf21aa904753a11c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:11:28 +0000
Subject: [PATCH 42/48] fix: leaving a scope gives back the prompt that was
 there, also when nested or when there was none

---
 pieshell/environ.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/pieshell/environ.py b/pieshell/environ.py
index 89eda00..ab0bd65 100644
--- a/pieshell/environ.py
+++ b/pieshell/environ.py
@@ -321,11 +321,14 @@ class EnvScope(dict):
                 self.execute_file(conf)
 
     def __enter__(self):
-        self.ps1 = getattr(sys, "ps1", None)
+        # There is no prompt in a process that is not interactive
+        self.__dict__.setdefault("ps1", []).append(getattr(sys, "ps1", None))
         sys.ps1 = self
 
     def __exit__(self, *args, **kw):
-        sys.ps1 = self.ps1
+        sys.ps1 = self.ps1.pop()
+        if sys.ps1 is None:
+            del sys.ps1
     
 envScope = EnvScope(env = env(interactive=True))
 dict.__getitem__(envScope, "env")._scope = envScope
-- 
2.43.0


From 71c40e9286130f22bd2a8d222d650ff2ece7c0d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:16:52 +0000
Subject: [PATCH 43/48] fix: output files shared by several processes can be
 removed

---
 pieshell/pipeline/running.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pieshell/pipeline/running.py b/pieshell/pipeline/running.py
index 0b4ba00..33834f0 100644
--- a/pieshell/pipeline/running.py
+++ b/pieshell/pipeline/running.py
@@ -187,7 +187,10 @@ class BaseRunningItem(object):
         for fd, name in self.output_files.items():
             if hasattr(name, "path"):
                 name = name.path
-            os.unlink(name)
+            try:
+                os.unlink(name)
+            except FileNotFoundError:
+                pass # Shared with another process of the pipeline
     def restart(self):
         pass
     def suspend(self):
-- 
2.43.0


From d33efb267509159a9ed57e22d65746bc7e89806c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:49:34 +0000
Subject: [PATCH 44/48] fix: use the iterator of an asynchronous iterable, not
 the iterable itself

---
 pieshell/pipeline/function.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pieshell/pipeline/function.py b/pieshell/pipeline/function.py
index e14921d..01994cc 100644
--- a/pieshell/pipeline/function.py
+++ b/pieshell/pipeline/function.py
@@ -100,7 +100,7 @@ class Function(base.Pipeline):
                 thing = [thing]
         if hasattr(thing, "__iter__"):
             thing = itertoasync(thing)
-        thing = convert(thing)
+        thing = convert(thing.__aiter__())
             
         self._running_process = running.RunningFunction(
             self,
-- 
2.43.0


From 94bd727a7d1fbe26903fb1eb85ceb201fda0890d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:58:01 +0000
Subject: [PATCH 45/48] fix: importing a missing module of a namespace package
 is an ImportError

---
 pieshell/module.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pieshell/module.py b/pieshell/module.py
index ecc1479..78ceb48 100644
--- a/pieshell/module.py
+++ b/pieshell/module.py
@@ -32,7 +32,7 @@ class Finder(object):
         paths = sys.path
         if path is not None:
             paths = path
-        if not isinstance(paths, (list, tuple)):
+        if isinstance(paths, str):
             paths = [paths]
         found = None
         for path in paths:
-- 
2.43.0


From 0c57b1b58cf9a33d194274e11c89d7c7f7dc0a81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:58:01 +0000
Subject: [PATCH 46/48] fix: do not import a directory as a pysh module

---
 pieshell/module.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pieshell/module.py b/pieshell/module.py
index 78ceb48..89ca529 100644
--- a/pieshell/module.py
+++ b/pieshell/module.py
@@ -38,7 +38,7 @@ class Finder(object):
         for path in paths:
             if path == "": path = "."
             filepath = os.path.join(path, filename)
-            if os.path.exists(filepath):
+            if os.path.isfile(filepath):
                 found = filepath
                 break
         if found is None:
-- 
2.43.0


From ccbc0cf0c7539b3b61bc635f36d275a7fa5106db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:58:01 +0000
Subject: [PATCH 47/48] fix: special attributes of a pysh module are not
 commands

---
 pieshell/module.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pieshell/module.py b/pieshell/module.py
index 89ca529..e1c9210 100644
--- a/pieshell/module.py
+++ b/pieshell/module.py
@@ -8,6 +8,9 @@ class Module(types.ModuleType):
         types.ModuleType.__setattr__(self, "_scope", scope)
         super(Module, self).__init__(name, doc)
     def __getattr__(self, name):
+        # The import system looks for ones that are not there, like __path__
+        if name.startswith("__") and name not in self._scope:
+            raise AttributeError(name)
         return self._scope[name]
     def __setattr__(self, name, value):
         self._scope[name] = value
-- 
2.43.0


From 9ee5151c3d9254bac01cc69c12c39e13b1e8db92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:58:01 +0000
Subject: [PATCH 48/48] fix: a pysh module that could not be loaded is not left
 registered

---
 pieshell/module.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/pieshell/module.py b/pieshell/module.py
index e1c9210..0d5e855 100644
--- a/pieshell/module.py
+++ b/pieshell/module.py
@@ -26,7 +26,13 @@ class Loader(object):
             scope = environ.EnvScope(env=env)
             env._scope = scope
             sys.modules[fullname] = Module(scope, fullname.split(".")[-1])
-        sys.modules[fullname]._scope.execute_file(self.path)
+            try:
+                scope.execute_file(self.path)
+            except:
+                del sys.modules[fullname]
+                raise
+        else:
+            sys.modules[fullname]._scope.execute_file(self.path)
         return sys.modules[fullname]
 
 class Finder(object):
-- 
2.43.0

