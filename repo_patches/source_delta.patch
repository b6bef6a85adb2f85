From 3ac43d7e74d6024e9f3881421fdef650d58f82d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:27:03 +0000
Subject: [PATCH 01/12] fix: report the first fatal error when MoreImportant is
 nil

RunnerParams documents that with a nil MoreImportant the first error
reported is returned, but the default made every later fatal error
replace the earlier one.
---
 runner.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/runner.go b/runner.go
index bda5937..bc35766 100644
--- a/runner.go
+++ b/runner.go
@@ -220,7 +220,7 @@ func NewRunner(p RunnerParams) (*Runner, error) {
 	}
 	if p.MoreImportant == nil {
 		p.MoreImportant = func(err0, err1 error) bool {
-			return true
+			return false
 		}
 	}
 	if p.RestartDelay == 0 {
-- 
2.43.0


From e32c96f874b20c711fe33901b408f66f3d75abe2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:27:03 +0000
Subject: [PATCH 02/12] fix: wake every StopAndRemoveWorker call when the
 worker is removed

Removal sent a single token, so that of several concurrent
StopAndRemoveWorker calls for the same worker only one returned.
---
 runner.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/runner.go b/runner.go
index bc35766..25be3a0 100644
--- a/runner.go
+++ b/runner.go
@@ -563,7 +563,7 @@ func (runner *Runner) workerDone(info doneInfo) {
 func (runner *Runner) removeWorker(id string, removed chan<- struct{}) {
 	runner.mu.Lock()
 	delete(runner.workers, id)
-	removed <- struct{}{}
+	close(removed)
 	runner.mu.Unlock()
 }
 
-- 
2.43.0


From 63c736b74b18ba383daff11566810dcd4ef8f8ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:27:05 +0000
Subject: [PATCH 03/12] fix: do not restart a worker stopped by
 StopAndRemoveWorker

The runner was not told that the worker was stopped deliberately, so a
worker that returned a restartable error when killed was restarted after
the restart delay, and StopAndRemoveWorker did not return.
---
 runner.go | 21 +++++++++++++++++++++
 1 file changed, 21 insertions(+)

diff --git a/runner.go b/runner.go
index 25be3a0..6274087 100644
--- a/runner.go
+++ b/runner.go
@@ -33,6 +33,7 @@ type Runner struct {
 	tomb     tomb.Tomb
 	startc   chan startReq
 	stopc    chan string
+	removec  chan removeReq
 	donec    chan doneInfo
 	startedc chan startInfo
 
@@ -119,6 +120,11 @@ type startReq struct {
 	reply chan error
 }
 
+type removeReq struct {
+	id   string
+	done <-chan struct{}
+}
+
 type startInfo struct {
 	id     string
 	worker Worker
@@ -236,6 +242,7 @@ func NewRunner(p RunnerParams) (*Runner, error) {
 	runner := &Runner{
 		startc:   make(chan startReq),
 		stopc:    make(chan string),
+		removec:  make(chan removeReq),
 		donec:    make(chan doneInfo),
 		startedc: make(chan startInfo),
 		params:   p,
@@ -293,6 +300,12 @@ func (runner *Runner) StopAndRemoveWorker(id string, abort <-chan struct{}) erro
 	if err != nil {
 		return err
 	}
+	// Tell the run goroutine that the worker is being stopped deliberately,
+	// so that it isn't restarted whatever error it returns.
+	select {
+	case runner.removec <- removeReq{id, done}:
+	case <-runner.tomb.Dead():
+	}
 	workerErr := Stop(w)
 
 	select {
@@ -445,6 +458,14 @@ func (runner *Runner) run() error {
 			runner.params.Logger.Debugf("stop %q", id)
 			runner.killWorker(id)
 
+		case req := <-runner.removec:
+			runner.params.Logger.Debugf("stop and remove %q", req.id)
+			// The id may have been started afresh since the request
+			// was made; leave the new worker alone.
+			if info := runner.workers[req.id]; info != nil && info.done == req.done {
+				runner.killWorker(req.id)
+			}
+
 		case info := <-runner.startedc:
 			runner.params.Logger.Debugf("%q started", info.id)
 			runner.setWorker(info.id, info.worker)
-- 
2.43.0


From e4d8023d2429467a7d89e07512604d1a4462bd05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:27:05 +0000
Subject: [PATCH 04/12] fix: do not hand out a finished worker while it waits
 to be restarted

Worker is documented to wait until the worker is available again, but it
returned the instance that had already finished, and Report showed that
instance as started.
---
 runner.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/runner.go b/runner.go
index 6274087..1f3e6ec 100644
--- a/runner.go
+++ b/runner.go
@@ -572,6 +572,10 @@ func (runner *Runner) workerDone(info doneInfo) {
 		runner.removeWorker(info.id, workerInfo.done)
 		return
 	}
+	// The instance that has just finished is no longer available.
+	runner.mu.Lock()
+	workerInfo.worker = nil
+	runner.mu.Unlock()
 	pprof.Do(runner.tomb.Context(context.Background()), workerInfo.labels, func(ctx context.Context) {
 		go runner.runWorker(ctx, workerInfo.restartDelay, info.id, workerInfo.start)
 	})
-- 
2.43.0


From f2e8ccd4d0fbb45dc192103c40c096a19e98344f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:27:05 +0000
Subject: [PATCH 05/12] fix: report when a restarted worker was last started

KeyLastStart holds the time of the last start, but it was only set by
StartWorker and not when the worker was restarted.
---
 runner.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/runner.go b/runner.go
index 1f3e6ec..116ce96 100644
--- a/runner.go
+++ b/runner.go
@@ -598,6 +598,7 @@ func (runner *Runner) setWorker(id string, w Worker) {
 	defer runner.mu.Unlock()
 	info := runner.workers[id]
 	info.worker = w
+	info.started = runner.params.Clock.Now().UTC()
 	if runner.isDying || info.stopping {
 		// We're dying or the worker has already been
 		// stopped, so kill it already.
-- 
2.43.0


From bbff9de0609a42228423db01457fae48bd6037c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:27:28 +0000
Subject: [PATCH 06/12] fix: do not start a worker that is stopped during its
 restart delay

StopWorker, or a fatal error of another worker, during the restart delay
of a worker did not interrupt the delay: the worker was started once more
at the end of it, only to be killed.
---
 runner.go | 20 +++++++++++++++-----
 1 file changed, 15 insertions(+), 5 deletions(-)

diff --git a/runner.go b/runner.go
index 116ce96..b90b078 100644
--- a/runner.go
+++ b/runner.go
@@ -95,6 +95,10 @@ type workerInfo struct {
 	// still exist while this is true.
 	stopping bool
 
+	// stopped is closed when stopping is set, so that a worker
+	// waiting to be restarted can give up.
+	stopped chan struct{}
+
 	// done is used to signal when the worker has finished
 	// running and is removed from the runner.
 	done chan struct{}
@@ -507,11 +511,13 @@ func (runner *Runner) startWorker(req startReq) error {
 		start:        req.start,
 		restartDelay: runner.params.RestartDelay,
 		started:      runner.params.Clock.Now().UTC(),
+		stopped:      make(chan struct{}),
 		done:         make(chan struct{}, 1),
 	}
+	stopped := runner.workers[req.id].stopped
 
 	pprof.Do(runner.tomb.Context(req.ctx), labels, func(ctx context.Context) {
-		go runner.runWorker(ctx, 0, req.id, req.start)
+		go runner.runWorker(ctx, 0, req.id, req.start, stopped)
 	})
 	return nil
 }
@@ -577,7 +583,7 @@ func (runner *Runner) workerDone(info doneInfo) {
 	workerInfo.worker = nil
 	runner.mu.Unlock()
 	pprof.Do(runner.tomb.Context(context.Background()), workerInfo.labels, func(ctx context.Context) {
-		go runner.runWorker(ctx, workerInfo.restartDelay, info.id, workerInfo.start)
+		go runner.runWorker(ctx, workerInfo.restartDelay, info.id, workerInfo.start, workerInfo.stopped)
 	})
 	workerInfo.restartDelay = params.RestartDelay
 }
@@ -631,6 +637,9 @@ func (runner *Runner) killWorkerLocked(id string) {
 	if info == nil {
 		return
 	}
+	if !info.stopping {
+		close(info.stopped)
+	}
 	info.stopping = true
 	info.start = nil
 	if info.worker != nil {
@@ -643,12 +652,13 @@ func (runner *Runner) killWorkerLocked(id string) {
 }
 
 // runWorker starts the given worker after waiting for the given delay.
-func (runner *Runner) runWorker(ctx context.Context, delay time.Duration, id string, start StartFunc) {
+func (runner *Runner) runWorker(ctx context.Context, delay time.Duration, id string, start StartFunc, stopped <-chan struct{}) {
 	if delay > 0 {
 		runner.params.Logger.Infof("restarting %q in %v", id, delay)
-		// TODO(rog) provide a way of interrupting this
-		// so that it can be stopped when a worker is removed.
 		select {
+		case <-stopped:
+			runner.donec <- doneInfo{id, nil}
+			return
 		case <-runner.tomb.Dying():
 			runner.donec <- doneInfo{id, nil}
 			return
-- 
2.43.0


From f51d51a46c819384daa3bfb4f942cfb5d539b745 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:58:08 +0000
Subject: [PATCH 07/12] fix: ignore errors passed to Catacomb.Kill after the
 catacomb is dead

---
 catacomb/catacomb.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/catacomb/catacomb.go b/catacomb/catacomb.go
index 442b9dd..2115507 100644
--- a/catacomb/catacomb.go
+++ b/catacomb/catacomb.go
@@ -262,6 +262,14 @@ func (catacomb *Catacomb) Kill(err error) {
 		}
 	}
 
+	// The tomb would still record the error as the reason for its death if it
+	// died without one.
+	select {
+	case <-catacomb.tomb.Dead():
+		return
+	default:
+	}
+
 	// TODO(fwereade) it's pretty clear that this ought to be a Kill(nil), and
 	// the catacomb should be responsible for ranking errors, just like the
 	// dependency.Engine does, rather than determining priority by scheduling
-- 
2.43.0


From 1309f6f4d89807dbdc861d5a3c3493fc6bd81a84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:53:46 +0000
Subject: [PATCH 08/12] fix: do not shorten the start delay when there were no
 recent errors

---
 dependency/engine.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/dependency/engine.go b/dependency/engine.go
index ce03911..161bea5 100644
--- a/dependency/engine.go
+++ b/dependency/engine.go
@@ -417,7 +417,10 @@ func (engine *Engine) requestStart(name string, delay time.Duration) {
 			// Use the float64 values for max comparison. Otherwise when casting
 			// the float back to a duration we hit the int64 max which is negative.
 			maxDelay := float64(engine.config.MaxDelay)
-			floatDelay := float64(delay) * math.Pow(engine.config.BackoffFactor, float64(info.recentErrors-1))
+			// With no recent errors there's nothing to back off from, but the
+			// delay must not become shorter than the configured one either.
+			exponent := math.Max(0, float64(info.recentErrors-1))
+			floatDelay := float64(delay) * math.Pow(engine.config.BackoffFactor, exponent)
 			if engine.config.MaxDelay > 0 && floatDelay > maxDelay {
 				delay = engine.config.MaxDelay
 			} else {
-- 
2.43.0


From 351cbbe45880e9a250b5d89ff5de39e15c625c4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:56:35 +0000
Subject: [PATCH 09/12] fix: do not treat an aborted start as an error of the
 manifold

---
 dependency/engine.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/dependency/engine.go b/dependency/engine.go
index 161bea5..343ae6f 100644
--- a/dependency/engine.go
+++ b/dependency/engine.go
@@ -653,13 +653,16 @@ func (engine *Engine) gotStopped(name string, err error, resourceLog []resourceA
 		}
 	}
 
-	if filter := engine.manifolds[name].Filter; filter != nil {
+	// errAborted comes from the engine, not from the manifold, so it's neither
+	// for the manifold to filter nor for the client to judge.
+	aborted := errors.Is(err, errAborted)
+	if filter := engine.manifolds[name].Filter; filter != nil && !aborted {
 		err = filter(err)
 	}
 
 	if info.stopped() {
 		engine.tomb.Kill(errors.Errorf("fatal: unexpected %q manifold worker stop", name))
-	} else if engine.config.IsFatal(err) {
+	} else if !aborted && engine.config.IsFatal(err) {
 		engine.worstError = engine.config.WorstError(err, engine.worstError)
 		engine.tomb.Kill(nil)
 	}
-- 
2.43.0


From 4c51463af0cb0ac5779059bbbbeb7c8772b399ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:56:47 +0000
Subject: [PATCH 10/12] fix: do not treat the engine's own end as an error of
 its self manifold

---
 dependency/engine.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dependency/engine.go b/dependency/engine.go
index 343ae6f..6719679 100644
--- a/dependency/engine.go
+++ b/dependency/engine.go
@@ -562,7 +562,7 @@ func (engine *Engine) runWorker(name string, delay time.Duration, start StartFun
 			// need this func to keep running to keep the self manifold
 			// accessible as a resource.
 			<-engine.tomb.Dying()
-			return tomb.ErrDying
+			return nil
 		}
 
 		return worker.Wait()
-- 
2.43.0


From 886570e9ac353cbebeba8e0fb574daa6ee734b95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:22:52 +0000
Subject: [PATCH 11/12] fix: catacomb Kill panics if an error is
 tomb.ErrStillAlive

Kill is documented to be safe at any time, and is also called with the
errors of workers and of the work function; complain about the misuse as
for tomb.ErrDying instead of crashing the process.
---
 catacomb/catacomb.go | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/catacomb/catacomb.go b/catacomb/catacomb.go
index 2115507..e8159a7 100644
--- a/catacomb/catacomb.go
+++ b/catacomb/catacomb.go
@@ -243,15 +243,19 @@ func (catacomb *Catacomb) scopedContext() context.Context {
 // Kill kills the Catacomb's internal tomb with the supplied error, or one
 // derived from it.
 //   - if it's caused by this catacomb's ErrDying, it passes on tomb.ErrDying.
-//   - if it's tomb.ErrDying, or caused by another catacomb's ErrDying, it passes
-//     on a new error complaining about the misuse.
+//   - if it's tomb.ErrDying or tomb.ErrStillAlive, or caused by another catacomb's
+//     ErrDying, it passes on a new error complaining about the misuse.
 //   - all other errors are passed on unmodified.
 //
 // It's always safe to call Kill, but errors passed to Kill after the catacomb
 // is dead will be ignored.
 func (catacomb *Catacomb) Kill(err error) {
-	if err == tomb.ErrDying {
+	switch err {
+	case tomb.ErrDying:
 		err = errors.New("bad catacomb Kill: tomb.ErrDying")
+	case tomb.ErrStillAlive:
+		// The tomb would panic.
+		err = errors.New("bad catacomb Kill: tomb.ErrStillAlive")
 	}
 	var dyingErr dyingError
 	if errors.As(err, &dyingErr) {
-- 
2.43.0


From 415752655cd8b7853ef0425c410dc00d08b41ddd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:23:21 +0000
Subject: [PATCH 12/12] fix: runner crashes or forgets a fatal error that is
 tomb.ErrDying

The error was passed through the runner's tomb, which panics on ErrStillAlive,
and on ErrDying unless it is dying, when it drops it.
---
 runner.go | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/runner.go b/runner.go
index b90b078..bdc531e 100644
--- a/runner.go
+++ b/runner.go
@@ -322,7 +322,10 @@ func (runner *Runner) StopAndRemoveWorker(id string, abort <-chan struct{}) erro
 
 // Wait implements Worker.Wait
 func (runner *Runner) Wait() error {
-	return runner.tomb.Wait()
+	if err := runner.tomb.Wait(); err != nil {
+		return err
+	}
+	return runner.finalError
 }
 
 // Kill implements Worker.Kill
@@ -445,7 +448,9 @@ func (runner *Runner) run() error {
 	tombDying := runner.tomb.Dying()
 	for {
 		if runner.isDying && len(runner.workers) == 0 {
-			return runner.finalError
+			// The error is left to Wait: some errors of workers have a
+			// special meaning to the tomb.
+			return nil
 		}
 		select {
 		case <-tombDying:
-- 
2.43.0

