H = "histories"
CF = "configurations"
CA = ["catacomb/catacomb.go"]
prop("C01", "A catacomb is dead only when its work and all its workers are finished",
     "Catacomb.Dead is closed and Catacomb.Wait returns only after the Work function has returned and every worker the catacomb is responsible for (those in Plan.Init and those added successfully) has stopped, and they do so as soon as that is the case. This holds however Kill, Add, the end of Work and the exits of the workers interleave.",
     [S, H], "all interleavings of the end of Work, Kill, Add and worker exits, with up to three workers",
     "Tests stop one worker at a time in a fixed order; an early Dead needs a particular interleaving of Add, Kill and the end of Work.",
     CA, [("WaitGroup dirty with wg/mu; tomb goroutine stays until all workers are done", "catacomb/catacomb.go Invoke/add")],
     ["Catacomb.Wait", "Catacomb.Dead"])
prop("C02", "A catacomb stops the workers it is responsible for, and only when ending",
     "A worker handed over in Plan.Init or by Add is told to stop as soon as the catacomb is dying and never before; if Invoke fails, or Add is refused because the catacomb is dying or dead, the worker is stopped before the call returns (Add then returns the worker's error, or the catacomb's ErrDying). Add succeeds whenever the catacomb is not dying. A worker that finishes without an error while the catacomb lives leaves it running and leaves no goroutine behind.",
     [S, H], "all interleavings of Add with Kill, worker failures and the end of Work",
     "An orphaned worker needs Add to land in the window between dying and dead.",
     CA, [("add under the mutex; goroutine waiting on Dying and on the worker", "catacomb/catacomb.go Add/add")],
     ["Worker.Kill", "Catacomb.Add result"])
prop("C03", "A catacomb fails with the first error that it encountered",
     "Catacomb.Wait returns the first non-nil error, in order of occurrence, among the errors passed to Kill, returned by Work, and returned by the workers it is responsible for, and nil if there was none; the catacomb's own ErrDying counts as no error. Every error that occurs before the catacomb is dead is considered, those after that are ignored, and all calls of Wait return the same error.",
     [S, H], "all orders of two and three sources of errors, and all interleavings of these",
     "Tests cover pairs of errors in one order each.",
     CA, [("tomb keeps the first reason", "catacomb/catacomb.go Kill/runSafely")], ["Catacomb.Wait"])
prop("C04", "Invoke accepts exactly valid plans, once, and runs the work once",
     "Invoke succeeds exactly if Site and Work are set, no Init worker is nil, and the catacomb has not been used before; then Work is called exactly once and Init workers are supervised. Otherwise it returns an error, does not call Work, and does not disturb an earlier successful Invoke on that catacomb, also with concurrent Invoke calls. Plan.Validate agrees with it.",
     [S, "inputs"], "all combinations of plan fields and prior use, and all interleavings of two Invoke calls",
     "Concurrent reuse is not tested.",
     CA, [("atomic/dirty flag", "catacomb/catacomb.go Invoke/Plan.Validate")], ["Invoke result", "Work calls"])
prop("C05", "Catacomb.Kill is safe at any time and understands ErrDying",
     "Kill may be called from any goroutine at any time after Invoke, any number of times; it never blocks or panics and makes the catacomb dying. The catacomb's own ErrDying, however wrapped, is not recorded as an error; tomb.ErrDying or tomb.ErrStillAlive itself, or another catacomb's ErrDying, however wrapped, is recorded as an error that says that it is a bad Kill. Errors returned by Work and by the catacomb's workers are treated in the same way. ErrDying returns the dying error exactly when the catacomb is dying.",
     [S, H, "inputs"], "all sequences of Kill arguments up to a depth and all interleavings of two calls with the end of the catacomb",
     "Tests use one such error at a time.",
     CA, [("error translation in Kill", "catacomb/catacomb.go Kill")], ["Catacomb.Wait", "Catacomb.Err"])
prop("C06", "A panic in Work becomes the catacomb's error and nothing is left running",
     "If the Work function panics, with any value, the process survives, the catacomb becomes dying with an error that names the panic (unless an earlier error takes precedence), its workers are stopped and Wait returns.",
     [S, H, "inputs"], "all interleavings of a panic with Kill, Add and worker exits, for several panic values",
     "Tests panic in isolation.",
     CA, [("recover in runSafely", "catacomb/catacomb.go runSafely")], ["Catacomb.Wait"])
prop("C07", "Dying, Err and contexts of a catacomb reflect its state exactly",
     "Dying is closed exactly when the catacomb has been told to stop, its Work has ended or a worker failed; Err returns the recorded reason then, and the still-alive error before; a context made by Context is cancelled exactly when the catacomb is dying or the parent context is done, carrying the parent's values.",
     [S, H], "all interleavings of these observations with the events that end a catacomb",
     "Tests look at quiet states.",
     CA, [("tomb", "catacomb/catacomb.go Dying/Err/Context")], ["Dying", "Err", "Context"])

EN = ["dependency/engine.go"]
prop("D01", "An engine never runs two workers of one manifold",
     "For each installed manifold, the engine calls the start function only when no earlier start call of that manifold is in progress and every worker it returned has stopped; and an uninstalled manifold is never started again. This holds for every interleaving of installs, worker exits, input changes, delays and shutdown.",
     [S, H], "all interleavings of worker exits, installs, releases and Kill in chains, forks and joins of up to four manifolds",
     "Tests never overlap a bounce with a start in progress and a restart delay.",
     EN, [("info.starting/stopping/worker owned by the loop goroutine", "dependency/engine.go requestStart/gotStarted/gotStopped")],
     ["start function calls", "worker stop"])
prop("D02", "A killed engine stops every worker, and Wait returns only afterwards",
     "Once the engine is killed or a worker failed fatally, every worker is told to stop, every start call in progress has its context cancelled, and a worker that such a call still returns is told to stop; no start delay is waited out and nothing is started later. Wait returns as soon as, and not before, all start calls have returned and all workers have stopped; Install, Report and Kill always return.",
     [S, H], "all interleavings of Kill or a fatal error with starts, delays, bounces and exits",
     "Tests kill engines in quiet states.",
     EN, [("oneShotDying, allOthersStopped", "dependency/engine.go loop"), ("runWorker always sends on stopped", "dependency/engine.go runWorker")],
     ["Engine.Wait", "Worker.Kill", "start context"])
prop("D03", "Running workers always see current inputs, and are bounced only for changes",
     "Whenever the engine is idle, each manifold's worker was started with exactly the workers its inputs have now: if an input has been started, stopped or replaced since the manifold's start call, then its worker is told to stop, or its start call's context is cancelled, and it is started again after the bounce delay, also if it had completed or lacked a dependency. The context of a start call is cancelled exactly when that call or its worker is told to stop. The engine tells a worker to stop, or cancels a start call, only for such a change or when the engine ends. With nothing failing, all manifolds whose inputs can run end up running.",
     [S, H], "all interleavings of changes of inputs with starts, stops and delays of their dependents, over chains, forks, joins and diamonds",
     "Tests change one input at a time and wait.",
     EN, [("snapshot taken at the start request; bounceDependents", "dependency/engine.go snapshot/bounceDependents/requestStop")],
     ["start function calls", "Getter.Get", "Worker.Kill"])
prop("D04", "What becomes of a manifold follows from how its worker ended",
     "When a worker (or its start function) ends and neither its inputs changed nor the engine is ending: after nil or ErrMissing it is started again only when an input changes; after ErrBounce it is started again after the bounce delay; after ErrUninstall it is removed for good; after any other error it is started again after the error delay. The class is determined by errors.Is, after the manifold's Filter. If it was told to stop because of a change, it is started again whatever it returned.",
     [S, H, "inputs"], "all classes of errors, wrapped or not, from start functions and workers, filtered or not, in all interleavings with input changes",
     "Tests use each class once, in isolation.",
     EN, [("switch in gotStopped", "dependency/engine.go gotStopped")], ["start function calls", "Report"])
prop("D05", "Engine.Wait returns the worst fatal error, filtered, and nothing else",
     "An error ends the engine exactly if IsFatal accepts it, after the manifold's Filter. Wait returns the worst, by WorstError, of all fatal errors that workers returned before the engine ended, including while it was stopping, passed through the engine's Filter if there is one; without a fatal error Wait returns nil (or what Filter makes of it). Errors that arise inside the engine, such as an abandoned start, are never taken for fatal errors.",
     [S, H, CF], "all interleavings of up to three fatal errors and Kill, for two orders of importance and several filters",
     "Tests order two errors by hand.",
     EN, [("worstError is maintained by the loop goroutine", "dependency/engine.go gotStopped/Wait")], ["Engine.Wait"])
prop("D06", "Start delays are as configured: error and bounce delay, backoff, limit",
     "A new manifold is started at once. A restart happens ErrorDelay or BounceDelay after the end or change that causes it, give or take 10% of the delay; with a BackoffFactor the delay is multiplied by it once for each further error in a row, where a clean exit or a run of at least BackoffResetTime makes the next error count as the first of a new series, while a lack of dependencies or an interrupted start counts as the first itself, and limited to MaxDelay if that is set. The delay is never shorter than configured otherwise, and zero delays mean immediately.",
     [H, CF, S], "all sequences up to depth 4 (5 in the thorough tier) of failures, bounces, missing dependencies, clean exits and run times, for nine configurations including the extremes of the random fuzz",
     "Tests exercise a few sequences of failures.",
     EN, [("requestStart computes the delay; recentErrors", "dependency/engine.go requestStart/gotStopped")], ["times of start function calls"])
prop("D07", "Install accepts exactly new, acyclic manifolds, atomically",
     "Install succeeds exactly if the engine runs, no manifold of that name is installed, and it closes no cycle with those installed; the manifold is then started at once. A refused Install has no effect. The name of an uninstalled manifold can be installed again, and those that depend on the name then see the new one. Concurrent Installs are serialised. After the engine has ended Install fails. The helper dependency.Install stops at, and returns, the first error.",
     [S, H, "inputs"], "all sequences of three Installs over three names and all input sets, sequences with uninstalls, and all interleavings of two Installs with each other, uninstalls and Kill",
     "Tests install a few graphs sequentially.",
     ["dependency/engine.go", "dependency/util.go"], [("gotInstall, checkAcyclic, uninstall on the loop goroutine", "dependency/engine.go")], ["Install result", "start function calls"])
prop("D08", "Validate reports an error exactly if there is a dependency cycle",
     "dependency.Validate returns an error if and only if some manifold of the set depends on itself, directly or through other manifolds of the set; inputs that are not in the set, repeated inputs and shared inputs are no cycles. It always terminates.",
     ["inputs"], "all graphs of four manifolds, all input lists of length two over three manifolds with repetition and unknown names, lines of seven with any two extra edges",
     "Tests check a handful of graphs.",
     ["dependency/util.go"], [("depth-first search with doing and done marks", "dependency/util.go validator")], ["Validate result"])
prop("D09", "A Getter hands out exactly the declared, available, exposed inputs",
     "During Start, Get(name, out) succeeds exactly if name is declared as an input, its worker was running when the start was requested, and its Output function converts it into out; the error satisfies ErrMissing if it is not declared, not running or not exposed, and is the Output function's own error otherwise. With a nil out only the existence is checked. The worker handed out belongs to that manifold. Once Start has returned the getter only returns errors, and hands out nothing.",
     [S, H, "inputs"], "all interleavings of start calls with changes of their inputs, for declared, undeclared, hidden, absent and running inputs",
     "Tests use stable inputs.",
     ["dependency/snapshot.go", "dependency/engine.go"], [("snapshot of workers and outputs", "dependency/snapshot.go")], ["Getter.Get"])
prop("D10", "Reports and metrics describe the engine and its manifolds exactly",
     "Report lists exactly the installed manifolds with their inputs; in idle states each manifold's state (starting, started, stopping, stopped), start count, start time, last error and the report of its running worker are right, as are the engine's state and worst error, while running, stopping and stopped. It can be called at any time from any goroutine, also during and after shutdown, without blocking or data races. Metrics.RecordStart is called exactly once for each worker that goes into use.",
     [S, H], "all interleavings of Report with the events of the engine; the contents in every idle state that is reached",
     "Tests compare a few reports.",
     ["dependency/engine.go", "dependency/reporter.go"], [("liveReport/manifoldsReport on the loop goroutine", "dependency/engine.go")], ["Engine.Report", "Metrics.RecordStart"])
prop("D11", "NewEngine accepts exactly valid configurations",
     "EngineConfig.Validate returns nil, and NewEngine a running engine, exactly if IsFatal, WorstError, Clock, Metrics and Logger are set, no delay, reset time or limit is negative, and BackoffFactor is 0 or at least 1; otherwise both return an error and nothing is left running.",
     ["inputs"], "all combinations of missing fields with signs of all durations and boundary values of the factor",
     "Tests try single invalid fields.",
     EN, [("Validate", "dependency/engine.go EngineConfig.Validate/NewEngine")], ["NewEngine", "Validate"])
prop("D12", "An engine can contain itself without deadlock or recursion",
     "With SelfManifold installed, dependents obtain the engine's Installer and Reporter (and nothing else), may call Install and Report from their start functions, Report does not recurse, and Kill or a fatal error still ends the engine: Wait returns once all other workers have stopped, with the same error as without the self manifold.",
     [S, H], "all interleavings of Kill, fatal errors, worker exits, Report and Install from a start function with a self manifold",
     "Tests kill such an engine in a quiet state.",
     ["dependency/util.go", "dependency/engine.go"], [("worker == engine special cases", "dependency/engine.go runWorker/allOthersStopped/manifoldsReport")], ["Engine.Wait", "Engine.Report"])

prop("W01", "worker.Stop and worker.Dead are exact for every kind of worker",
     "Stop kills the worker and returns its error once, and only once, it has stopped, also if it stops by itself at the same time. Dead's channel is closed as soon as the worker has stopped and never before; it is the worker's own channel if the worker provides one that is not nil; Dead does not kill the worker.",
     [S], "all interleavings of two Stop or three Dead calls with the worker's own exit, for four kinds of workers",
     "Tests check one caller and one kind.",
     ["worker.go"], [("Stop, Dead", "worker.go")], ["Stop", "Dead"])
prop("W02", "The workertest workers keep their contracts under concurrency",
     "An error worker runs until it is killed and then fails with its error; a dead worker has failed with its error from the start; a forever worker ignores Kill and fails with its error only after ReallyKill; a fake watcher has the preloaded changes, Ping adds one, Close closes the channel, and it stops cleanly. Every Wait returns, and no goroutine is left.",
     [S, "inputs"], "all interleavings of two Wait and up to two Kill calls for all four workers",
     "Tests use them one by one.",
     ["workertest/workers.go", "workertest/fake_watcher.go"], [("tomb", "workertest/workers.go")], ["Wait"])
prop("W03", "The workertest checks fail a test exactly when they should",
     "CheckAlive fails exactly if the worker stops within the short delay; CheckKilled, CheckKill, CleanKill and DirtyKill fail if it does not stop within the long one; CleanKill also if it stops with an error; CheckNilOrKill exactly if the worker is not nil. All but CheckAlive and CheckKilled kill the worker. They return as soon as the outcome is known, and the first two Kill checks return the worker's error.",
     [S, "inputs"], "all combinations of six exit times, six reactions to Kill and two errors, in all interleavings",
     "Tests try a few of these.",
     ["workertest/check.go"], [("timeouts", "workertest/check.go")], ["gc.C status", "results"])
prop("W04", "Stub getters return exactly the stubbed resources",
     "A getter made from stub resources returns a resource's error if it has one, succeeds for a nil output, otherwise sets the output to the first stubbed value convertible to its type, and returns an error and leaves the output alone if there is none, the output is no pointer, or the name is unknown.",
     ["inputs"], "all combinations of nine stub values, three ways to build the getter and six outputs",
     "Not tested in the repository.",
     ["dependency/testing/stub.go"], [("reflection", "dependency/testing/stub.go Get")], ["Get"])
