#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []


def prop(id, title, statement, over, qtext, why, files, mech, observe=None, state=None):
    assert len(title) <= 80, title
    P.append(dict(id=id, title=title, statement=statement,
                  quantifier=dict(over=over, text=qtext), why_tests_cant=why,
                  anchors=dict(files=files, mechanism=[dict(name=a, where=b) for a, b in mech],
                               observe_at=observe or [], state=[dict(name=n, meaning=m, where=w) for n, m, w in (state or [])],
                               hook_needed=None)))


S = "schedules"
RU = ["runner.go"]
prop("R01", "A runner never has two live instances of one worker id",
     "For any worker id, a runner calls the start function only when no earlier start call for that id is still in progress and every instance an earlier call returned has stopped (its Wait would return). This holds whatever mixture of StartWorker, StopWorker, StopAndRemoveWorker, Worker, Kill and worker exits is going on concurrently, and across restarts and re-use of the id.",
     [S, "histories"], "all interleavings of concurrent runner calls, worker exits and restarts",
     "The tests start and restart workers in a handful of fixed orders; two instances only coexist when a restart, a stop and a new start interleave in a particular way.",
     RU, [("workers map entry lives until the worker goroutine has reported done", "runner.go startWorker/workerDone/removeWorker")],
     ["start function calls", "worker stop"])
prop("R02", "Killing a runner stops everything, and Wait returns only afterwards",
     "After Kill, or after a worker fails fatally, the runner kills every worker it runs (also those whose start call completes only later), does not start workers that are waiting out a restart delay any more, and Wait returns as soon as, and never before, all start calls have returned and all workers have stopped. Kill cancels the context of start calls in progress.",
     [S, "histories"], "all interleavings of Kill or a fatal error with starts, restarts, stops and exits of up to two workers",
     "Tests kill a runner in quiet states; the property is about Kill landing between any two steps of a start, a restart delay or an exit.",
     RU, [("run loop ends when dying and no worker is left", "runner.go run"), ("killAll; setWorker kills late arrivals", "runner.go killAll/setWorker")],
     ["Runner.Wait", "Worker.Kill", "start function context"])
prop("R03", "Runner.Wait reports the right error among all fatal worker errors",
     "A worker error (from its start function or from its Wait) ends the runner exactly if IsFatal says so, or IsFatal is nil. Wait then returns, of all the fatal errors that workers returned until the runner ended, the most important by MoreImportant, or the first reported if MoreImportant is nil; it returns nil if the runner was killed and no fatal error occurred, and never a non-fatal error.",
     [S, "histories", "configurations"], "all orders in which fatal errors of two workers, Kill and shutdown can interleave, for three importance orders",
     "Tests deliver one or two fatal errors in one order.",
     RU, [("finalError maintained by the run goroutine", "runner.go workerDone")], ["Runner.Wait"])
prop("R04", "Workers are restarted exactly when and as late as the policy says",
     "When a worker or its start function fails with a non-fatal error for which ShouldRestart is true (or nil), and it has not been told to stop, the runner calls its start function again exactly RestartDelay (or DefaultRestartDelay) after the failure, however often that happens. It is not restarted after a nil error, after an error ShouldRestart rejects, or after it was told to stop, and the runner does not kill workers that nobody asked to stop.",
     [S, "histories", "configurations"], "all sequences of failures, stops and delays up to a depth, and all interleavings of a failure with concurrent calls",
     "Tests exercise single failures with fixed outcomes; they do not combine failures with concurrent stops, second failures and start errors.",
     RU, [("workerDone decides between removal and restart", "runner.go workerDone"), ("delay before start", "runner.go runWorker")],
     ["times of start function calls"])
prop("R05", "StartWorker adds an id exactly if it is unknown, and starts it",
     "StartWorker returns nil and adds the id if the runner does not know it, after which the start function is called without delay with a context derived from the caller's; it returns AlreadyExists, with no effect, while the id is known (starting, running, stopping or waiting for a restart). Once the id has been removed it can be started again; on a runner that is not running, or when the caller's context ends first, ErrDead is returned.",
     [S, "histories"], "all interleavings of StartWorker with another StartWorker, stops, exits and shutdown, from every state of the id",
     "Tests call StartWorker sequentially.",
     RU, [("requests are handled one at a time by the run goroutine", "runner.go StartWorker/startWorker")], ["StartWorker result", "start function calls"])
prop("R06", "StopWorker stops the worker for good and leaves others alone",
     "After StopWorker the current instance of that id is killed (as soon as its start call returns, if that is in progress), a worker waiting for its restart is removed without being started again, and the id disappears when the instance has stopped, whatever non-fatal error it stops with. Stopping an unknown id does nothing; StopWorker returns nil while the runner runs and ErrDead after it has ended.",
     [S, "histories"], "all interleavings of StopWorker with starts, exits, restarts and other stops, from every state of the id",
     "Tests stop running workers; the races with start completion, exit and restart delay are not reached.",
     RU, [("stopping flag and start=nil", "runner.go killWorkerLocked/setWorker/workerDone")], ["Worker.Kill", "WorkerNames", "start function calls"])
prop("R07", "StopAndRemoveWorker returns the worker's error once the id is gone",
     "StopAndRemoveWorker waits for the worker to be available, stops it, and returns the error that instance stopped with, only when the instance has stopped and the runner no longer knows it, so that an immediate StartWorker of that id succeeds; every one of several concurrent calls returns. It returns NotFound for an unknown id, ErrDead if the runner is not running and ErrAborted only if abort was closed; the worker is not restarted even if it fails when stopped.",
     [S, "histories"], "all interleavings of StopAndRemoveWorker calls with each other, starts, exits, aborts and shutdown",
     "Tests have a single caller and a worker that stops cleanly.",
     RU, [("done channel per worker entry", "runner.go StopAndRemoveWorker/removeWorker")], ["StopAndRemoveWorker result"])
prop("R08", "Worker returns the current instance, or waits for exactly the right event",
     "Worker(id) returns the instance currently installed for the id and never one that the runner has been told to stop or has seen finish; while the id is known but has no such instance it blocks, until one is installed, the id is removed (NotFound), abort is closed (ErrAborted), or the runner is killed (ErrDead). After Kill has returned it only returns ErrDead.",
     [S, "histories"], "all interleavings of Worker with starts, restarts, stops, aborts and Kill, from every state of the id",
     "Tests cover one waiter and one wake-up cause at a time; lost wake-ups need particular interleavings.",
     RU, [("condition variable broadcast after every change", "runner.go workerInfo/run")], ["Worker result"])
prop("R09", "WorkerNames and Report are accurate snapshots and goroutine-safe",
     "At some instant during the call, the ids WorkerNames and Report list are exactly the known ids, and Report shows a worker as started, with that instance's own report and its last start time, exactly if an instance that was not told to stop is installed. Both may be called at any time from any goroutine without a data race.",
     [S], "all interleavings of WorkerNames/Report with starts, stops, restarts and exits",
     "Tests read reports in quiet states.",
     RU, [("mu guards the workers map and the worker field", "runner.go Report/WorkerNames")], ["Report", "WorkerNames"])
prop("R10", "No runner call blocks forever, and all return ErrDead after the end",
     "StartWorker, StopWorker, Worker, StopAndRemoveWorker, WorkerNames, Report and Kill never deadlock or crash the runner: whenever the system is idle, a call is still blocked only if what it documents to wait for has not happened. Once the runner has ended StartWorker, StopWorker, Worker and StopAndRemoveWorker return ErrDead.",
     [S, "histories"], "all interleavings of two (three within a deviation bound) concurrent calls and events",
     "Deadlocks and lost wake-ups only show in particular interleavings.",
     RU, [("every channel send of the API also selects on Dead", "runner.go")], ["all Runner methods"])

exec(open(os.path.join(V, "tools", "props_more.py")).read()) if os.path.exists(os.path.join(V, "tools", "props_more.py")) else None

CLAIMED = [p["id"] for p in P]
NA = {}
with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for p in P:
        f.write(json.dumps(p) + "\n")
checks = []
for i in CLAIMED:
    if i in NA:
        continue
    checks.append(dict(
        property=i, quick_cmd=f"bash check.sh {i} quick", thorough_cmd=f"bash check.sh {i} thorough",
        evidence_file=f"evidence/{i}.json",
        technique="stateless model checking of the real code under a controlled scheduler, against an executable specification",
        level="model_checking",
        level_note="Every execution of the scenarios within the stated deviation bounds (and, where reported, without a bound) is run on the real code with scheduling, select, map order and time controlled by a patched Go runtime; each is judged by an executable specification. Assumes the scenarios' small numbers of workers and calls are representative and that the patched runtime preserves Go's semantics."))
m = dict(version=1, setup_cmd="bash build.sh race", checks=checks,
         not_applicable=[dict(property=k, reason=v) for k, v in NA.items()],
         notes="No hooks in /repo: the checks compile /repo's working tree unchanged with 'go build -overlay', which patches the Go runtime and package sync (see DESIGN.md).")
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(V, "MANIFEST.json"), "a").write("\n")
