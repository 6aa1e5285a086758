prop("X01", "Subsystem calls are exclusive, ordered, carried out once and answered",
     """Calls that modify a subsystem run one at a time, in the order they were submitted, with no other call and no background work running, while calls that only read run
     side by side and see every modification submitted before them. A call that was accepted is carried out exactly once and its caller gets its
     result, unless the shutdown comes first, in which case the caller gets an error and never waits forever. Background work is done when, and only when, nothing is being called, and a call that
     has begun is finished before its subsystem shuts down.""",
     ["schedules"], "every order of submissions, completions, background work and shutdown",
     "The tests run single happy paths; races between queued calls, running readers and the shutdown only show in particular orders.",
     ["subsystem/src/task.rs", "subsystem/src/calls/mod.rs", "subsystem/src/calls/handle.rs", "subsystem/src/calls/blocking.rs"],
     [("event loop with biased selection", "subsystem/src/task.rs"), ("closures and reply channels", "subsystem/src/calls/handle.rs")],
     ["begin and end of calls, results and errors at the callers"])
check("X01", "mc-subsystem", "model_checking", "exhaustive enumeration of client action sequences on the real runtime against an event-log monitor",
      "Two subsystems, single-threaded deterministic runtime with paused time; seven actions per program in the quick tier, eight in the thorough one.")

prop("X02", "The manager always brings all subsystems down in order, and in bounded time",
     """Whatever starts the shutdown (a trigger, a subsystem that fails to start, a panic, a signal where signals are handled), every running subsystem is told to shut down exactly once, after the shutdown flag is
     raised, in reverse order of registration, each only when the ones registered after it are gone, so that it can still be called by them.
     A subsystem that does not finish is given up after exactly its timeout; without failures and hangs the manager ends as soon as the last subsystem is down, and a
     panic inside a subsystem is passed on.""",
     ["configurations", "schedules"], "every combination of start-up and shutdown behaviour, cause and timeout",
     "Each test has one subsystem with one behaviour; the order and timing guarantees only matter in combinations.",
     ["subsystem/src/manager/manager_impl.rs", "subsystem/src/manager/mod.rs", "subsystem/src/manager/shutdown_signal.rs", "subsystem/src/task.rs"],
     [("shutdown sequence with timeouts", "subsystem/src/manager/manager_impl.rs"), ("causes of shutdown", "subsystem/src/manager/shutdown_signal.rs")],
     ["order and virtual times of shutdown events"])
check("X02", "mc-subsystem", "model_checking", "exhaustive enumeration of subsystem configurations in virtual time against a timing model",
      "Up to three subsystems; order after a panic is not claimed; signals with two subsystems in real time.")
