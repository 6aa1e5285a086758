prop("R01", "The RPC server answers those with its credentials and nobody else",
     """A server with credentials runs a call, batch or notification and opens a websocket exactly when the request's Basic header holds its name and password, where the first colon ends the name and the password may hold more.
     Every other request, whatever its header, is refused with a client error and runs nothing, and a server without credentials answers everyone.
     The clients send exactly the name and password they were given, or those in the cookie file.""",
     ["inputs", "configurations"], "every header and every way of calling",
     "The tests try one wrong name and one wrong password; what else might pass (parts, mixtures, other encodings, a websocket) takes enumeration.",
     ["rpc/src/rpc_auth/mod.rs", "rpc/src/lib.rs"],
     [("check of the header", "rpc/src/rpc_auth/mod.rs"), ("layer in front of every call, headers of the clients", "rpc/src/lib.rs")],
     ["status, answer, and how often the method ran"])
check("R01", "mc-rpc", "exploration", "exhaustive enumeration of credentials, headers and ways of calling against real servers on the loopback interface",
      "Names and passwords over a small alphabet; timing is not observed; the case of the scheme's name is left open.")

prop("R02", "RPC credentials are as configured, and a cookie is fresh, whole and private",
     """A name and password are taken together, without a colon in the name and without a cookie file, and any other combination is refused and leaves nothing behind.
     Otherwise a cookie file is written that holds exactly the name and a fresh random password, readable by its owner only, whatever an earlier run left behind.
     The cookie file is removed when the server stops.""",
     ["configurations", "histories", "crash_points"], "every combination of options and everything a crashed run may leave behind",
     "What is left by a crash in the middle of writing the cookie is not there in a test's fresh directory.",
     ["rpc/src/rpc_creds.rs", "utils/src/cookie.rs"],
     [("choice and refusal, atomic writing, removal", "rpc/src/rpc_creds.rs"), ("reading a cookie", "utils/src/cookie.rs")],
     ["credentials; names, contents and modes of the files"])
check("R02", "mc-rpc", "model_checking", "exhaustive enumeration of configurations, of files left behind and of histories of starts, stops and crashes in a scratch directory",
      "The password generator is trusted to be random; only repetition and length are observed.")

prop("R03", "RPC subscribers get every event asked for, in order, and methods are all listed",
     """Every subscriber gets every event from its subscription on exactly once and in order, mapped and filtered as its method says, however little room its connection has and whatever others do, and then the end.
     The list of methods holds all registered methods and itself, each once and in order, a name registered twice is refused, and the result of a method is its value or its outermost error's text.""",
     ["histories"], "every history of subscribing, events, taking and leaving; every set of methods",
     "A missed, doubled or reordered event shows only when subscribers come and go or fall behind while events are sent.",
     ["rpc/src/subscription.rs", "rpc/src/lib.rs", "rpc/src/error.rs", "utils/networking/src/broadcaster.rs"],
     [("forwarding of events", "rpc/src/subscription.rs"), ("list of methods", "rpc/src/lib.rs"), ("results", "rpc/src/error.rs")],
     ["messages each subscriber took; answers"])
check("R03", "mc-rpc", "model_checking", "exhaustive enumeration of histories on the real methods, each subscriber against a queue",
      "Up to five operations (thorough: six) on a single-threaded runtime; delivery by the JSON-RPC library is trusted.")

prop("R04", "Texts and bytes pass through RPC unharmed and ambiguous ones are refused",
     """Any bytes written as an RPC string or hex string are read back the same, as a text exactly if they are one.
     A string given as text, as hex, as both or bare is read for what it says, and refused if text and hex differ, if neither is there or if the hex is malformed.""",
     ["inputs"], "every byte string and every JSON value",
     "Bytes that are almost text and objects with both forms are few among all inputs, and each combination is treated apart.",
     ["rpc/types/src/string.rs"], [("written and read forms", "rpc/types/src/string.rs")], ["JSON and bytes"])
check("R04", "mc-rpc", "exploration", "exhaustive enumeration of short byte strings and of JSON shapes against a reference reading", "Up to four bytes (thorough: six) of ten values; lists in place of objects are left open.")

prop("R05", "RPC documentation says what the methods take and give",
     """What a documented type is written as has the documented shape, every example of the documented shape is read, and the description of an interface names exactly its methods, with their parameters by name and in order, their results and how to unsubscribe.
     A description is drawn so that its structure can be read off the page, with nested choices flattened.""",
     ["inputs", "programs"], "every nesting of types, every description",
     "Golden files pin a few descriptions; that they are true of the values is never tested.",
     ["rpc/description/src/value_hint.rs", "rpc/description/src/display.rs", "rpc/description-macro/src/value_hint.rs", "rpc/description-macro/src/describe_impl.rs", "rpc/types/src/string.rs"],
     [("derived shapes", "rpc/description-macro/src/value_hint.rs"), ("derived interfaces", "rpc/description-macro/src/describe_impl.rs"), ("layout", "rpc/description/src/display.rs")],
     ["JSON values and the shapes documented for them; the page"])
check("R05", "mc-rpc", "exploration", "exhaustive enumeration of type nestings, documented examples and descriptions of bounded depth", "Durations and blanks in lists of one are not claimed.")
