prop("U01", "The rolling filter never forgets the items inserted last",
     """A rolling filter of a given size reports each of the last `size` inserted items as known, whatever was inserted before and however often it turned over.
     Items that were never inserted, or that were pushed out by a whole turn of newer ones, are reported as known only at about the rate asked for, and clearing forgets all.""",
     ["histories"], "every sequence of insertions, size and error rate",
     "Forgetting happens only at the boundaries between generations, where the number of insertions meets the size of the filter.",
     ["utils/src/bloom_filters/rolling_bloom_filter/mod.rs", "utils/src/bloom_filters/bloom_filter.rs"],
     [("generations", "utils/src/bloom_filters/rolling_bloom_filter/mod.rs"), ("bits and hashes", "utils/src/bloom_filters/bloom_filter.rs")],
     ["contains after each insertion"])
check("U01", "mc-utils", "model_checking", "exhaustive enumeration of insertion histories on the real filter against an ordered list", "Small sizes; a handful of hash seeds.")

prop("U02", "Events reach every subscriber once, in order, and waiting waits for all of them",
     """Each receiver of a broadcaster, and each handler of an events controller, gets every event sent after it was added exactly once and in the order sent, whatever other receivers do, and then the end.
     Messages sent by named senders into a shared channel arrive once, in each sender's order and under its name.
     Waiting for events returns when the handlers are done with everything sent before, not earlier, and a handler that panics takes no event from the others.""",
     ["histories"], "every history of joining, leaving, sending, taking and waiting",
     "The tests have one or two subscribers and no order in which some leave while others are added and events are outstanding.",
     ["utils/networking/src/broadcaster.rs", "utils/src/sender_with_id.rs", "utils/src/eventhandler.rs"],
     [("list of receivers", "utils/networking/src/broadcaster.rs"), ("handlers and waiting", "utils/src/eventhandler.rs")],
     ["what each receiver and handler got; when waiting ended"])
check("U02", "mc-utils", "model_checking", "exhaustive enumeration of histories on the real objects against per-receiver queues", "Up to seven operations; the channel library is trusted.")

prop("U03", "Graph walks visit everything reachable once and in dependency order",
     """A postorder walk from any roots emits every node that can be reached exactly once and after all nodes it leads to, depth first and even where roots repeat or lead to each other.
     Two-dimensional tables keep each cell apart from the others and refuse what is outside, sorting keeps the elements and the order of equal ones, and shuffling keeps the elements.""",
     ["inputs"], "every acyclic graph, list of roots and order of children; every table and cell",
     "The tests walk a few fixed graphs; repeated roots, roots below each other and diamonds in a particular order decide whether the order is right.",
     ["utils/src/graph_traversals.rs", "utils/src/array_2d.rs", "utils/src/sorted.rs", "utils/src/shuffled.rs"],
     [("stack and set of the visited", "utils/src/graph_traversals.rs"), ("index arithmetic", "utils/src/array_2d.rs")],
     ["sequence of the nodes emitted"])
check("U03", "mc-utils", "model_checking", "exhaustive enumeration of small acyclic graphs on the real walks against a recursive reference", "Four nodes in the quick tier, five in the thorough one.")

prop("U05", "Network addresses are read for what they say and print back to themselves",
     """A text is read as an IP address or domain name with the port it gives, if any, and refused if it is neither, has a port out of range or, where a port is needed, has none; no text makes the reader panic.
     What was read prints as a text that reads back equal, also in JSON, and an IP address resolves to exactly itself, with its port.""",
     ["inputs"], "every text",
     "Colons separate ports and are part of addresses; only systematic enumeration meets the texts in which the two can be confused.",
     ["utils/networking/src/network_address.rs", "utils/networking/src/ip_or_socket_address.rs", "utils/networking/src/resolvable_name.rs"],
     [("splitting off the port", "utils/networking/src/network_address.rs")],
     ["address and port read; text printed; addresses resolved"])
check("U05", "mc-utils", "exploration", "exhaustive enumeration of short texts and of edits of valid ones against a reference reading", "Texts of up to six (thorough: seven) of nine characters; the standard library's reading of bare addresses is trusted.")

prop("U06", "A drawn QR code is the code of its text",
     """Every drawing of a text's QR code, in half blocks or full ones, in either colours and with any border, shows exactly the dark and light modules of the code of that text, with the border around it.
     A text that is too long is refused.""",
     ["inputs"], "every text, border and style",
     "Codes of odd and even height, borders of odd width and both colours are handled apart, and a drawing that is wrong in one row does not scan.",
     ["utils/src/qrcode.rs"], [("drawing in half blocks", "utils/src/qrcode.rs")],
     ["characters drawn"])
check("U06", "mc-utils", "exploration", "exhaustive enumeration of text lengths, styles and borders, each drawing read back into modules", "The QR code library is trusted.")

prop("U07", "Settings mean what they say and anything else is refused",
     """The words for yes and no and the names of the log styles are recognised in any case, and any other text is refused, not guessed at.
     A given setting wins over the default, the data directory is the one given and is made or demanded to exist as documented, and a cookie file yields the name and password before and after its first colon or is refused.""",
     ["inputs", "configurations"], "every text of a setting, state of the file system and combination of options",
     "What matters is that everything else is refused and that nothing is created by mistake, which takes all the other cases.",
     ["utils/src/env_utils.rs", "utils/src/default_data_dir.rs", "utils/src/cookie.rs", "logging/src/log_style.rs", "utils/src/config_setting.rs"],
     [("data directories", "utils/src/default_data_dir.rs"), ("cookie files", "utils/src/cookie.rs")],
     ["values read; directories present afterwards"])
check("U07", "mc-utils", "exploration", "exhaustive enumeration of texts, edits and file system states against a reference", "File system cases run in a scratch directory.")

prop("U08", "An encrypted value opens with its own key only, and unaltered",
     """A value stored with a key is recovered with that key and no other; any altered or shortened ciphertext is refused, and without a key or with the wrong one the value is not given out.
     A value stored without a key is recovered as it was, and both forms survive encoding.""",
     ["inputs"], "every value, key, and alteration",
     "The tests use one key and one value; that nothing but the right key and the whole ciphertext will do takes trying all the others.",
     ["utils/src/maybe_encrypted.rs"], [("with and without a key", "utils/src/maybe_encrypted.rs")],
     ["value or error"])
check("U08", "mc-utils", "exploration", "exhaustive enumeration of keys, bit alterations and cuts on the real container", "Two keys; values of up to 2^20 bytes.")

prop("U04", "Counters and waiting primitives neither lose updates nor wake early",
     """Concurrent updates through the atomic wrappers are never lost, and the acquire-release and sequentially consistent ones publish what was written before them.
     Waiting for outstanding trackers returns only after every tracker is gone and then sees everything their holders did, also when the waiting happens on drop.""",
     ["schedules"], "every interleaving and every memory-model outcome of two or three threads",
     "The interleavings and weak-memory outcomes in which a wrong ordering or a non-atomic update shows are rare or impossible on the test machine.",
     ["utils/src/atomics/simple_atomic.rs", "utils/src/atomics/atomic_traits.rs", "utils/src/blockuntilzero.rs", "utils/src/counttracker.rs"],
     [("orderings of the wrappers", "utils/src/atomics/simple_atomic.rs"), ("waiting for trackers", "utils/src/blockuntilzero.rs")],
     ["final counts; data written by tracked threads"])
check("U04", "mc-loom", "model_checking", "stateless exploration of interleavings and memory-model outcomes of the real code under loom",
      "Loom's memory model; small thread counts.")

prop("U09", "Each log gets the events its filter lets through, and errors are reported once",
     """However logging is set up (filter and style as values or from the environment, one or two writers, a terminal or not), each writer gets exactly the events its filter lets through, in order and in its style; settings that cannot be read fall back to the defaults and are complained about, and setting up again changes nothing.
     The helpers that log the error of a result report it once, at the level asked for and with the place of the call, report nothing of a success, and hand the result on unchanged.""",
     ["configurations"], "every filter, style and source of a setting, for each writer",
     "Logging can be set up once in a process, so a test sees one set-up; which events get through is decided by the combination of all settings.",
     ["logging/src/lib.rs", "logging/src/log_style.rs", "logging/src/utils.rs", "utils/src/tap_log.rs", "utils/src/log_utils.rs", "utils/log_error/src/lib.rs"],
     [("filters and styles", "logging/src/lib.rs"), ("errors of results", "utils/src/tap_log.rs"), ("the attribute", "utils/log_error/src/lib.rs")],
     ["lines written to each log"])
check("U09", "mc-logs", "exploration", "exhaustive enumeration of logging set-ups, each in a process of its own, against a reference of what is to be written", "Lines are those of tracing-subscriber; one process for each set-up.")
