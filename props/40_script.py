prop("C01", "The script interpreter does what the opcodes mean, and only refuses what it must",
     """Running a script gives exactly the stack its opcodes describe, or an error where they call for one, and never crashes the node. Instructions in a
     branch that is not taken have no effect on the stack or on what is signed; signatures are checked against the keys in order, over the part
     of the script after the last separator that was run; time locks are checked with the value on the stack.
     Stack, element, key and script limits are enforced exactly, and a witness may only push data.""",
     ["programs"], "every script and every starting stack",
     "The interpreter's tests run short sequences of some opcodes from an empty stack with a signature scheme that ignores separators; number encodings, deep stacks, limits and mixed key lists are not reached.",
     ["script/src/interpreter.rs", "script/src/script.rs", "script/src/opcodes.rs", "script/src/context.rs", "script/src/util.rs"],
     [("opcode dispatch, branches, stack limits", "script/src/interpreter.rs"), ("matching signatures to keys", "script/src/interpreter.rs"), ("opcode classes", "script/src/opcodes.rs")],
     ["result of running a script", "signature and time lock checks asked of the caller"])
check("C01", "mc-script", "model_checking", "exhaustive enumeration of scripts and stacks run on the real interpreter and a reference interpreter",
      "All single opcodes on all stacks, all sequences over small alphabets to the stated lengths, all key and signature lists to 4 and 3, all sizes around the limits.")

prop("C02", "Scripts and numbers mean the same to the builder, the parser and the printer",
     """What the builder writes parses back to the instructions that were asked for, in the shortest form where one is asked for; a script parses exactly when every
     push is complete, and under the shortest-form rule exactly when every push is also as short as it can be. Numbers and truth values survive
     their encoding, standard templates are recognised exactly, and the printed form shows every instruction and all of its data.""",
     ["inputs"], "every byte string, number and sequence of builder calls",
     "Tests parse a handful of known scripts; lengths around the encoding boundaries, data that looks like an opcode and broken tails are not tried together.",
     ["script/src/script.rs", "script/src/opcodes.rs"],
     [("instruction iterator", "script/src/script.rs"), ("builder", "script/src/script.rs"), ("number encoding", "script/src/script.rs")],
     ["bytes, instructions, numbers and text"])
check("C02", "mc-script", "exploration", "exhaustive enumeration of byte strings, numbers and builder calls against a grammar",
      "All byte strings to length 2 (thorough 3) and longer ones over chosen bytes; all lengths around the push boundaries.")
