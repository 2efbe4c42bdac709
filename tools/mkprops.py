#!/usr/bin/env python3
"""Writes properties.jsonl (kept as code so that the statements are easy to edit)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, state=None, observe=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = state
    if observe: a["observe_at"] = observe
    P.append({"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": text},
              "why_tests_cant": why, "anchors": a})

p("P01", "Lists behave as a mutable sequence under every history of operations",
  "For every history of list operations (literals, list(n), push/append, pop, shift, unshift, put, at, first, last, length, remove, delete, slice, clone, reverse, nreverse, join, string, cmp, each, map, filter, reduce) each result and the contents of every list seen through every alias are those of a mathematical sequence: negative indices count from the end, an index outside the list reads as nil and removes nothing, pop and shift of an empty list give nil, put just past the end appends, and put with any other outside or non-integer key turns the list, for all its aliases, into a table with the same entries. == and != tell whether two values are the same list. remove, slice, clone, reverse, map and filter leave the original untouched.",
  ["histories", "inputs"], "every sequence of list operations, every index in and around the bounds, every aliasing between variables and nested lists, whatever the collector does in between",
  "The tests run a handful of fixed programs; capacity boundaries, empty lists, out-of-range and negative indices, aliasing across growth and conversion to a table depend on the history.",
  ["core/table.c", "core/potion.h", "core/gc.c"], [("growth, removal and index handling of the list methods", "core/table.c"), ("forwarding of moved lists", "core/potion.h")],
  "list contents and the aliases of each list", "results of the list methods, contents through every variable")
p("P02", "Tables behave as a finite map under every history of operations",
  "For every history of table operations (literals, put, at, remove, length, clone, slice by keys, keys, values, each, map, filter, string) with nil, boolean, integer or string keys, a table behaves as a finite map: at gives the value last put under that key and nil otherwise, put and remove affect no other key, length is the number of keys, and keys, values, each, map and filter visit each entry exactly once in some order. clone, slice and filter build new tables and leave the original untouched, and all aliases of a table see the same entries, and are ==, however much it grows or shrinks.",
  ["histories", "inputs"], "every sequence of puts, removes and queries over any keys, past any number of rehashes, with aliases held by variables and other containers",
  "Collisions, deletion markers, rehashing and re-use of deleted slots only appear in particular histories; the tests put and read a few fixed keys.",
  ["core/table.c", "core/khash.h"], [("open addressing hash", "core/khash.h"), ("table methods", "core/table.c")],
  "set of key/value pairs, aliases", "results of the table methods")
p("P03", "Strings are immutable UTF-8 texts and byte buffers are mutable byte sequences",
  "For every text, length, indexing, slice, ord, +, cmp, number and conversions between string and bytes agree with the sequence of its UTF-8 encoded characters (length, indexing and slice count characters, negative indices count from the end, ord gives the code point of the character at the index, indexing past the end gives the empty string) and never change the text. A bytes buffer is the sequence of bytes put into it by any history of append and clone: length and indexing count bytes, an index outside gives nil, appending (including to itself) affects exactly that buffer and its aliases, and a clone is an independent equal copy.",
  ["inputs", "histories"], "every text built from 1 to 4 byte characters, every index and range, every history of appends and clones",
  "Multi-byte boundaries, negative and out-of-range indices, buffer growth and aliasing are unbounded; the tests use a few constants.",
  ["core/string.c", "core/contrib.c"], [("UTF-8 offset computation", "core/string.c"), ("buffer growth", "core/string.c")],
  "texts and buffers", "results of string and bytes methods")
p("P04", "Equal strings are one object, however they are built and whenever memory is collected",
  "Any two strings with the same characters are == and find the same table entry, whether they come from literals, concatenation, slicing, number or list formatting, joining, or conversion from bytes, and whatever collections happen between building one and building or comparing the other. Strings with different characters never compare equal.",
  ["histories", "inputs"], "every way of constructing strings, every interleaving of construction, loss of references and minor or major collections",
  "Interning is a weak table maintained by the collector, so failures need a collection between two constructions while one copy is reachable only through the heap.",
  ["core/string.c", "core/gc.c", "core/gc.h"], [("weak string table", "core/gc.c"), ("interning on construction", "core/string.c")],
  "set of live strings", "== and table lookup")
p("P05", "Garbage collection never changes what the program can reach",
  "At every point of every program, a minor or full collection leaves the graph of objects reachable from its variables unchanged: the same values, the same sharing and the same identity, for lists, tables, strings, bytes, numbers, closures and their captured variables, and objects with fields. This holds when collections happen inside callbacks of map, filter, reduce, each and sort, and after any mutation of old objects.",
  ["schedules", "histories"], "every history of allocation and mutation, every placement of minor and full collections",
  "The collector runs when an allocation happens to fill the nursery; tests hit few placements and small graphs.",
  ["core/gc.c", "core/gc.h", "core/internal.c", "core/table.c"], [("copying, forwarding and the write barrier", "core/gc.c")],
  "object graph", "contents and identity of everything reachable")
p("P06", "Interpreter and JIT give every program the same meaning",
  "Every program of assignments, arithmetic, comparisons, boolean and conditional expressions, if/elsif/else, while, loop, break, continue, times/to/step blocks and nested expressions produces the output its reference semantics prescribes, both under the bytecode interpreter and under the JIT compiler, regardless of how many variables and temporaries it uses within the limits of the instruction format (12 bit operands, 255 registers).",
  ["programs"], "every well formed program of the described core language",
  "Tests check fixed programs; code generation errors depend on register pressure, nesting and jump distances.",
  ["core/compile.c", "core/vm.c", "core/vm-x86.c", "core/opcodes.h"], [("code generation", "core/compile.c"), ("interpreter", "core/vm.c"), ("JIT", "core/vm-x86.c")],
  "variables and control point", "printed output")
p("P07", "Closures capture variables lexically and share them",
  "A block or function reads and assigns the variables of the scopes around it: several closures over the same variable see each other's assignments, each activation of the enclosing function has its own instance, and captured variables live on after their function returned, at any nesting depth, in interpreter and JIT.",
  ["programs", "histories"], "every nesting of functions, every order of calls and assignments to captured variables",
  "Sharing and freshness show only in particular combinations of creation, call and assignment; tests fix a few.",
  ["core/compile.c", "core/vm.c", "core/vm-x86.c", "core/internal.c"], [("captured variable cells", "core/vm.c")],
  "variable instances", "printed output")
p("P08", "Calls bind arguments to parameters as declared",
  "Calling a function binds positional arguments in order, named arguments to the parameter of that name wherever it is, and missing optional parameters to their defaults (nil when none is given); arity and minargs report the number of parameters and of required ones. Repeating a call never changes how later calls bind, in interpreter and JIT.",
  ["programs", "inputs"], "every signature of required, optional and default parameters and every call with positional and named arguments",
  "The space of signatures times calls is large and defaults are filled by separate code in interpreter, JIT and C calls.",
  ["core/vm.c", "core/vm-x86.c", "core/compile.c", "core/internal.c"], [("argument binding", "core/vm.c"), ("signatures", "core/internal.c")],
  "parameter bindings", "values of parameters inside the function")
p("P09", "Method lookup and object state follow the class hierarchy",
  "A message is answered by the most derived definition along the class chain of the receiver as it stands at that moment: subclasses inherit and may override, (re)defining a method or adding one to any class or built-in type takes effect at once for existing objects even at call sites already executed, and a method defined on a metaclass does not leak to instances. Instance variables belong to each object alone and keep their last assigned value; unset ones read as nil. A query (v ?m, v ?m(), v ?/x) tells whether the message or the value is there, and sends the message only then.",
  ["histories", "programs"], "every class hierarchy and every interleaving of definitions, redefinitions, instantiations, calls and assignments",
  "Method caches and compiled lookup tables are invalidated by redefinition; errors need a particular order of call and definition.",
  ["core/objmodel.c", "core/vm.c", "core/vm-x86.c"], [("method tables and inline caches", "core/objmodel.c")],
  "class chain, method tables, object fields", "results of calls, values of fields")
p("P10", "Integer arithmetic is exact and comparisons are a total order",
  "For all integers in range, +, -, *, /, %, **, <<, >>, ~, abs and the comparisons give the mathematically exact result (division truncates toward zero), identically in interpreter, JIT and by method call, and results of + - * ** outside the integer range become a floating point approximation instead of wrapping. An operation on numbers of which one is floating point gives the floating point number nearest to the exact result (% with the sign of the dividend, integer rounds down), and orders them exactly. times, to and step visit exactly the documented numbers in order.",
  ["inputs"], "all pairs of integers, in particular at the tag, 32 bit and 63 bit boundaries",
  "The boundary behaviour of tagged arithmetic differs per operator and execution engine; tests use small positive numbers.",
  ["core/number.c", "core/vm.c", "core/vm-x86.c"], [("tagged arithmetic", "core/vm.c"), ("JIT arithmetic", "core/vm-x86.c")],
  None, "printed results")
p("P11", "Sorting returns an ordered permutation",
  "sort(true), sort(false) and sort with a comparison closure return a new list that is a permutation of the receiver in ascending, descending, respectively the closure's order, ins_sort does the same in place, for every list of integers (or of strings with a closure) of any length including empty and with duplicates and negative numbers. Sorting never changes the original (except ins_sort) and a list sorted without argument finds each of its elements by bsearch.",
  ["inputs"], "every list, in particular every permutation with repetitions up to a bound",
  "Partitioning errors depend on the arrangement; tests sort two lists.",
  ["core/table.c", "core/table.h"], [("quicksort and insertion sort", "core/table.c")],
  "the list", "the sorted list")
p("P12", "Continuations resume exactly the captured control state",
  "Calling a continuation captured with here returns to that point with the call chain as it was captured, as often as it is called and from any depth, while heap values keep their current contents; statements before the capture are not executed again and those after it are.",
  ["histories", "programs"], "every number and placement of resumptions, at any call depth",
  "Captured stacks interact with collections and call depth; the tests resume once or twice at top level.",
  ["core/callcc.c", "core/gc.c"], [("stack capture and restore", "core/callcc.c")],
  "control stack", "printed output")
p("P13", "Files behave as byte sequences with a position",
  "For every history of open, read, write, seek, tell, eof and close on File and BufFile objects in any mode, the bytes read and the final contents of the file are those of a byte sequence with a current position: writes then reads give back what was written, append always goes to the end, w truncates, r of a missing file fails, and reads past the end give the available prefix.",
  ["histories", "inputs"], "every sequence of file operations in every mode",
  "Order of operations, modes and positions combine without bound; tests read and write one file.",
  ["core/file.c", "lib/buffile.c"], [("File methods", "core/file.c"), ("BufFile methods", "lib/buffile.c")],
  "file contents, position, mode", "results of reads, final contents")
p("P14", "Compiling to bytecode and loading it back preserves the program",
  "For every program, the bytecode file written by the compiler, loaded and run later, behaves exactly as the program run from source: same output in interpreter and JIT, for any number and kind of constants (integers of any size, floating point numbers, strings, booleans, nil, lists), variables, nested functions and signatures.",
  ["programs"], "every program",
  "Encodings of counts and sizes fail only beyond particular sizes and constant values; the tests round-trip small files.",
  ["core/compile.c", "core/load.c", "tools/potion.c" if False else "core/potion.c"], [("dump and load of prototypes", "core/compile.c")],
  "compiled prototype", "printed output")
p("P15", "Expressions group by the documented precedence and associativity",
  "Every expression over literals, variables, unary and binary operators, messages and parentheses is grouped by operator precedence and left associativity, so it evaluates to the same value as its fully parenthesised form, however the text is spaced and split over lines inside parentheses. Literals denote the value written (decimal, hexadecimal, floating point, strings with escapes).",
  ["programs", "inputs"], "every expression",
  "The grammar's interaction of operators is combinatorial; the tests try few combinations.",
  ["core/syntax.y"], [("expression grammar", "core/syntax.y")],
  None, "value of the expression, parse tree")
p("P16", "The parser generator implements PEG semantics",
  "A parser generated by greg from any grammar accepts exactly the inputs, consumes exactly the prefix and runs exactly the actions that PEG semantics prescribes: ordered choice commits to the first matching alternative, repetition is greedy, predicates consume nothing, and actions run in match order only for the successful parse, each with the text its own capture matched. Classes and literals match the bytes their characters, ranges and escapes denote, and a parser can be used again on the rest of its input.",
  ["programs", "inputs"], "every grammar of literals, classes, sequences, choices, predicates, repetitions, rules and actions, and every input",
  "greg is only exercised through the grammars in the repository, and mostly by building them.",
  ["tools/compile.c", "tools/tree.c", "tools/greg.y"], [("code generation per operator", "tools/compile.c")],
  "input position, matched text, pending actions", "acceptance, consumed length and action output of the generated parser")
p("P17", "The loader finds the first matching file along its search path",
  "load name runs the first file found by trying the directories of the search path in order and in each the extensions in order (bytecode, source, shared object), or exactly the named file when the name already has an extension; it reports failure when there is none, and load path changes affect subsequent loads.",
  ["configurations"], "every arrangement of files in directories and every name",
  "The tests load one module from one place.",
  ["core/load.c"], [("search order", "core/load.c")],
  "directory contents, search path", "which file is executed")
p("P18", "Handles of the event loop fire as scheduled",
  "A run of the event loop calls the callback of the latest start of each timer at its timeout, in order of due time (those due together in order of their starts), repeating ones again every interval; every started idle, prepare and check handle once per pass; and an async handle once for any number of sends since its last call. Each callback gets its own handle. A stopped handle is never called, again and set_repeat reschedule as documented, and run returns when nothing is active (default) or after one pass.",
  ["schedules", "histories"], "every set of handles, every history of start, stop, again, set_repeat and send between runs and inside callbacks, and every collection schedule",
  "The tests do not run a loop.",
  ["lib/aio.c"], [("handle wrappers and callbacks", "lib/aio.c")],
  "active handles", "order and time of callbacks")
p("P19", "Database queries hand every row to the callback",
  "exec runs the statement on the opened database and calls the callback once per result row in order with all column values; changes are visible to later queries and persist in the file until closed and reopened.",
  ["histories", "inputs"], "every history of statements",
  "The tests do not exercise the library.",
  ["lib/database.c"], [("row callback", "lib/database.c")],
  "database contents", "rows passed to the callback")
p("P20", "Line editing keeps buffer and history consistent",
  "The interactive line editor turns every sequence of key presses into the line those edits describe: insertions and deletions happen at the cursor, movement stays within the line, history recall and edits do not lose or mix entries, and accepting a line returns exactly the buffer.",
  ["histories", "inputs"], "every sequence of key presses",
  "The tests never run the editor on a terminal.",
  ["lib/readline/linenoise.c"], [("key handling", "lib/readline/linenoise.c")],
  "line buffer, cursor, history", "line returned")
p("P21", "Licks and lists written as data notation read back as the same structure",
  "The data notation for licks (name, text, attributes, nested licks) denotes the tree it spells: name, text (where it is a string), attr and inner licks are those written, at any nesting and with the attributes before or after the rest; printing a tree gives its notation in normal form (name, then text or inner licks, then attributes), and where the texts are numbers or plain words without attributes that notation reads back as an equal tree.",
  ["inputs"], "every tree",
  "The tests read two documents.",
  ["core/lick.c", "core/syntax.y"], [("lick methods", "core/lick.c")],
  "tree", "name/text/attr/string of each lick")
p("P22", "Streams and datagrams deliver what was sent, and call back once",
  "On connections made by the event loop over local pipes or TCP, the bytes an end reads are those the other end wrote, in order, each once, whatever sizes they are written and read in and whatever is collected meanwhile; the end of the stream is reported after all of them and only when the other end was shut down. Every write, shutdown and connect calls its callback exactly once, with its own status, writes in order and a shutdown after the writes before it; a write after a shutdown is refused and returns an error; a stopped reader reads nothing until it is started again, and then loses nothing. A datagram sent to a bound socket over the loopback arrives whole, once and in order of sending; one that is too long is reported to its sender and sends nothing. A run ends when nothing is left to come.",
  ["schedules", "histories"], "every plan of operations of both ends in and out of callbacks, every size of writes and every order in which the loop may deliver the events",
  "The tests open no stream.",
  ["lib/aio.c"], [("requests, reads and writes of streams", "lib/aio.c"), ("where callbacks are kept", "core/potion.h")],
  "bytes on their way, requests pending", "events with their bytes and status, results of operations")
p("P23", "A text that is no program is refused as a whole",
  "A source text whose delimiters do not match (parentheses, brackets, braces, blocks, strings), that holds bytes which are not UTF-8, or a string with an escape for a character that does not exist, is refused before any of it runs: nothing of it is executed or printed, no bytecode file is written, a message says so and the program ends with exit status 1; in interpreter and JIT, from a file, with -e, through eval and load, where what ran before stays done. Delimiters inside strings and comments are only text: a text that differs from a program only there is a program with the same statements.",
  ["inputs"], "every program and every change of it by one token, byte or cut",
  "The tests contain a handful of erroneous texts.",
  ["core/syntax.y", "core/potion.c", "core/load.c", "tools/compile.c"], [("grammar and potion_parse", "core/syntax.y"), ("reading files and -e", "core/potion.c")],
  "how far the text is read: code, string or comment, open delimiters", "output, messages, exit status, files written")
out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for x in P: f.write(json.dumps(x) + "\n")
