# property -> (technique, level_note); executed by mkmanifest.py
checks["P01"] = (T, "Every list operation from every reachable state of two variables, one or two lists of bounded length is executed on the real "
  "runtime (with collections injected), plus random behaviours over 60 step histories; trusts TLC and the driver's printing of objects.")
checks["P02"] = (T, "As P01 for tables: exhaustive small states, random histories past several rehashes. Keys are nil, booleans, integers, strings.")
checks["P05"] = (T, "Collections are stuttering steps of the model; they are placed between all operations and inside callbacks of exhaustive small "
  "histories and of random ones, and the reachable graph (values, sharing, identity) is compared after them. Heap.tla does the same for graphs of lists, "
  "tables, objects and closures as programs, exhaustive small and random, with a collection at every (third, 17th) allocation. Bulk.tla does it for heaps that grow and are collected on their own account (lists of up to 1,000,000 elements, tables, texts of up to 100 MB).")
L = "TLA+ reference semantics of the language (Lang.tla), TLC exhaustive alphabets + random programs, run in interpreter and JIT"
checks["P06"] = (L, "Every control flow skeleton of an alphabet (loops with break/continue/return at every place, nested, conditions with effects) and random programs "
  "are executed by the specification and by bytecode interpreter and JIT. Programs stay within the documented formats (12 bit operands, 255 registers). Loops with many continues and breaks and long elsif chains are drawn at random.")
checks["P07"] = (L, "All histories of creating, aliasing and calling closures over shared variables (five settings) up to a depth, also under GC stress, and random programs; closures over up to 150 captured variables, through closures in between (Capt.tla).")
checks["P08"] = (L, "All signatures of up to four parameters times all calls (counts, orders of named arguments), pairs and nests of calls, and random programs.")
checks["P10"] = ("TLA+ model of exact integer arithmetic in base 10^4 limbs (Big.tla, Num.tla), TLC enumerates operand pairs, chains and iterations; replayed in interpreter, JIT and by method call",
  "All operators on all pairs of boundary values (around powers of two up to the 63 bit limits), as literals, from variables and by method call; random chains of operations; times/to/step ranges; the same operators with floating point operands that are multiples of 1/16, against the exact rational. "
  "Integer results outside the range are compared to within 2^-51; the model's own laws (division, ordering) are invariants checked by TLC.")
checks["P14"] = (L + ", compiled to bytecode files and loaded", "As P06-P08, each program compiled with -c and the .pnb run by interpreter and JIT in a new process; also programs of up to some 1000 constants of every kind (Lit.tla).")
checks["P15"] = ("TLA+ grammar and grouping rules (Expr.tla, Group.tla): Parse(Text(e)) = e checked by TLC, texts and values replayed in interpreter and JIT",
  "Every expression of up to 2-3 operators over the whole operator set and random ones of up to 7, as text with minimal, full and group brackets and varied spacing; random literals (Lit.tla): decimal and hexadecimal integers around and beyond the limits, floating point pairs compared exactly, strings of all escapes, characters and lengths to 700.")
checks["P03"] = (T.replace("model", "model of texts, byte buffers and UTF-8 (Str.tla)", 1), "All short histories over texts of 1-4 byte characters with every index in and around the bounds, "
  "and random histories with texts past 255 bytes and buffers past their capacity, by method call and as programs in interpreter and JIT, also with collections injected.")
checks["P04"] = (T.replace("model", "model of strings compared by contents (Str.tla)", 1), "After every step of all short and of random histories the strings reachable are compared for identity with the model's equality, "
  "with collections between and inside (POTION_GC_EVERY) the operations; programs also compare by == and table lookup.")
checks["P11"] = ("TLA+ specification of sorting as a transition system of exchanges (Sort.tla), checked by TLC to end in the counted order; its lists replayed in interpreter and JIT",
  "All lists of up to 5 (thorough 6) elements over 4 values and random shaped lists of up to 200, with seven comparisons including preorders with ties, sort and ins_sort, also with collections "
  "inside the comparison, and a few long lists (up to 300000).")
checks["P09"] = ("TLA+ model of classes, metaclasses, objects and message lookup without caches (Obj.tla), TLC enumerates histories; replayed as programs in interpreter and JIT",
  "Five alphabets of (re)definitions, instantiations, field and class assignments up to a depth, asked the same questions through the same call sites after every step; random histories of 40-120 steps "
  "over user classes and the built-in types, also with collections injected; classes with up to 330 fields and methods and thousands of classes (Wide.tla).")
checks["P12"] = ("TLA+ machine with an explicit stack of frames and captured stacks (Cont.tla), TLC runs all histories of an alphabet and random programs; replayed in interpreter and JIT",
  "Every main program of 3 (thorough 4) statements of an alphabet of captures, resumptions, calls and built-in loops with four callees, and random programs with nested blocks; also with collections injected "
  "and under a program that embeds potion and keeps its own variables beside the saved stack.")
checks["P21"] = ("TLA+ specification of the notation as a reader with a stack of open lists (Lick.tla): TLC checks that accepted notations denote the tree built and that printing reads back; texts and trees replayed in interpreter and JIT",
  "Every token sequence of up to 6 (thorough 7) tokens the reader accepts and random ones of up to 120 tokens nested 6 deep, walked by name, text, licks and attr, printed, and read back with eval; also with collections injected and from bytecode.")
checks["P16"] = ("TLA+ semantics of parsing expressions (Peg.tla) and of character notations (Notation.tla); grammars and their parses from TLC run through greg, the C compiler and the generated parser",
 "Every expression of up to 2 operators (3 in thorough) over the leaf vectors on every input of up to 4 characters, random grammars of 2-6 rules with bound rules, values, captures, tests on the captured length and error actions, repeated parses of one input in chunks; classes on all 256 bytes. Not claimed: captures left open over backtracking, '-' as the last character of a class after a single character, NUL inside longer literals.")
checks["P13"] = ("TLA+ model of files, handles and streams (File.tla); histories from TLC run as Potion programs in scratch directories, results and final contents compared",
 "Every history of 3 operations (4 in thorough) on one file with two handles, and random histories of 12-30 operations on two files, temporary files and standard input, in interpreter and JIT and under collections at every allocation. Not claimed: streams read and written with nothing between (undefined in C), a stream's unflushed data seen through another handle, the position of an appending stream before its first operation, fdopen, fmemopen.")
checks["P17"] = ("TLA+ model of the loader (Load.tla): TLC checks the first-match rule and gives arrangements of files and load histories, run in scratch directories",
 "Random arrangements of up to 14 sources, bytecode files and shared objects in 4 directories, 7 names, histories of loads (nested too) and search path changes, in interpreter, JIT and under collections.")
checks["P18"] = ("TLA+ model of the event loop (Loop.tla): handles, operations and the passes of a run under a virtual clock; schedules from TLC run as Potion programs on libuv with that clock preloaded, every callback, its time, handle and results compared",
 "Random schedules of 0-3 timers, 0-2 idle, prepare and check handles and 0-3 async handles: up to 14 operations between runs (three modes) and up to 24 callbacks that start, stop, again, set_repeat, send and sleep; in interpreter and JIT and under collections. Not claimed: file system, process, poll and signal handles (streams and datagrams are P22).")
checks["P22"] = ("TLA+ model of streams and datagrams of the event loop (Stream.tla): TLC gives plans of what both ends do, they run as Potion programs on real pipes and sockets, and TLC decides whether the recorded events of every run are a behaviour of the model",
 "Random plans of up to 3 connections over local pipes or TCP with writes of 0 to 300000 bytes (strings or bytes) in and out of callbacks, echoing servers, shutdowns, readers stopped and started again, connections refused, and of 2-4 sockets of datagrams up to the longest and one that is too long; in interpreter and JIT and under collections; the events with their bytes, order and results of every run validated by TLC, whose laws (nothing arrives that was not sent, the end comes last, every plan finishes) are checked over every order of events of small plans. Not claimed: close, socket options, names of peers, multicast, several buffers in a write.")
checks["P19"] = ("TLA+ model of files of tables, connections, statements and transactions (Db.tla); histories from TLC run as Potion programs, rows handed to the callbacks, results and the final files compared",
 "Random histories of 14-30 steps by one or two connections on one or two files: create, drop, insert, delete, update, select (ordered, filtered, aggregates, NULL), several statements in one exec, errors, transactions, callbacks that write, gettable, close and reopen; in interpreter and JIT and under collections. Not claimed: conflicting transactions of two connections (left to SQLite's locks).")
checks["P20"] = ("TLA+ model of the line editor (Line.tla): line, cursor, history with a place in it, completions and the visible window; key sequences from TLC fed to linenoise.c through a scripted terminal, and to readline in Potion programs on a pty",
 "Every sequence of 3 keys (4 in thorough) over 19 keys from three histories and widths, random sessions of 60-300 keys with keys arriving in parts, pastes up to the line limit, history limits, save and load; the line, cursor and row compared after every key. Byte editing: nothing is claimed about characters of several bytes; unhandled control characters and NUL unclaimed.")

checks["P23"] = ("TLA+ model of reading a text (Syn.tla): code, strings, comments and open delimiters; TLC damages programs in every way at every place, decides which results are malformed and what the others print; the texts are given to potion as files, to -e, -c, eval and load",
 "Every insertion of 10 delimiters, removal of a token and cut at every place of programs of one or two statements of nine kinds (all pairs in thorough), insertion of ill-formed and well-formed bytes and escapes, and random programs of 5-14 statements. Changes that leave the delimiters matched outside strings and comments may or may not be programs: nothing is claimed about them.")
