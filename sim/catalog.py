"""The checks: sizes per tier, what makes a scenario count, what is real and what is stubbed"""
REAL = ["the whole of shrinko8/shrinkotron as shipped in /repo (argument parsing, readers, writers, tokenizer, parser, minifier, compressors, exporters), started through its main() in a forked child process",
        "CPython 3.12 with its standard library (io buffering, os.path, shutil, zipfile, http.client, argparse) and Pillow"]
STUB = ["file system, pipes, sockets, web server, clock, process signals: the simulated kernel in sim/kernel.py (each system call is served, logged and faulted there)",
        "pico8.dat / picotron.dat: synthetic files of the same layout, made by sim/gen8.py and sim/gen64.py (the real ones are proprietary)"]
ASSUME = ["the simulated kernel follows POSIX for the calls the tool makes", "a fault is an error or effect the operating system is allowed to produce"]

# pid: quick/thorough = (scenarios, soft deadline per worker in s, wall-clock limit in s)
PROPS = {}
def add(pid, quick, thorough, rule, **kw):
    PROPS[pid] = dict(quick=(quick, 75, 400), thorough=(thorough, 700, 850), rule=rule, **kw)

add("C01", 1200, 40000, "a scenario is a random command of either tool with its inputs, run once without faults and with several fault or fragmentation plans aimed at its own system calls; distinct = differs in command kind, output formats or the set of (fault kind, system call) injected",
    level="fault_enumeration", technique="seeded fault plans against every system call of a run, compared with the fault-free twin and with independent format readers",
    note="Sampled, not exhaustive: seeded commands x seeded fault placements. A success must give byte-identical outputs to the fault-free run of the same code; that run's outputs must also parse with independent decoders. Trusts the simulated kernel and those decoders.")
add("C02", 1200, 40000, "a scenario is a random command of either tool, either broken so that it must fail before output begins or hit by kill, interrupt, out-of-memory, disk-full and I/O faults at random points; distinct = differs in command kind, breakage or the set of (fault kind, system call)",
    level="fault_enumeration", technique="kills, interrupts and I/O faults at seeded points, file-system snapshots compared before/after",
    note="Sampled. Every file of the simulated disk is compared before and after each run; outputs must be old or a prefix of the fault-free new contents.")
add("C05", 1500, 40000, "a scenario is a cart in one of ten formats taken through 1-6 conversions (formats, compression options, streams, URLs, in-place, exports) in separate simulated processes with fragmented I/O; distinct = differs in the sequence of formats and transports",
    level="exploration", technique="seeded histories of conversions checked after every step against an independent model of the cart and independent codecs, with fragmentation of every stream",
    note="Sampled. Decided by codecs written for this check from the format descriptions; trusts them and the generator's documented limits (no NUL or CR in code).")
add("C06", 1600, 40000, "a scenario is a random Picotron cart taken through 1-6 runs (p64, png, rom, directory, dat, html; insert, extract, merge, filter, delete-meta, version, list; pod options; streams; in-place), with killed and impossible runs mixed in; distinct = differs in the sequence of formats, options and edits",
    level="exploration", technique="seeded histories of runs checked after every step against a map from paths to contents and independent codecs, with kills, disk-full and fragmentation",
    note="Sampled. Decided by codecs and a path-map model written for this check; trusts them and the generator's documented limits (no line breaks or outer spaces in Picotron paths).")
add("C03", 1600, 40000, "a scenario is a directory-writing command (Picotron cart to directory, extract, dump, in-place, full export) with hostile or ordinary names, an existing or new output directory, stale contents and links, run without faults and with two fault plans; distinct = differs in command kind, output location, clean option or faults injected",
    level="fault_enumeration", technique="hostile inputs and injected file-system faults on a simulated disk whose every path is compared before and after",
    note="Sampled. Containment is judged on the whole simulated disk and on attempted calls outside it (which are recorded, never executed). Symbolic links the user put inside the output directory are only exercised with deletion, not as targets of writes.")
add("C04", 1600, 40000, "a scenario is a history of 2-9 runs on js and pod exports (create, insert, replace, delete, rename, list, extract, dump, convert, and impossible edits), with killed runs and fragmentation mixed in and ordinary or odd cart names; distinct = differs in the sequence of operations and export formats",
    level="exploration", technique="seeded histories of edits checked after every run against an ordered-list model through an independent decoder of both export formats, with kills and disk-full at seeded points",
    note="Sampled. Everything in the export outside its carts must also stay unchanged. Names a format cannot express may be refused, but never altered.")
add("C07", 1500, 40000, "a scenario is a cart in one of 17 stored forms, read in one of 11 roles (main input, in place, merge, include, label, extra, edited, listed, dumped, extracted...) from a file, standard input or URL, intact once and then with 2-6 damages (stored bytes flipped under the hash, cut at a byte, connection dropped, file ending early while being read); distinct = differs in tool, format, role, transport or damage kinds",
    level="fault_enumeration", technique="seeded damage and early stream ends at every byte offset, compared with the run on the intact cart",
    note="Sampled. A damaged cart may be accepted only if the run's outputs equal those of the intact cart. Not asked for where the format has no means to tell: an untrailed Pico-8 rom (a shorter one is a tiny rom), uncompressed tiny or url code, the sprite part of a url, a p64 cut inside its signature, p8/lua text.")
add("C18", 1200, 30000, "a scenario is a main cart and up to 4 merge sources in 12 stored forms (label and sprite-sheet images included) taken through 1-4 runs that merge sections and metadata, set label, title or version, select output sections or name an unusable source, with read faults on the sources; distinct = differs in formats, transports and section lists",
    level="exploration", technique="seeded histories of merge runs checked after every step against a section-map model through independent codecs, with failing reads and unusable sources",
    note="Sampled. Decided by codecs written for this check. Merging a metadata section the source lacks is not exercised.")
add("C08", 1500, 40000, "a scenario is a random command of either tool (half of them made of many equally frequent names and many files), run once and again 2-3 times with another hash seed (in an interpreter of its own), directory enumeration order, clock, random seed, working directory, environment, absolute paths or leftovers of an earlier run; distinct = differs in command, formats, options or what is varied",
    level="exploration", technique="seeded variation of every source of nondeterminism behind the simulated kernel, with the output of all runs compared byte for byte",
    note="Sampled. Timestamps of binary exports are only compared with the reproducible-time setting. Locale and time zone are simulated as environment variables.")
add("C09", 1200, 30000, "a scenario is 2-6 commands of both tools run one after another in one process, some failing, some interrupted or hit by I/O and memory faults, compared with the same commands each in a new process; distinct = differs in the sequence of options and faults",
    level="exploration", technique="seeded histories of calls of main() in one simulated process compared with one process per call",
    note="Sampled. --script is not exercised (scripts share one interpreter by design).")
add("C10", 1200, 40000, "a scenario is a cart in one of 14 input formats read through files once and then 2-4 times through standard input, URL (plain, chunked, unsized, redirected, bbs) or written to standard output, with fragmentation, broken pipes, resets, cut transfers and error responses; distinct = differs in formats, transports or faults",
    level="fault_enumeration", technique="seeded fragmentation and breakage of every simulated pipe and connection, compared with the run that uses files",
    note="Sampled. An early clean end of standard input or of an unsized download cannot be told from its end, and is not asked for; neither is a connection that closes inside the response headers (http.client takes it for their end).")
add("C11", 1200, 30000, "a scenario is a cart (p8, lua or Picotron) with nested #includes of lua files, carts, tabs and links in several directories, processed once and then 2-4 times with another working directory, another process changing, removing or replacing files between two system calls, and read faults; or an export made from pico8.dat/picotron.dat, or a cart image made from a template, label and title, with those files replaced, removed or unreadable at some system call; distinct = differs in the arrangement of includes, tool, format or what happens when",
    level="fault_enumeration", technique="seeded inclusion graphs with concurrent changes and read faults at seeded system calls, compared with an expansion model over the recorded reads",
    note="Sampled. Decided by an expansion model written for this check. A line that looks like an #include inside a multi-line string, empty last tabs and a file that is cut while being read (which no reader can notice) are not asked for.")
add("C12", 800, 20000, "a scenario is 2-5 commands of both tools with outputs of their own that share inputs, working directory and parent output directories, run alone and then together under 2-3 seeded interleavings of their system calls; distinct = differs in the set of commands or in the interleaving",
    level="exploration", technique="seeded interleavings of the system calls of concurrent simulated processes, compared with each run alone",
    note="Sampled schedules at system-call granularity. Binary exports use the reproducible-time setting.")
add("C13", 4000, 150000, "a scenario is a random command of either tool with one or two of its inputs damaged: flipped, cut, spliced, repeated, tokens and lines inserted or doubled, lengths made extreme, deeply nested code, damage inside an intact container (hashes and compression redone), files crafted to be wrong, streams ending early; distinct = differs in tool, command kind or options",
    level="exploration", technique="seeded damage of every kind of input with the work of the run counted in simulated steps (jumps and calls of Python code, system calls) and memory capped",
    note="Sampled. The bound is 6 million steps plus 1500 per byte of input, and 800 MB: about ten times what the slowest intact carts need. Ending by an uncaught exception counts as reporting failure.")
add("C14", 1500, 40000, "a scenario is 1-3 binary exports of either tool (in one process) or another command, run under 2-3 clocks: zero, before 1980, after 2107, around year and two-second steps, in six time zones, ticking, jumping and running backwards between reads, with or without the reproducible-time setting; distinct = differs in commands, options, era of the clock or kind of clock movement",
    level="exploration", technique="seeded clock values, drifts and jumps behind the simulated clock, zip entries read by an independent reader and compared with the recorded readings of the clock",
    note="Sampled. Times outside what a zip file can hold have to be brought into its range. Zones are fixed offsets; daylight saving is not exercised. Values of the setting that are not numbers are not exercised.")
CONSOLE = ["the virtual machine the programs are played on: z8lua (lupaz8), real code; for Picotron programs a Lua 5.4 of our own in sim/lua54.py (no Lua 5.4 is installed)",
           "the console around it (drawing, sound, input, clock, random numbers, memory, frame scheduler): a recording stub in sim/console.py (sim/console54.py for Picotron) whose answers, faults and stops come from the schedule"]
add("C15", 4000, 100000, "a scenario is a random program (with _ENV, names as strings, metamethods, coroutines, overridden built-ins, shorthands, odd layout) taken through 1-2 safe minifications with random focus and partial options in random formats, and played before and after under the same 3 schedules of frames, buttons, clock, failing calls and stops; distinct = differs in options or program",
    level="exploration", technique="seeded programs and seeded schedules of a simulated console (frames, input, clock steps and jumps, skipped draws, failing calls, stops at an instruction), with the recorded calls of the original and the minified cart compared",
    note="Sampled programs and schedules. Error messages and instruction counts are not compared; programs that need more than the step budget are discarded.", stub=STUB + CONSOLE)
add("C16", 4000, 100000, "a scenario is a random program that keeps to the documented restrictions or lifts them with the documented hints, preserve lists and constants, fully minified (sometimes safely once more) with random focus and partial options, and played before and after under the same 3 schedules; distinct = differs in options or program",
    level="exploration", technique="seeded programs with hints and seeded schedules of a simulated console, with the recorded calls of the original and the minified cart compared",
    note="Sampled programs and schedules. What the documentation excludes is not generated (names mixed with strings without hints, unhinted _ENV, observable metamethods between merged assignments).", stub=STUB + CONSOLE)
add("C17", 4000, 100000, "a scenario is a random program unminified with random indentation, after a minification, before one (safe or full, with the hints kept as comments) or twice, and played before and after under the same 3 schedules; distinct = differs in options or program",
    level="exploration", technique="seeded programs, chains of runs and seeded schedules of a simulated console, with the recorded calls of the original and the rewritten cart compared",
    note="Sampled programs and schedules.", stub=STUB + CONSOLE)
