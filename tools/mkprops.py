#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one place to edit the property texts)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mechanism, state=(), observe=()):
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
              "anchors": {"files": files, "state": [dict(name=a, meaning=b, where=c) for a, b, c in state],
                          "mechanism": [dict(name=a, where=b) for a, b in mechanism],
                          "observe_at": list(observe), "hook_needed": None}})

prop("C01", "A successful exit means every requested output is complete",
     "Whenever shrinko8 or shrinkotron ends with a success status, every file, directory and standard-output stream it was asked to produce holds exactly the bytes that the same command produces on a machine where nothing fails. If a read, write, open, close, listing or flush that the run depended on failed, came up short or was refused, the run ends with a failure status and prints why. A short (partial) read or write that the operating system is allowed to return is absorbed and changes nothing.",
     ["fault_sequences", "configurations", "inputs"],
     "for every command, every cart, and every placement of I/O errors, disk-full, short transfers, vanished or unreadable files and failing closes along the run",
     "The tests run on a healthy disk only; no test makes any system call fail or transfer less than asked, so error paths and partial transfers are never executed.",
     ["utils.py", "run_shrinko.py", "pico_cart.py", "pico_export.py", "picotron_cart.py", "picotron_export.py"],
     [("all I/O goes through file_read/file_write wrappers in with-blocks so close errors surface", "utils.py:2226-2320"),
      ("OSError turned into a reported failure", "run_shrinko.py handle_input/handle_output"),
      ("status codes", "run_shrinko.py ErrCodes, main")],
     [("exit status", "0 = success, anything else = failure", "run_shrinko.py")],
     ["exit status", "stdout/stderr", "output files"])

prop("C02", "Runs touch only their outputs, and failing runs leave outputs intact",
     "A run modifies, creates or deletes nothing except the outputs named on its command line, whatever happens to it. If it fails for a reason that is known before output begins (unreadable or invalid input, missing include, template, label or merge source, syntax error, lint failure, cart too large, bad option value), every already existing cart, image or export it was to write, including the input when editing in place, keeps its previous contents (the rename map and compression traces, which are written as processing proceeds, excepted). If it is killed or an error hits while an output is being written, every other file keeps its old contents and a plain file output is either its old contents or a prefix of the new contents.",
     ["fault_sequences", "crash_points", "configurations", "inputs"],
     "for every command and cart, every reason to fail, and every point at which the process is killed",
     "No test kills a run or looks at the whole file system before and after one; in-place failure is not tested at all.",
     ["run_shrinko.py", "utils.py", "pico_cart.py", "pico_export.py", "picotron_cart.py", "pico_process.py"],
     [("output bytes are fully computed before the output file is opened", "pico_cart.py write_cart, picotron_cart.py write_cart64"),
      ("lint and compile errors return before handle_output", "run_shrinko.py main_inner"),
      ("size limits checked while encoding", "pico_compress.py, pico_cart.py, picotron_cart.py")],
     (), ["whole file system before/after", "exit status"])

prop("C03", "Directory outputs stay inside the chosen directory",
     "Dumping an export, extracting from or writing a cart as a directory creates, overwrites and deletes paths only inside the output directory the user named, whatever names the carts and files inside the input carry and whatever I/O errors occur. Files already in that directory that the run does not produce survive unless the clean-output option was given, and with that option only that directory's own old contents are removed. A name that cannot be placed inside the directory makes the run fail rather than write elsewhere.",
     ["inputs", "fault_sequences", "configurations"],
     "for every (hostile) input, every pre-existing directory content, and every I/O fault sequence",
     "Tests dump and extract a handful of benign carts with tame names; none checks paths outside the output directory.",
     ["picotron_cart.py", "pico_export.py", "picotron_export.py", "utils.py", "run_shrinko.py"],
     [("path_is_inside check on every child", "picotron_cart.py write_cart64_to_fs"),
      ("filename_fixup on names coming from the export", "pico_export.py dump_contents, utils.py filename_fixup"),
      ("dir_create(delete_existing)", "utils.py")],
     (), ["every mutating file-system call made by the run"])

prop("C04", "An export edited over time behaves as an ordered list of named carts",
     "A Pico-8 export (js or pod) behaves as an ordered list of named carts under any sequence of inserting, replacing, deleting, renaming, listing and extracting carts across separate runs: each successful edit changes exactly the addressed entry and the position it names, every other cart keeps its name, order and contents, and what is read back is what was last stored. An edit that cannot be done (no such cart, unreadable export or cart) fails and leaves the export as it was, and runs that fail or are killed between edits before writing lose nothing.",
     ["histories", "fault_sequences", "crash_points"],
     "for every history of edit, list and extract runs on one export, with I/O faults and kills between and during runs",
     "Tests perform one or two fixed edits on one fixed export; histories, failing edits and faults are not covered.",
     ["pico_export.py", "run_shrinko.py"],
     [("ListOp handling of insert/replace/delete/rename", "pico_export.py CartExport.write_cart / list ops"),
      ("read-modify-write of the whole export", "run_shrinko.py handle_output, pico_export.py write_to_cart_export")],
     [("list of (name, cart)", "contents of an export", "pico_export.py")], ["export file", "--list output", "extracted carts"])

prop("C05", "Pico-8 carts survive any chain of format conversions",
     "Converting a Pico-8 cart through any sequence of its storage formats (p8, png, rom, tiny-rom, clip, url, js, pod), compression settings and in-place rewrites, with data arriving and leaving in arbitrary fragments, preserves the code and every data section, flag, label, title-bearing comment, metadata section and version that the formats on the way can carry. Code that the target cannot hold makes the run fail; it is never cut off or altered silently. Converting to a format, back and again yields the same bytes (a fixed point).",
     ["histories", "inputs", "configurations", "fault_sequences"],
     "for every cart, every chain of conversion runs and options, every fragmentation of the streams",
     "Tests convert about a dozen fixed carts once each and compare with stored outputs; chains, boundary sizes, odd bytes and fragmentation are not exercised.",
     ["pico_cart.py", "pico_compress.py", "pico_export.py", "media_utils.py", "pico_defs.py", "utils.py"],
     [("readers and writers per format", "pico_cart.py"), ("code compression and its inverse", "pico_compress.py"),
      ("unicode <-> p8 charset mapping", "pico_defs.py"), ("memory sections mapping", "pico_cart.py, pico_defs.py Memory")],
     (), ["output files, decoded by independent decoders and by the tool itself"])

prop("C06", "Picotron carts survive any chain of format conversions and file edits",
     "Converting a Picotron cart through any sequence of its storage formats (p64, png, rom, directory), pod-encoding options and in-place rewrites preserves every path in the cart, the bytes of every raw file and the value and metadata of every pod file. Inserting, extracting, merging and filtering over any history of runs behaves like the same edits on a map from paths to contents: exactly the addressed files change.",
     ["histories", "inputs", "configurations", "fault_sequences"],
     "for every cart (set of paths and contents), every chain of conversion and edit runs, every fragmentation of the streams",
     "Tests convert a few fixed carts; odd file contents (control characters, empty files, marker-like lines), pod values of every kind, and edit histories are not exercised.",
     ["picotron_cart.py", "picotron_fs.py", "picotron_export.py", "pico_export.py", "picotron_defs.py"],
     [("per-format readers and writers", "picotron_cart.py"), ("pod parsing, pxu and lz4 encoding", "picotron_fs.py"),
      ("merge/filter over path globs", "picotron_cart.py merge_cart64, filter_cart64; picotron_defs.py Cart64Glob")],
     (), ["output files, decoded by independent decoders and by the tool itself"])

prop("C07", "Damaged or cut-off carts are rejected, not loaded as something else",
     "If the cartridge bytes hidden in a Pico-8 png, clip or trailed rom are altered in the hash-protected area, or a png, clip, export, p64 or Picotron rom file, or compressed code (tiny rom, url), is cut off so that cart contents are missing, reading it - as the main input, in place, merged, included, listed, dumped or extracted, from a file, standard input or URL - fails with an error status and changes no existing output. It never succeeds with a result that differs from the intact cart's. (A format with no way to tell is exempt: an untrailed Pico-8 rom cut short is by definition a tiny rom; uncompressed code, p8 and lua text and a url's sprite part carry no length; a file cut inside its own signature is plain text.)",
     ["fault_sequences", "inputs"],
     "for every cart, every flipped stored byte in the protected area and every truncation point, including a stream that ends early while being read",
     "Tests only read intact files; no test damages or truncates a cart.",
     ["pico_cart.py", "picotron_cart.py", "pico_export.py", "pico_compress.py", "utils.py"],
     [("sha1 over the cart bytes", "pico_cart.py read_cart_from_image"), ("end marker of p64", "picotron_cart.py read_cart64_from_source"),
      ("readers raising on EOF", "utils.py BinaryReader")],
     (), ["exit status", "output file presence and contents"])

prop("C08", "Output depends only on the command and its inputs",
     "The bytes a run writes (files and standard output) are a function of its command line, the contents of its inputs and the documented environment settings. They do not change with hash randomisation, the order in which the operating system lists directories, the wall clock (export timestamps aside), the working directory it is started from, or timing.",
     ["schedules", "inputs", "configurations"],
     "for every command and cart, every hash seed, directory enumeration order, clock value and working directory",
     "Tests pin PYTHONHASHSEED to 0 and run from one directory on one file system with one enumeration order.",
     ["pico_rename.py", "pico_minify.py", "pico_compress.py", "picotron_cart.py", "picotron_defs.py", "pico_process.py", "pico_export.py"],
     [("stable orderings in renaming and compression", "pico_rename.py, pico_compress.py"), ("file ordering on output", "picotron_cart.py ext_order_key, preview_order_key")],
     (), ["output bytes across simulated environments"])

prop("C09", "Repeated runs in one process do not influence each other",
     "Calling the tool's main entry any number of times in one process (as the web page and scripts do) gives each call the same outputs, printed text and status as the same call in a fresh process, whatever calls came before it, including calls for the other console, calls that failed, and calls that died in the middle.",
     ["histories", "fault_sequences", "crash_points"],
     "for every sequence of calls with arbitrary options, failures and interruptions between them",
     "Tests compare fixed calls to fixed outputs; the suite runs in one fixed order, and never after a failed or interrupted call.",
     ["run_shrinko.py", "pico_process.py", "pico_tokenize.py", "pico_rename.py", "pico_export.py", "utils.py", "site/worker.js"],
     [("per-run context objects", "pico_process.py PicoContext"), ("no mutation of module-level tables", "all modules")],
     [("module-level caches and tables", "must not leak between calls", "pico_*.py, picotron_*.py")], ["outputs and status of each call"])

prop("C10", "Standard streams, URLs and files are interchangeable and fragmentation-proof",
     "Reading a cart from standard input or a URL and writing one to standard output gives the same bytes and status as using files with the same contents, however the stream's data is split into pieces. A stream that breaks (connection error, closed pipe, full disk behind a redirect) makes the run fail; it is never mistaken for the end of the data or for success.",
     ["fault_sequences", "inputs", "schedules"],
     "for every format and cart, every fragmentation of the stream, and every point at which it breaks",
     "Tests use files; stdin and stdout are used at most once with a pipe whose fragmentation is not controlled, and never broken.",
     ["utils.py", "pico_cart.py", "run_shrinko.py"],
     [("StdPath / URLPath wrappers", "utils.py:2180-2224"), ("full reads of streams", "utils.py file_read")],
     (), ["bytes delivered to the simulated pipe", "exit status"])

prop("C11", "Includes and other secondary inputs are taken exactly as found, or the run fails",
     "Every #include in a cart is replaced by exactly the text (or the requested tab, or the code of the included cart) that the named file, relative to the including cart, holds when it is read; nothing is included twice, skipped, or taken from elsewhere, and messages about included code name the file and line it came from. If an included file is missing, unreadable, replaced by a directory or disappears during the run, the run fails with a failure status and writes no output; other files changing concurrently never mix into it. The same holds for the other secondary inputs: an export created with pico8.dat or picotron.dat (js, pod, html, sysrom or the whole set of html, wasm and zipped programs) holds exactly the given carts and that file's program files, unchanged but for the places meant for the export's name, the page's title, and the cart's label or icon; a cart image shows exactly the template image, the label and the title asked for; a dump of such a file holds every file, cart and picture in it.",
     ["schedules", "fault_sequences", "inputs"],
     "for every arrangement of including and included files and every moment at which another process creates, replaces or removes one of them or a read fails",
     "One test includes a fixed set of existing files; missing files, races and read faults are not tested.",
     ["pico_preprocess.py", "pico_cart.py", "run_shrinko.py"],
     [("include expansion", "pico_preprocess.py preprocess_code"), ("missing include status", "pico_preprocess.py IncludeNotFoundError, run_shrinko.py ErrCodes.include"),
      ("exports made from the program files", "pico_export.py PodExport.create/JsExport.create/FullExport.save, picotron_export.py"), ("cart images", "pico_cart.py write_cart_to_image, picotron_cart.py write_cart64_to_image")],
     (), ["output code", "exit status"])

prop("C12", "Concurrent runs with different outputs do not disturb each other",
     "Any number of runs executing at the same time that share inputs, the working directory and parent output directories, but have different output files or directories, each produce exactly what they produce when run alone, for every interleaving of their file-system operations. None of them fails because of the others.",
     ["schedules", "histories"],
     "for every set of concurrent runs and every interleaving of their operations on the shared file system",
     "The test suite never runs two conversions at once under a controlled schedule.",
     ["utils.py", "run_shrinko.py", "picotron_cart.py", "pico_export.py"],
     [("no shared temporary names or caches", "utils.py file_temp unused"), ("directory creation tolerant of concurrent creation", "utils.py dir_ensure_exists")],
     (), ["final file system", "exit statuses"])

prop("C13", "Damaged input always ends in bounded work",
     "Whatever bytes an input, included, merged, label, template or export file holds, including truncated and bit-flipped carts of every format, the run comes to an end within an amount of work and memory bounded by the input's size and the formats' limits: it either succeeds or reports failure. It never loops forever.",
     ["inputs", "fault_sequences"],
     "for every byte string obtained from carts by flips, cuts, splices and early stream ends, for every reader",
     "Tests only read well-formed carts, with no bound on work.",
     ["pico_compress.py", "pico_cart.py", "pico_export.py", "picotron_cart.py", "picotron_fs.py", "pico_tokenize.py", "pico_parse.py", "utils.py"],
     [("decompressors bounded by output size and EOF errors", "pico_compress.py uncompress_code, pico_export.py lz77/lz4"),
      ("tokenizer always advances", "pico_tokenize.py")],
     (), ["simulated step count until exit", "exit status"])

prop("C14", "Export timestamps: one moment per export, nothing else clock-dependent",
     "Every entry of a binary export carries the same moment, the one at which the export was made, or the moment given by the documented reproducible-time setting, however the system clock moves, jumps or is skewed during the run. The clock influences nothing else in any output, and no clock value makes an export fail.",
     ["schedules", "fault_sequences", "configurations"],
     "for every clock value, jump and drift during the run, and every value of the reproducible-time setting",
     "Tests fix the export time through the environment or ignore it; the clock never moves during a test.",
     ["pico_export.py", "picotron_export.py"],
     [("time captured once per export", "pico_export.py FullExportBase.curr_time"), ("PICO8_EXPORT_REPRO_TIME", "pico_export.py")],
     (), ["zip entries of binary exports"])

prop("C15", "Safe minification never changes what the cart does",
     "A cart minified with the safe-only option behaves on the console exactly like the original: for every history of frames, button presses, clock readings, random numbers and coroutine switches it makes the same sequence of observable calls (drawing, sound, memory, printing) with the same arguments, and stops or errors at the same point. This holds for every combination of focus and compiler-independent minify options.",
     ["programs", "schedules", "histories", "configurations"],
     "for every cart program in the supported dialect, every minify option set, and every schedule of frames, inputs, clock and coroutine resumption",
     "Tests compare the minified text of a few fixed carts to stored text, and run a few test carts once with one fixed schedule.",
     ["pico_minify.py", "pico_rename.py", "pico_constfold.py", "pico_output.py", "pico_parse.py", "pico_tokenize.py", "pico_process.py"],
     [("renaming respecting scopes and safe-only limits", "pico_rename.py"), ("token and paren removal, statement reordering", "pico_minify.py"),
      ("constant folding in 16.16 fixed point", "pico_constfold.py"), ("token separation on output", "pico_output.py")],
     (), ["trace of observable calls of original and minified cart on the simulated console"])

prop("C16", "Full minification keeps behaviour for carts within the documented limits",
     "A cart that keeps to the documented restrictions (no dynamic member or global access by name without hints, no reliance on metamethods or evaluation order the documentation excludes) behaves after full minification exactly as before it, for every history of frames, inputs, clock, random numbers and coroutine switches. Identifiers the user asked to preserve, built-ins and strings keep their meaning.",
     ["programs", "schedules", "histories", "configurations"],
     "for every such cart, every minify option set (focus, partial disabling, preserve lists), and every schedule",
     "Tests compare minified text of fixed carts to stored text and run a few of them under one fixed schedule.",
     ["pico_minify.py", "pico_rename.py", "pico_constfold.py", "pico_output.py", "pico_parse.py", "pico_tokenize.py", "pico_process.py"],
     [("global and member renaming without collisions", "pico_rename.py"), ("hints and preserve options", "pico_tokenize.py, run_shrinko.py"),
      ("statement transformations", "pico_minify.py")],
     (), ["trace of observable calls of original and minified cart on the simulated console"])

prop("C17", "Unminifying and re-minifying never changes what the cart does",
     "Unminifying any cart, with any indentation, and minifying and unminifying it repeatedly over separate runs, yields carts that behave exactly like the original for every history of frames, inputs, clock, random numbers and coroutine switches.",
     ["programs", "schedules", "histories"],
     "for every cart program, every sequence of minify/unminify runs, and every schedule",
     "Tests unminify a couple of fixed carts and compare text.",
     ["pico_unminify.py", "pico_output.py", "pico_parse.py"],
     [("statement layout and shorthand handling", "pico_unminify.py"), ("token separation on output", "pico_output.py")],
     (), ["trace of observable calls of original and rewritten cart on the simulated console"])

prop("C18", "Merging replaces exactly the named sections",
     "Over any sequence of runs that merge sections from other Pico-8 carts, set a label or title, choose output sections or change the version, the result holds each named section from the cart named for it (the last one when several name it) and every other section unchanged from the main cart. If any merge source is unreadable or invalid the run fails and writes nothing.",
     ["histories", "inputs", "fault_sequences"],
     "for every set of carts, every sequence of merge runs and section lists, and every failing read",
     "Tests merge one or two fixed carts once.",
     ["pico_cart.py", "run_shrinko.py"],
     [("merge_cart per section", "pico_cart.py merge_cart"), ("output section selection", "pico_cart.py write_cart_to_source")],
     (), ["output cart decoded independently"])

# properties that this family cannot decide
prop("C19", "Token, character and compressed-size counts are exact",
     "The counts printed by the count options equal what the console itself computes for the same cart.",
     ["inputs", "programs"], "for every cart",
     "Tests check the counts of a few fixed carts.",
     ["pico_tokenize.py", "pico_compress.py", "pico_process.py"], [("count_tokens, write_code_size", "pico_tokenize.py, pico_compress.py")])
prop("C20", "Lint warnings are complete and point at the right place",
     "Every undefined, unused or duplicate variable in a cart is reported at its position, hints are honoured, and nothing else is reported.",
     ["programs"], "for every cart program",
     "Tests lint two fixed carts.",
     ["pico_lint.py", "pico_parse.py"], [("lint_code", "pico_lint.py")])
prop("C21", "The rename map lists every renaming exactly",
     "The rename map file written next to a minified cart lists each renamed identifier with its new name, consistently with the output.",
     ["programs"], "for every cart program and option set",
     "Tests compare the map of one fixed cart.",
     ["pico_rename.py", "run_shrinko.py"], [("srcmap", "pico_rename.py, pico_process.py")])
prop("C22", "Minified output is never larger than its input needs",
     "Minification never increases the token count, and compression picks the smallest encoding its documented effort level allows.",
     ["programs", "configurations"], "for every cart program and focus",
     "Tests pin sizes of fixed carts.",
     ["pico_minify.py", "pico_compress.py"], [("focus options, compress_code", "pico_minify.py, pico_compress.py")])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P: f.write(json.dumps(p) + "\n")
