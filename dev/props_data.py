INP, CONF, SCHED, HIST, FAULT = "inputs", "configurations", "schedules", "histories", "fault_sequences"

prop("P01", "Exclusion prunes whole subtrees and nothing else",
     """An entry that satisfies any exclusion (an -e test, -H for hidden, -I for ignored,
     --one-file-system for foreign devices, or lying deeper than every -d range allows) is neither
     reported nor executed on, and an excluded directory is never descended into. Exclusion is
     decided before and independently of the tests. An entry that satisfies no exclusion is never
     dropped by exclusion, and an exclusion whose attribute an entry does not have does not apply to it.""",
     [INP, CONF], "every directory tree, every combination of exclusion options and tests",
     """Tests run a handful of trees with single options; they cannot cover every combination of
     options, attributes and positions in a chunk of entries.""",
     ["libff/walk.py", "libff/filter.py", "libff/arguments.py", "libff/main.py", "libff/entry.py"],
     [("entry loop of a worker", "libff/walk.py FilesystemWalker.process_entries"),
      ("exclusion filter", "libff/filter.py Excluder"),
      ("options become exclusions", "libff/arguments.py ArgumentsPostProcessor")],
     ENGINE + "; verdict tables of entry loop and exclusion filter")

prop("P02", "No entry is lost or duplicated between directory scan and output",
     """Every entry found in a searched directory that is not excluded and matches is handed to
     output, collection or execution exactly once, and every non-excluded directory is searched
     exactly once, however the entries are chunked, shared with idle workers, queued or collected.
     An entry that cannot be inspected (vanished, no permission, I/O error) is skipped alone: its
     siblings are still processed.""",
     [INP, SCHED, FAULT], "every number of entries, chunk boundaries, load sharing decisions, scan errors",
     """Chunking, load sharing and error isolation only show with particular entry counts, idle
     workers or races, which the small fixed test trees do not produce.""",
     ["libff/walk.py", "libff/processing.py"],
     [("scan, entry loop, chunking, load sharing", "libff/walk.py FilesystemWalker"),
      ("collection from the workers", "libff/processing.py CollectiveMixin, ImmediateGenerator, CollectiveGenerator")],
     ENGINE + "; exactly-once delivery obligations per entry")

prop("P03", "Test expressions have their documented Boolean meaning",
     """Adjacent tests (optionally joined by AND) must all hold, OR separates alternatives with lower
     precedence, NOT inverts the single test or bracketed group that follows it, and ( ) or {{ }}
     group; a test on an attribute the entry does not have is false, so its negation is true, and no
     tests at all match everything. Reordering tests by cost never changes the outcome. Malformed
     expressions (an empty alternative or group, a missing or superfluous bracket, NOT without
     operand) are rejected instead of being given a meaning.""",
     [INP], "every token sequence and every assignment of outcomes to the tests",
     """The nesting and the outcomes of tests are unbounded; tests only sample some expressions.""",
     ["libff/parser.py", "libff/filter.py"],
     [("parser", "libff/parser.py Parser.parse_sequence"), ("evaluation", "libff/filter.py Matcher")],
     ENGINE + "; parser run over all token-class sequences up to a bound, evaluator truth tables")

prop("P04", "Every operator has its documented meaning for every type",
     """On numbers, sizes, times and durations = += -= + - (also written >= <= > <) mean equal, at
     least, at most, greater and less; on strings and paths = is equality, : containment, ~ an
     unanchored regular expression search and % a glob match that a leading ! inverts; on modes =
     compares all permission bits, : requires all given bits and ~ any of them. A list attribute
     matches if any element does, a Boolean or file type compares for equality with every documented
     spelling of the value accepted. An operator a type does not support is rejected.""",
     [INP], "every value, operator and type",
     """The tests compare a few values per operator; a boundary or an operator/type combination
     that is not sampled can be wrong.""",
     ["libff/type.py", "libff/parser.py", "libff/ignore.py"],
     [("comparison per type", "libff/type.py Type.test subclasses"),
      ("operator normalization and support check", "libff/parser.py")],
     ENGINE + "; truth table of each operator over the finite set of comparison outcomes")

prop("P05", "The case mode decides case sensitivity uniformly",
     """With --case=ignore text tests disregard case, with sensitive they respect it, and with smart
     they disregard it exactly if the given value contains no uppercase letter. This holds alike for
     equality, containment, regular expressions and globs, on strings, paths and lists of strings.
     Case folding never alters the meaning of a regular expression.""",
     [INP, CONF], "every case mode, operator, type and value",
     """Tests only cover some mode/operator/type combinations with ASCII samples.""",
     ["libff/parser.py", "libff/type.py"],
     [("case decision and pattern preparation", "libff/parser.py Parser.create_test"),
      ("folding of the attribute value", "libff/type.py String, Path, ListOfStrings")],
     ENGINE + "; case-fold taint of both comparison operands")

prop("P06", "Every executed command is accounted for and failures decide the exit status",
     """Each command run by -x counts as exactly one success or failure, where a nonzero or
     signal exit status and a failure to start are failures. If any -x or -X command failed the exit
     status of ff is 3, and 0 otherwise. With --halt=soon or now a failure stops the search, with now
     running commands are terminated as well, and with never all commands are still run.""",
     [INP, FAULT, CONF], "every exit status, start failure, halt mode and stop event",
     """Failure kinds times halt modes times stop timing are not enumerated by the tests.""",
     ["libff/context.py", "libff/processing.py", "libff/main.py"],
     [("running one command", "libff/context.py Context.run_exec_process"),
      ("exit status mapping", "libff/main.py Main.walk"),
      ("batch execution", "libff/processing.py CollectiveExecProcessing.finalize")],
     ENGINE + "; outcome accounting on every path including exceptions")

prop("P07", "Command templates are filled in faithfully and never re-interpreted",
     """Commands run with -x or -X receive the template words with each placeholder replaced by the
     rendered attribute inside its own word, in order, never split, dropped, reordered or passed
     through a shell. With -x an entry lacking a referenced attribute is not executed on unless --all
     or the :n modifier supplies the empty string. With -X each word with a placeholder yields one
     argument per entry in result order, and when the command line is too long the entries are
     divided over several commands so that each is passed exactly once.""",
     [INP, CONF], "every template, attribute value and number of entries",
     """File names and templates are unbounded, and the division of long command lines needs
     argument lists beyond the system limit.""",
     ["libff/field.py", "libff/processing.py", "libff/context.py", "libff/walk.py"],
     [("rendering", "libff/field.py ExecFields, ExecBatchFields"),
      ("spawning", "libff/context.py, libff/processing.py")],
     ENGINE + "; provenance of each argument word, spawn-site audit")

prop("P08", "An internal failure of a worker process never goes unnoticed",
     """If a worker process hits an unexpected error or dies, the search stops and the run ends with
     exit status 4 (the Python API raises an error) instead of presenting a partial result as
     complete. The failure is recorded before the other processes are told to stop. Only a closed
     output pipe ends a run quietly.""",
     [FAULT, SCHED], "every exception at every point of a worker, abnormal death of a worker",
     """Tests cannot inject a failure at every point of a worker nor pick the interleaving with the
     main process.""",
     ["libff/walk.py", "libff/processing.py", "libff/main.py", "libff/find.py"],
     [("worker main loop", "libff/walk.py FilesystemWalker.loop"),
      ("liveness check", "libff/processing.py BaseProcessing.check_for_failed_processes"),
      ("exit status mapping", "libff/main.py Main.walk, libff/find.py Find.__iter__")],
     ENGINE + "; exceptional paths of the worker loop, order of recorded effects")

prop("P09", "User errors end in a message and the documented exit status",
     """Whatever the user passes as options, option arguments, FF_OPTIONS, tests, exclusions,
     attribute lists or directories, ff either runs or ends with an error message and exit status 2
     (usage), 11 (attribute) or 12 (expression). No such input leads to an unhandled exception or is
     silently taken for something else.""",
     [INP, CONF], "every command line",
     """The set of malformed command lines is unbounded, tests sample a few.""",
     ["libff/arguments.py", "libff/argparse.py", "libff/parser.py", "libff/field.py", "libff/main.py",
      "libff/registry.py", "libff/exceptions.py"],
     [("converters", "libff/argparse.py"), ("parser", "libff/parser.py"), ("field parser", "libff/field.py")],
     "Interprocedural exception-flow analysis from the command line entry point with a may-raise "
     "model of the library; abstract interpretation of the option table, the token parser and the "
     "converters on classes of arguments; table check of exit statuses")

prop("P10", "Searching is read-only",
     """A search never creates, modifies, renames or deletes anything in the filesystem and starts no
     programs, except for the cache database, the commands the user gave with -x or -X, and the
     documented helper programs of a plugin, which are run in a way that changes nothing either (the
     git plugin leaves the index of a repository alone). Files are only ever opened for reading.""",
     [INP, CONF], "every option, every plugin, every code path",
     """Absence of an effect on all paths cannot be shown by sampling runs.""",
     ["libff/", "plugins/"],
     [("effects", "all modules")],
     "Effect analysis over the inventory of all calls and name uses, resolved over imports and aliases: "
     "open modes, effect table of primitives, constant argument words of every process start")

prop("P11", "Only regular files are opened for their content",
     """Plugins and ignore-file handling never open a named pipe, device or socket for its content:
     every content access is reached only for entries that are regular files (or that were checked to
     be). Directories are only listed.""",
     [INP], "every file type, every plugin that reads content",
     """Tests use regular files; a pipe or device in a searched tree would block the run.""",
     ["libff/builtin/", "plugins/", "libff/ignore.py", "libff/registry.py"],
     [("eligibility check before content access", "can_handle of each plugin"),
      ("ignore files", "libff/ignore.py GitIgnore")],
     ENGINE + "; plugin methods interpreted per file type, content accesses as sinks")

prop("P12", "Unreadable or damaged files never abort a search",
     """A file that cannot be opened, read, decoded or parsed, or that vanishes at any moment, makes
     at most its own attributes unavailable: no exception raised while inspecting a file's content or
     metadata ends the search.""",
     [INP, FAULT], "every I/O, decoding or parsing error of every content access",
     """Tests have a few damaged samples, not every error at every access.""",
     ["libff/builtin/", "plugins/", "libff/entry.py", "libff/walk.py", "libff/registry.py"],
     [("error translation", "plugins, libff/registry.py Registry.get_data")],
     "Exception-flow analysis: may-raise sets of content and metadata accesses must be covered by "
     "handlers on every path")

prop("P13", "Optimized and debug mode give the same results",
     """Running the interpreter with or without assertions and debug code (-O) changes neither results
     nor exit status for valid and invalid input alike: debug-only code has no effect on what is
     found, printed to standard output or stored, nothing that exists in debug mode only is needed
     elsewhere, and no check that input validation depends on is an assertion. Exempt are the options
     --debug and --profile themselves, the traceback after a keyboard interrupt, the additional type
     check of plugin values, and where a development tree looks for plugins.""",
     [CONF, INP], "both interpreter modes, every input",
     """The tests run in one mode only.""",
     ["libff/", "plugins/"],
     [("debug-only blocks", "if __debug__ and assert statements")],
     "Effect and dependence analysis of debug-only regions and assertions")

prop("P14", "Plugins deliver what they declare",
     """Every attribute a plugin produces is one it declares, with a value of the declared type, and
     every declared attribute can be produced. Attributes of the file plugin exist for every entry of
     any type, except those documented as specific to symbolic links.""",
     [INP], "every plugin, every entry",
     """Whether a key or value of a wrong type is produced depends on the file; tests sample few.""",
     ["libff/builtin/", "plugins/", "libff/entry.py", "libff/registry.py"],
     [("declarations", "attributes tables"), ("production", "process/cache of each plugin")],
     ENGINE + "; produced keys and value types against the declared schema")

prop("P15", "Sorting and counting cope with every mix of values",
     """--sort and --count finish for every set of results, also if attributes are missing for some
     entries, lists or modes are involved, or names mix letters, digits and non-ASCII digits: all sort
     keys of a field are mutually comparable and missing values are placed consistently. Counting
     ignores missing values and sums sizes and durations while counting others per value.""",
     [INP], "every multiset of attribute values",
     """A failure needs a particular mix of values next to each other in one run.""",
     ["libff/field.py", "libff/type.py", "libff/processing.py"],
     [("sort keys", "libff/field.py SortFields"), ("missing values", "libff/type.py sort_none"),
      ("count", "libff/processing.py CollectiveMixin")],
     ENGINE + "; shape inference of sort keys per type and modifier")

prop("P16", "The metadata cache is transparent",
     """A search with a cache gives the results of a search without one: a cached value is only used
     for the same plugin version, the same file and the same modification tag, and a stored 'no data'
     outcome is distinguished from 'not stored'. Pending values are committed before the database is
     closed, and cleaning the cache removes only entries of files that no longer exist.""",
     [HIST, INP, SCHED], "every history of runs, file modifications and plugin changes",
     """Needs histories over several runs with modified files and plugins, names that are not valid
     text and concurrent workers.""",
     ["libff/cache.py", "libff/registry.py", "libff/plugin.py", "libff/main.py"],
     [("lookup and store", "libff/cache.py Cache"), ("use", "libff/registry.py get_data_from_plugin")],
     ENGINE + "; key provenance, SQL statement shape, flush/commit typestate")

prop("P17", "Output is complete, well-formed and goes to the right stream",
     """Standard output receives exactly one record per result in the chosen format, ended by the chosen
     terminator and flushed before a worker ends; diagnostics go to standard error only. A record with a
     missing attribute is left out in text mode unless --all or :n fills it with the empty string, and is
     null in JSON. JSON mode prints one well-formed array for any number of results, and characters
     that cannot be encoded are escaped instead of failing.""",
     [INP, CONF], "every result set, output option and encoding",
     """Combinations of options, missing values, undecodable names and result counts are not
     enumerated by tests.""",
     ["libff/console.py", "libff/processing.py", "libff/logger.py", "libff/field.py"],
     [("record output", "libff/console.py"), ("diagnostics", "libff/logger.py")],
     ENGINE + "; output typestate and stream audit of every write site")

prop("P18", "Ignore files apply to exactly the tree below them, in order",
     """A pattern of an ignore file affects only entries below the directory of that file, files in
     deeper directories are considered after those above them, and within and across files the last
     matching pattern wins, with ! re-including. Patterns with a slash match the path relative to the
     ignore file, others the name, as a whole, and patterns ending in a slash match only directories.
     With -I the ignore files of parent directories of the start directory count as well unless
     --no-parent-ignore is given, and none is consulted from sibling directories. Comments, invalid
     patterns and unreadable ignore files exclude nothing and do not affect other patterns.""",
     [INP], "every tree of ignore files and every entry",
     """The interplay of several ignore files at different levels is unbounded.""",
     ["libff/ignore.py", "libff/builtin/ignore.py", "libff/walk.py", "libff/main.py"],
     [("matching", "libff/ignore.py GitIgnore.match"), ("inheritance of ignore files", "libff/walk.py"),
      ("parent directories", "libff/ignore.py GitIgnore.from_parent_directories")],
     ENGINE + "; fold of pattern outcomes, aliasing of inherited lists")

prop("P19", "Shared state of parallel workers is never updated unsafely",
     """No update of what workers share is lost under any interleaving of processes or threads: the
     numbers of chunks still to be processed, the exit status, the numbers of commands that succeeded
     and failed and the cache statistics are only changed inside a lock that all processes share, from
     reading the old value to storing the new one, and what is not counted is only ever set to
     constants. What a worker counts for the main process is kept in memory they share. Locks are
     released on every path, including failures, never acquired while already held, taken in one order,
     and no process waits for the others while it holds one.""",
     [SCHED], "every interleaving of workers and threads",
     """Lost updates need rare interleavings.""",
     ["libff/context.py", "libff/cache.py", "libff/registry.py", "libff/processing.py", "libff/console.py"],
     [("shared values", "libff/context.py Context.setup, libff/processing.py QueueMixin"),
      ("locks", "libff/context.py, libff/cache.py, libff/registry.py, libff/console.py")],
     ENGINE + "; lock sets and critical sections of every load and store, acquisition typestate, call graph of locked regions")

prop("P20", "The Python API provides every setting the engine reads",
     """Every setting that code reachable from the Python API reads is provided by it, with the same
     meaning and default as on the command line, and each API argument reaches the setting it names.
     Every option of the command line is consulted somewhere and stores under the name that is read.
     Searches do not influence one another: a search changes neither the lists of the caller nor state
     that is shared by several searches of one program.""",
     [CONF], "every API call, every option",
     """A missing setting fails only on the path that reads it.""",
     ["libff/find.py", "libff/arguments.py", "libff/"],
     [("API namespace", "libff/find.py"), ("option table", "libff/arguments.py")],
     "Whole-program read/write inventory of the settings namespace over the API-reachable call graph")

prop("P21", "Results are collected, then sorted, then limited, then output",
     """With --sort, --limit, --count, --exec-batch or a JSON array all results are collected before
     any is processed, the limit slice is taken from the completely sorted list, and everything in the
     slice and nothing else is printed or executed in that order. Reversal applies to the sort, sort
     fields apply in the order given, and --count counts all results.""",
     [INP, CONF], "every combination of these options",
     """Option combinations multiply; the tests sample few.""",
     ["libff/main.py", "libff/processing.py", "libff/find.py"],
     [("mode selection", "libff/main.py Main.setup_processing"),
      ("collection and finalization", "libff/processing.py")],
     ENGINE + "; mode decision table and order of list operations")

prop("P22", "Command lines are taken apart without loss",
     """Options from FF_OPTIONS come before those of the command line, so the latter win; everything
     after -x or -X belongs verbatim to the command. Bundled short options, attached values and
     --option=value mean the same as their spelled out forms, repeated list options accumulate, and
     values keep their characters.""",
     [INP], "every command line",
     """The grammar of command lines is unbounded.""",
     ["libff/arguments.py", "libff/argparse.py"],
     [("joining", "libff/arguments.py collect_arguments"), ("parsing", "libff/argparse.py ArgumentParser")],
     ENGINE + "; symbolic argument vectors with generic words")

prop("P23", "Attribute names resolve predictably",
     """An unqualified attribute name means the file attribute of that name if there is one, otherwise
     the attribute of the only plugin that has it; unknown and ambiguous names, unknown plugins and
     unknown attributes of a plugin are rejected. A qualified name always means that plugin.
     The value and the type used for a test, sort, output or count come from the same attribute.""",
     [INP, CONF], "every attribute name, every set of installed plugins",
     """Depends on which plugins are installed.""",
     ["libff/registry.py", "libff/parser.py", "libff/field.py"],
     [("resolution", "libff/registry.py Registry.parse_attribute, setup_attribute")],
     ENGINE + "; decision table of name resolution")

prop("P24", "Workers end exactly when all work is done or a stop was requested",
     """A worker ends normally only after all workers and the main process agreed that no work is left;
     it never ends while it holds or could still receive work, unless a stop was requested. The number
     of parties that have to agree equals the number of processes started plus the main process. After
     the agreement the main process releases everything it opened.""",
     [SCHED], "every interleaving of workers and main process",
     """Interleavings of the end of the search cannot be forced by tests.""",
     ["libff/walk.py", "libff/context.py", "libff/processing.py", "libff/main.py"],
     [("worker loop", "libff/walk.py FilesystemWalker.loop"), ("barrier", "libff/context.py Context"),
      ("main loops", "libff/processing.py")],
     ENGINE + "; typestate of the termination protocol")

prop("P25", "Every entry carries the paths that lead to it",
     """The relative path of an entry is that of its directory joined with its name, its path is the
     start directory joined with the relative path (just the relative path if that is '.'), its
     absolute path is the absolute start directory joined with it, and directory, name, extension and
     depth are derived from those. Joining and splitting keep all characters and are inverse to each
     other, and an entry is inspected under the same path it is reported with. A reference file belongs to
     the start directory it lies in, otherwise to its own directory.""",
     [INP], "every directory and file name",
     """File names are unbounded.""",
     ["libff/path.py", "libff/entry.py", "libff/walk.py"],
     [("path helpers", "libff/path.py"), ("entry", "libff/entry.py Entry"),
      ("construction", "libff/walk.py FilesystemWalker.scan_directory")],
     ENGINE + "; symbolic string concatenation, normalized")

prop("P26", "File attributes describe the inode",
     """Every attribute of the file plugin is the documented function of the file's own stat result: numbers
     and times are those of the inode, the type is exactly one of the documented ones and everything that
     depends on it agrees with it, size, exec, perm, empty, link, target and broken follow from type,
     permission bits, content and link target; user and group are the names of the ids. The mountpoint is the
     nearest one above the absolute path, the one that was mounted last if there are several, whatever its
     name. Symbolic and octal modes denote the bits of the classes, operators and permissions they are
     written with.""",
     [INP, CONF], "every kind of file, mode, owner, mount table and written mode",
     """Kinds of files, mount tables and modes that no test creates.""",
     ["libff/entry.py", "libff/type.py"],
     [("attributes", "libff/entry.py Entry"), ("mountpoints", "libff/entry.py Mountpoints"),
      ("modes", "libff/type.py Mode.parse_mode")],
     ENGINE + "; symbolic stat results and constant propagation through decision tables")

prop("P27", "Values with units are understood and displayed as documented",
     """A size with K, M, G, T, P, E, Z, Y or KiB, MiB, ... denotes that power of 1024 and with KB, MB, ... of
     1000, whatever its case, a plain number or one with B bytes, and only sizes with a unit may have a
     fraction. A duration is the sum of parts with s, m, h, d, w, M (30 days) and y (365 days), a number
     alone denotes minutes. A time is one of the documented date and time patterns with or without
     separators, where a time of day is its last occurrence, otherwise a number of seconds since 1970,
     otherwise a duration before now. Numbers are not negative integers. Everything else is refused, never taken for something else. Human
     readable output can be read back as the same quantity to its precision, --si uses 1000 and the
     units for it, and the modifiers x and o display numbers in hexadecimal and octal.""",
     [INP, CONF], "every unit, spelling, combination of units, date pattern and displayed magnitude",
     """Tests use three dates and two durations; a wrong factor or a misread unit only shows with that unit.""",
     ["libff/convert.py", "libff/type.py"],
     [("input conversion", "libff/convert.py parse_size, parse_duration, parse_time"),
      ("output", "libff/convert.py format_size, format_duration, libff/type.py")],
     ENGINE + "; constant propagation through decision tables, symbolic clock and calendar")

prop("P28", "Glob patterns denote what gitignore(5) describes",
     """In every line of an ignore file * stands for any number and ? for one character of a name, [abc] and
     [a-z] for one of the characters and [!abc] for any other one, but none of them for a slash; ** as a whole
     component stands for any number of directories; every other character stands for itself (a
     pattern with a bracket that is never closed may also match nothing). A pattern matches the whole
     name, or if it has a slash at the beginning or in the middle, the whole path below the ignore file; a
     slash at the end restricts it to directories, a leading ! inverts it, \\# and \\! stand for the characters.
     The same holds for the operand of the glob operator and a name. Left open, because the manual does:
     ** next to other characters or alone, a backslash, slash or ] in brackets; foo/** may match foo.""",
     [INP], "every sequence of up to three (thorough: four) pattern elements and longer samples, every name and path",
     """Tests compare a few patterns with a few names; a wrong expression shows only with a name that has a
     newline, a dot or a slash in the right place.""",
     ["libff/ignore.py"],
     [("translation", "libff/ignore.py Glob.translate"), ("use", "libff/ignore.py Glob.match")],
     ENGINE + "; equivalence of finite automata built from the computed regular expressions")

prop("P31", "Plugins report what the file they are asked about says",
     """A hash is the digest of the whole content by the algorithm it is named after; text, linecount and lines
     are those of the whole file, lines ending at newlines only, and a file that cannot be decoded is not text. The members of a tar archive are all its
     names, whatever the documented compression; a shebang is what follows #! in the first line without blanks at the end; the imports of a Python
     file are all modules imported anywhere in it, relative ones by the package they name. tracked, dirty, repo
     and repo_dir are those of the innermost git repository an entry is in, a directory being tracked or
     dirty if something below it is. mime and its parts are what libmagic reports, media attributes those of the tracks with durations in seconds, extended attributes are all
     listed as key=value, the file system is that of the directory or of the directory a file is in, a file belongs to a package if its
     absolute path is listed, and sonames are all needed libraries. No answer depends on the directory ff was
     started in, on the order of the entries or on the size of the file, and a file that cannot be read has no such attributes.""",
     [INP, CONF], "every file content, size, place in a repository and answer of the libraries",
     """Tests look at a handful of tiny files from one directory; a partial read, a similar name or another
     start directory is never tried.""",
     ["plugins/*.py", "libff/builtin/*.py"],
     [("file content", "plugins/hash.py, plugins/tar.py, plugins/introspect.py, libff/builtin/grep.py"),
      ("git", "plugins/git.py Git"), ("libraries", "libff/builtin/mime.py, libff/builtin/media.py, plugins/xattr.py, plugins/fs.py, plugins/pacman.py")],
     ENGINE + "; summaries of library calls with known answers")

prop("P32", "The exit status tells how a search ended",
     """With --fail a search without results ends with exit status 1 and without a message. A search with at
     least one result, found by whichever worker, or one without --fail ends with 0, whatever is done with the results:
     printing, counting, sorting, limiting or executing commands. Failed commands (3) and internal errors (4)
     take precedence over a lack of results. Every kind of error ends with the status the manual lists for it.""",
     [INP, SCHED, CONF], "every combination of processing options, every division of the results into chunks and workers",
     """Tests use --fail with plain output only; a way of processing that forgets to report its results, or a worker
     whose report is lost, shows only with a combination nobody runs.""",
     ["libff/processing.py", "libff/context.py", "libff/main.py", "libff/exceptions.py"],
     [("results", "libff/processing.py process, finalize; libff/context.py set_has_result, has_result"),
      ("end of the search", "libff/main.py Main.walk, Main.handle_exception")],
     ENGINE + "; only the fields of shared memory survive from a worker to the main process")

prop("P29", "Searches terminate promptly under every schedule",
     """Every search ends within bounded time after the last entry was processed, and after a stop
     request.""",
     [SCHED], "every schedule", "Timing cannot be sampled exhaustively.",
     ["libff/walk.py", "libff/context.py"], [("time-outs", "libff/context.py")], "",
     na="""Liveness rests on real-time time-outs of the operating system and of multiprocessing
     (barrier, queue size); no static argument bounds them.""".replace("\n     ", " "))
prop("P30", "Numbers and local times are computed exactly",
     """Fractions of sizes are rounded correctly, local times are converted exactly in every time zone, and
     no computation overflows.""",
     [INP], "every number and time zone", "Values are unbounded.",
     ["libff/convert.py"], [("conversion", "libff/convert.py")], "",
     na="""Quantifies over run-time floating point numbers and the time zone data base; no static rule in
     reach decides the arithmetic without executing or solving for it. The tables of units and patterns
     are P27.""".replace("\n     ", " "))
