#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the source of the property texts is this file)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mechanism, observe, state=()):
    P.append(dict(id=id, title=title, statement=statement,
                  quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=["preload-src/src/" + f for f in files],
                               state=[dict(name=n, meaning=m, where="preload-src/src/" + w) for n, m, w in state],
                               mechanism=[dict(name=n, where="preload-src/src/" + w) for n, w in mechanism],
                               observe_at=observe, hook_needed=None)))

p("C01", "What was learned survives a restart exactly",
  "Everything the daemon has learned and saved (applications with their running times, the file ranges they map, pairwise transition statistics, the application-sequence tree, the model clock) is exactly what the next start resumes from, whatever bytes the file names contain, up to the supported 511-byte path length, and whichever prediction algorithm either run used. Saving again without new activity writes an equivalent file, and learning after the restart continues from the restored values.",
  ["inputs", "histories"],
  "All learned models and path names, all histories of learning, saving and restarting.",
  "The unit tests save and load one or two hand-made entries with short ASCII paths and never restart the daemon; nothing compares a whole model across a restart.",
  ["handling/state_io.c", "handling/state.c", "algorithm/vomm.c"],
  [("line-oriented export/import of the model", "handling/state_io.c"), ("VOMM tree export/import", "algorithm/vomm.c"), ("startup order load -> run", "handling/state.c")],
  ["the state file after save, restart, save"],
  [("state", "the whole model", "handling/state.h")])
p("C02", "A save is all-or-nothing under crashes and I/O errors",
  "Whatever happens during a save (the process is killed at any point, or any system call involved fails), the state file is afterwards either the complete previous version or the complete new one, and the next start can read it. A save that failed is reported in the log, leaves the previous file in place and is done again at the next opportunity; a temporary file left over from an interrupted save does not prevent later saves.",
  ["crash_points", "fault_sequences"],
  "Every system-call boundary of a save as a crash point; every failing system call (and short write) of a save; sequences of failing and succeeding saves.",
  "No test kills the process or makes a system call fail during a save.",
  ["handling/state_io.c", "handling/state.c"],
  [("write to a temporary file, then rename", "handling/state_io.c"), ("dirty flag kept when saving fails", "handling/state.c")],
  ["the state file on disk after the fault", "the log", "the next start"])
p("C03", "No state file can crash, hang or corrupt the daemon",
  "Whatever bytes the state file holds, starting the daemon on it never crashes, hangs or touches invalid memory: it either runs normally (skipping what it says it skips) or exits at once with a diagnostic and a failure status, leaving the file as it was. A daemon that accepted the file keeps running, predicting and saving without memory errors, and what it then saves can be loaded again.",
  ["inputs"],
  "All state files: truncated, bit-flipped, spliced, with inconsistent, duplicate, dangling or extreme values.",
  "The tests feed a handful of well-formed or obviously wrong lines and never run the daemon on the result.",
  ["handling/state_io.c", "algorithm/vomm.c", "algorithm/markov.c", "handling/map.c", "handling/exe.c"],
  [("per-line syntax, index and duplicate checks", "handling/state_io.c"), ("orphan/duplicate checks on import", "algorithm/vomm.c")],
  ["sanitizer reports", "exit status and log", "the state file"])
p("C04", "Prefetching never exceeds the configured memory budget",
  "In every cycle the total size of the file ranges selected for prefetching is at most the budget computed from the current memory statistics and the configured percentages (each limited to -100..100): max(0, total*memtotal + available*memfree) + cached*memcached + buffers*membuffers. If that budget is zero or negative, nothing is prefetched; where the kernel does not report available memory, it is estimated from free, cached and buffer memory.",
  ["inputs", "configurations"],
  "All memory statistics, percentage settings, models and map sizes.",
  "No test runs the selection at all, let alone with generated memory statistics.",
  ["algorithm/prophet.c", "monitoring/proc.c"],
  [("budget computation and greedy cut", "algorithm/prophet.c"), ("parsing of the memory statistics", "monitoring/proc.c")],
  ["readahead requests of each cycle"])
p("C05", "The most needed files are prefetched first, and only needed ones",
  "In every cycle the files prefetched are exactly the leading ones in order of predicted need, stopping at the first that does not fit in the remaining budget or is not predicted to be needed. A file range used by several applications is the more needed the more likely each of them is to start, and applications that are already running argue against it; files needed only by running applications are not prefetched.",
  ["inputs", "histories"],
  "All models, running sets, memory budgets and both prediction algorithms.",
  "The tests never look at what would be prefetched.",
  ["algorithm/prophet.c"],
  [("bids of applications summed per map", "algorithm/prophet.c"), ("sort by probability and cut-off", "algorithm/prophet.c")],
  ["readahead requests of each cycle, compared with a reference model"])
p("C06", "Readahead covers exactly the selected ranges, in the chosen order",
  "The requests issued for a cycle's selection cover every byte of every selected file range that can be opened, and no byte of any other, however the ranges overlap, nest or touch, and each contiguous piece is requested once where ranges are adjacent in the chosen order. They are issued in the order of the configured strategy: by need, by path, by inode, or by disk block where the block is known and else by inode. Where the file system does not support readahead, an equivalent page-aligned fallback covering the same range is used.",
  ["inputs", "configurations"],
  "All sets of selected ranges, sort strategies and file-system capabilities.",
  "No test calls the readahead code.",
  ["handling/readahead.c"],
  [("sorting and merging of adjacent requests", "handling/readahead.c"), ("fallback to mmap/madvise", "handling/readahead.c"), ("block/inode lookup", "handling/readahead.c")],
  ["open/readahead/mmap/madvise calls"])
p("C07", "Parallel readahead is bounded and always completes",
  "At no time are there more readahead children than the configured number (none at all if it is 0), every child only reads its one file and exits, and all of them have been waited for before the cycle continues. As many as that do work at the same time if there is enough to read. This holds whatever fails: a fork that fails, interrupted or failing waits, children that are slow or killed, and files that have vanished, lost permissions or turned into directories or FIFOs meanwhile; the daemon keeps going with the other files.",
  ["schedules", "fault_sequences", "configurations"],
  "All numbers of files and children, child timings, and failures of fork, wait, open and readahead.",
  "No test forks; limits, failures and timing of children are not exercised.",
  ["handling/readahead.c"],
  [("process counter and wait loop", "handling/readahead.c")],
  ["fork/wait/exit events of the daemon and its children"])
p("C08", "Scanning and predicting happen only when enabled and not on battery",
  "With scanning turned off the daemon learns nothing and keeps the model as loaded, while still predicting; with predicting turned off it never reads ahead, while still learning; both can be switched at run time by reloading the configuration. While any battery is discharging it neither scans nor prefetches, and it resumes by itself on mains power.",
  ["histories", "configurations"],
  "All settings, reload histories and battery status histories.",
  "No test drives the daemon's cycle, a reload or the battery state.",
  ["handling/state.c", "utils/power.c", "config/conf.c"],
  [("gates in the tick", "handling/state.c"), ("battery status check", "utils/power.c")],
  ["process-table accesses, readahead requests and saved model per cycle"])
p("C09", "Exactly the eligible applications and files are tracked",
  "After each complete cycle the model contains, besides what it knew before, every application that was seen running, is acceptable to the configured executable prefixes (first match decides) and maps at least the minimum size of acceptable files, with exactly the acceptable file ranges it maps; others are never added. The daemon itself, deleted files and non-file mappings are ignored, prelink's temporary names count as the original file, and file names may contain any characters, including spaces.",
  ["inputs", "configurations", "histories"],
  "All process tables, mappings, file names, prefix lists and size thresholds.",
  "The tests check the map and exe containers but never parse a process table, nor any prefix list or name filter.",
  ["monitoring/proc.c", "monitoring/spy.c"],
  [("name sanitizing and prefix matching", "monitoring/proc.c"), ("size threshold and registration of new applications", "monitoring/spy.c")],
  ["MAP, EXE and EXEMAP entries of the saved state"])
p("C10", "Running times are accounted exactly",
  "At every model update the time since the previous update is added to the running time of exactly those applications found running, and to the joint running time of exactly those pairs found running together; nothing else changes a running time, and it never exceeds the model clock. Several processes of one application count once.",
  ["histories"],
  "All histories of applications starting, running in any number of processes, and stopping, across restarts.",
  "The tests set the times by hand; accounting is never run.",
  ["monitoring/spy.c", "handling/state.c"],
  [("accounting step of the model update", "monitoring/spy.c"), ("running timestamps", "handling/exe.c")],
  ["EXE and MARKOV time fields of the saved state"])
p("C11", "Transition statistics record exactly what happened",
  "For every pair of known applications the saved statistics are exactly those of the observed sequence of joint states (neither, only the first, only the second, both running): how often each state was left and to which state, and the mean time spent in it. Every pair of tracked applications has exactly one such record, simultaneous changes count as one transition, and a restart adds no transition and no waiting time of its own.",
  ["histories"],
  "All histories of starts, stops, discoveries and restarts of any number of applications.",
  "The tests create single chains by hand and check one or two updates.",
  ["algorithm/markov.c", "monitoring/spy.c", "handling/exe.c"],
  [("chain creation with historical state", "algorithm/markov.c"), ("state change processing", "algorithm/markov.c"), ("order of updates", "monitoring/spy.c")],
  ["MARKOV lines of the saved state, compared with a reference model"])
p("C12", "Markov predictions follow the documented probability model",
  "With the Markov algorithm, the predicted need of every application that is not running is the combination over all its pairs of the probability that the pair changes state within one and a half cycles, times the observed probability that it then runs, times (if enabled) the absolute correlation of their running times. Pairs without observations contribute nothing, and running applications are not predicted.",
  ["inputs", "histories"],
  "All statistics, running sets and values of the cycle and correlation settings.",
  "The tests check the correlation of a few hand-made chains; no prediction is ever computed.",
  ["algorithm/prophet.c", "algorithm/markov.c"],
  [("bidding of chains", "algorithm/prophet.c"), ("correlation", "algorithm/markov.c")],
  ["order and extent of prefetching under generated budgets, compared with a reference model; logged bids"])
p("C13", "The application-sequence tree records exactly the observed launches",
  "With the VOMM algorithm, every launch of a known or newly accepted application is recorded once: it extends the current sequence, whose length is limited to five, and counts as following the previous launch; nothing else changes the tree. A tree without entries is initialised from the pairwise statistics, at start or when a reload switches to VOMM, and memory for the tree stays bounded by the distinct sequences up to that length.",
  ["histories"],
  "All launch histories, restarts and algorithm switches.",
  "The tests call the update function but cannot see the tree; they only check that it does not crash.",
  ["algorithm/vomm.c", "monitoring/spy.c", "handling/state.c"],
  [("tree update and depth limit", "algorithm/vomm.c"), ("hydration from Markov weights", "algorithm/vomm.c")],
  ["VOMMNODE lines of the saved state, compared with a reference model"])
p("C14", "VOMM predictions follow the documented scoring",
  "With the VOMM algorithm, the predicted need of every application that is not running combines, as documented, its relative frequency after each recently launched application, its relative frequency in the current sequence (plus a small constant bonus there), and a damped global frequency; a more frequent successor is never less needed than a less frequent one, all else being equal. Running applications are not predicted.",
  ["inputs", "histories"],
  "All trees, launch histories and running sets.",
  "The tests never look at the scores.",
  ["algorithm/vomm.c", "algorithm/prophet.c"],
  [("PPM, fallback and global-frequency bids", "algorithm/vomm.c")],
  ["order and extent of prefetching, logged bids, compared with a reference model"])
p("C15", "Exactly the stale applications are dropped from the model",
  "At every save, applications that are not running and whose file no longer exists or is no longer a regular file are dropped with everything that refers to them; applications that are running, or whose file exists or merely cannot be examined, are kept untouched. Dropping an application at any moment, between scanning and updating too, leaves all other data and later behaviour intact.",
  ["histories", "schedules", "fault_sequences"],
  "All histories of file removals and replacements, save moments and failure kinds of examining a file.",
  "The tests validate single paths; cleanup is never combined with a live model, pending changes or the sequence tree.",
  ["handling/model_utils.c", "handling/state.c", "handling/exe.c", "algorithm/vomm.c"],
  [("validity check and removal", "handling/model_utils.c"), ("removal of references", "handling/exe.c")],
  ["saved state before and after", "sanitizer reports"])
p("C16", "No memory error, undefined behaviour or leak in any history",
  "Over any mixture of scans, predictions, saves, cleanups, reloads, dumps, battery changes and restarts the daemon performs no invalid memory access and no undefined operation, logs no internal consistency failure, and neither leaks memory or file descriptors nor grows without bound while the set of applications stays the same. All memory is returned at a regular exit in debug mode.",
  ["histories", "configurations"],
  "All mixed histories and configurations.",
  "The tests run single functions without sanitizers; leaks and use after free need sequences of operations.",
  ["handling/state.c", "handling/exe.c", "handling/map.c", "monitoring/spy.c", "monitoring/proc.c", "algorithm/vomm.c", "algorithm/markov.c", "config/conf.c"],
  [("reference counting of maps", "handling/map.c"), ("ownership of exes, chains and tree nodes", "handling/exe.c")],
  ["ASan/UBSan/LSan reports, allocated bytes and open descriptors per cycle, log"])
p("C17", "Configuration is applied completely or not at all",
  "Every documented configuration key takes effect with the value given, and keys not given have their documented defaults; this holds at start and after every reload, which takes back values no longer given. A file that is missing, malformed or has a malformed value is refused as a whole: at start with a diagnostic and failure status, on reload by logging it and keeping every previous value.",
  ["configurations", "histories"],
  "All configuration files and reload histories.",
  "No test loads a configuration file.",
  ["config/conf.c", "config/confkeys.h", "config/preload.conf.in"],
  [("key table and all-or-nothing assignment", "config/conf.c")],
  ["configuration dump and behaviour after load and reload"])
p("C18", "Signals work at any moment",
  "Whenever they arrive, in any number and order, each signal has its documented effect once the daemon is back in its main loop: HUP reloads the configuration and reopens the log, USR1 dumps state and configuration, USR2 saves the state, and TERM, INT and QUIT end the daemon with status 0 after saving the state. A signal never crashes, deadlocks or corrupts the daemon, wherever it interrupts it.",
  ["schedules", "histories"],
  "All arrival points within the daemon's execution and all signal sequences.",
  "Tests send one TERM to an idle daemon.",
  ["daemon/preload.c", "utils/log.c"],
  [("asynchronous handler deferring to the main loop", "daemon/preload.c")],
  ["effects in log, state file and exit status for signals injected at every intercepted call"])
p("C19", "The daemon writes nothing but its own state and log files",
  "Whatever it observes, the daemon creates, changes, renames or removes no file other than its state file, the temporary next to it, and its log; everything else is opened read-only. It does not follow a symbolic link or reuse a file planted at the temporary's name, and state and log are not accessible to other users.",
  ["inputs", "histories", "fault_sequences"],
  "All process tables, file names, configurations and histories, including hostile ones.",
  "No test observes which files the daemon touches.",
  ["handling/state_io.c", "utils/log.c", "handling/readahead.c", "handling/model_utils.c"],
  [("exclusive creation of the temporary", "handling/state_io.c"), ("read-only opens", "handling/readahead.c"), ("umask when daemonizing", "daemon/preload.c")],
  ["every file-system call of the daemon and its children", "modes of created files"])
p("C20", "The daemon keeps its documented schedule",
  "On mains power there is exactly one scan and one prediction per configured cycle and one model update half a cycle after each scan, the model clock advances by one cycle per cycle, and the state is saved every autosave period once there is something to save, and at exit. On battery the cycle is stretched; new cycle and autosave values apply from the next period after a reload, and no other activity delays or duplicates these steps.",
  ["histories", "configurations"],
  "All cycle and autosave lengths (odd and even), histories of signals, reloads and battery changes.",
  "No test runs the daemon longer than two seconds, less than one cycle.",
  ["handling/state.c"],
  [("timer re-arming in both half ticks and autosave", "handling/state.c")],
  ["virtual times of scans, predictions, updates and saves; clock field of the saved state"])
p("C21", "No process table or system file content can crash or hang the daemon",
  "Whatever the process table, process mappings, executable names, memory statistics or battery files contain, and whichever of them vanish or fail to open or read at any moment, the daemon neither crashes, hangs nor corrupts its model, and what it saves afterwards can be loaded again. A process that vanishes during a scan affects nothing but itself.",
  ["inputs", "schedules", "fault_sequences"],
  "All contents of the process table and system files, and all moments at which entries vanish.",
  "No test parses any of these files.",
  ["monitoring/proc.c", "monitoring/spy.c", "utils/power.c", "algorithm/prophet.c"],
  [("bounded parsing", "monitoring/proc.c"), ("handling of vanished processes", "monitoring/spy.c")],
  ["sanitizer reports", "saved state", "exit status"])
p("C22", "Start-up options and daemon life cycle behave as documented",
  "Without the foreground option the starting command returns success while the daemon goes on detached from it (own session, root directory, standard streams on the log), with it or in debug mode the daemon stays; the nice level, the configuration, state and log paths and the verbosity take effect as given, messages less important than the verbosity are not logged, and each log line is complete and time-stamped. Invalid options, and log files that cannot be opened, end the start with a diagnostic and a failure status before anything is modified.",
  ["configurations", "inputs"],
  "All combinations of options.",
  "The post-build script starts the daemon with two fixed option sets, in the foreground only.",
  ["config/cmdline.c", "daemon/preload.c", "utils/log.c", "handling/context.c"],
  [("option parsing", "config/cmdline.c"), ("daemonizing", "daemon/preload.c"), ("log set-up and level filter", "utils/log.c")],
  ["processes, sessions, exit status, descriptors, log content"])
out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, x["title"]
        f.write(json.dumps(x) + "\n")
print(len(P))
