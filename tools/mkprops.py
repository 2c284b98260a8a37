#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the wording lives in one place)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, state=None, observe=None):
    assert len(title) <= 80, (id, len(title))
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe: a["observe_at"] = observe
    a["hook_needed"] = None
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})

prop("C01", "Every selected mutant is tested once and recorded exactly once",
 "When a run ends without an internal error and with a passing (or skipped) baseline, every mutant selected by the filters, --iterate and --shard was tested exactly once and no other mutant was. It appears exactly once in mutants.json, has exactly one entry in outcomes.json, and its name is exactly one line of exactly the one of caught.txt, missed.txt, timeout.txt, unviable.txt that matches its recorded summary (no list for a --check success or a command killed by a stray signal). The counts in outcomes.json equal the number of entries of each kind.",
 ["schedules", "inputs", "configurations"],
 "All interleavings of 1..N worker threads over the work queue and the output directory, all job counts, shuffles, file layouts, verdict mixes and delays.",
 "The integration tests run a few small trees, mostly with one job and whatever interleaving the OS gives; a duplicated, lost or misfiled mutant that needs two workers to meet inside a critical section is not sampled.",
 ["src/lab.rs", "src/output.rs", "src/outcome.rs", "src/main.rs"],
 [("work queue behind a mutex, one mutant per take", "src/lab.rs run_queue"), ("outcomes appended and files rewritten under the output mutex", "src/output.rs add_scenario_outcome")],
 [("work queue", "mutants not yet taken", "src/lab.rs test_mutants"), ("lab outcome", "accumulated outcomes and counters", "src/outcome.rs LabOutcome")],
 ["mutants.out/mutants.json", "mutants.out/outcomes.json", "mutants.out/*.txt", "cargo child processes"])

prop("C02", "Each command runs in the source tree plus exactly its one mutation",
 "From the moment a build, check or test command starts until it has exited, the tree it runs in equals the source tree as copied with exactly the replacement text of the mutant it is attributed to substituted at that mutant's span, and nothing else changed; baseline commands see the unmutated tree. No two commands run in the same tree at the same time. A mutation never survives in a build directory into the next scenario.",
 ["schedules", "inputs", "configurations", "fault_sequences"],
 "All interleavings of workers, all orders of mutants over build directories, slow-dying killed children, kill/timeout/failure outcomes of the previous scenario, I/O short writes.",
 "Tests look at the final verdicts of a handful of trees; they never look inside the tree while a command runs, nor at what a slow or killed previous command leaves.",
 ["src/lab.rs", "src/mutant.rs", "src/build_dir.rs", "src/span.rs", "src/source.rs"],
 [("apply before and revert after the phases of each scenario", "src/lab.rs run_one_scenario"), ("one build directory per worker thread", "src/lab.rs test_mutants"), ("child is waited for before the scenario goes on", "src/process.rs terminate")],
 [("build directory", "scratch copy owned by one worker", "src/build_dir.rs BuildDir")],
 ["contents of the working directory of every cargo child at start and at exit"])

prop("C03", "Recorded verdicts follow from what the mutant's own commands did",
 "A mutant is recorded caught only if its own build succeeded and its own test command exited nonzero; missed only if build and test both exited zero; unviable only if its own build or check command exited nonzero; timeout only if one of its own commands was killed for exceeding its time limit; success (--check) only if its check exited zero. Conversely each of those endings is recorded as that verdict, the recorded per-phase statuses and argument lists are those of the commands actually run, and the test command never runs unless that mutant's build succeeded.",
 ["schedules", "inputs", "configurations"],
 "All assignments of outcomes (exit codes, signals, hangs) and durations to commands, all interleavings of concurrent scenarios, all option mixes.",
 "Tests check a few fixed trees with exit status 0 or 101 only; they do not cross concurrent scenarios with distinct outcomes or use odd exit codes, signals or races between exit and timeout.",
 ["src/outcome.rs", "src/process.rs", "src/process/unix.rs", "src/cargo.rs", "src/lab.rs"],
 [("exit status mapping", "src/process/unix.rs"), ("summary from phase results", "src/outcome.rs ScenarioOutcome::summary"), ("phases stop at first non-success", "src/lab.rs run_one_scenario")],
 None, ["exit status of cargo children", "mutants.out/outcomes.json", "mutants.out/*.txt"])

prop("C04", "The exit status reports the worst outcome of the run",
 "The process exits 0 only if it ran to completion, the baseline (unless skipped) succeeded, and no mutant was missed or timed out. Otherwise it exits 4 if the baseline failed, 3 if any mutant timed out, 2 if none timed out but some were missed; an interrupted run or one stopped by an internal error exits with 1 (or dies by a signal that came before handlers were installed), never with 0, 2, 3 or 4.",
 ["schedules", "inputs", "configurations", "fault_sequences"],
 "All mixes of verdicts and job counts, interruption or failure of any one worker at any moment while others succeed.",
 "Each code is tested once with a single-cause tree and no concurrent failure or interruption.",
 ["src/outcome.rs", "src/exit_code.rs", "src/main.rs", "src/lab.rs"],
 [("exit code from accumulated outcome", "src/outcome.rs LabOutcome::exit_code"), ("worker errors propagated from join", "src/lab.rs join_threads")],
 None, ["process exit status"])

prop("C05", "No mutant is tested unless the unmutated tree passes first",
 "Unless --baseline=skip is given, the unmutated tree is built and tested (or checked) to completion, successfully, before any mutated code is built or tested; if that fails, is killed or exceeds its time limit, no mutant is ever run, the baseline outcome is the only recorded outcome, and the run exits with status 4. With --baseline=skip no command runs on an unmutated tree.",
 ["schedules", "configurations", "fault_sequences"],
 "All ways the baseline can end (exit codes, signals, timeout, at build or test), all job counts and schedules.",
 "Tests have one failing-baseline tree with jobs=1.",
 ["src/lab.rs", "src/outcome.rs", "src/timeouts.rs"],
 [("run_baseline before the worker threads are spawned", "src/lab.rs test_mutants")],
 None, ["order of cargo children", "mutants.out/outcomes.json", "exit status"])

prop("C06", "Without --in-place the source tree is never modified",
 "Without --in-place, at no moment does a run create, change, rename or delete anything outside the output directory (mutants.out, mutants.out.old, and the parent given by --output if it has to be created) and its own temporary directories. In particular the source tree, including files reached through symlinks, is bit-for-bit the same at every instant and after any ending: success, error, interrupt or crash.",
 ["schedules", "crash_points", "inputs", "configurations", "fault_sequences"],
 "All option mixes, tree shapes (symlinks, nested workspaces, VCS directories), I/O failures at any operation, signals and kills at any point.",
 "Tests compare a tree after a clean run only; no failure, interrupt or crash is injected, and no write is watched while it happens.",
 ["src/build_dir.rs", "src/copy_tree.rs", "src/output.rs", "src/lab.rs", "src/mutant.rs"],
 [("scratch copy of the tree", "src/copy_tree.rs copy_tree"), ("writes go through the build directory path", "src/build_dir.rs overwrite_file")],
 None, ["every file-modifying system call", "source tree after the run"])

prop("C07", "--in-place restores every source file exactly",
 "With --in-place, whenever the process exits by itself (success, any verdict, baseline failure, internal error, or a handled interrupt), every file of the source tree outside target and the output directory has exactly its original bytes and mode, as long as the file system accepts the restoring write; in particular also if the terminal, or a pipe taking its output, is gone. During the run at most one mutation is present at a time, in the file of the mutant being tested.",
 ["schedules", "inputs", "configurations", "fault_sequences"],
 "All endings, interrupt at any instant, I/O error on any single operation other than the restoring write itself, all file contents including CRLF line endings, BOM, missing final newline and non-ASCII text.",
 "Tests run --in-place on one small tree without faults or interrupts and with LF files only.",
 ["src/lab.rs", "src/mutant.rs", "src/build_dir.rs", "src/source.rs"],
 [("revert after every scenario, also when a command fails with an error", "src/lab.rs run_one_scenario")],
 [("SourceFile.code", "the text written back on revert", "src/source.rs")],
 ["source tree after exit", "source tree at start and end of every command"])

prop("C08", "Commands exceeding their time limit are killed, and no others",
 "A mutant's build, check or test command still running after its time limit is terminated, together with every process of its process group, within a bounded delay (a polling interval), the scenario is recorded as a timeout, and the run goes on with the remaining mutants. A command is never killed for a timeout before its limit has elapsed, whatever other workers do and whatever the wall clock does. The limit for tests is the explicit --timeout, else the larger of the minimum and the baseline test time times the multiplier (300 s if the baseline is skipped), and builds are limited only if asked for.",
 ["schedules", "inputs", "configurations", "fault_sequences"],
 "All command durations around the limits, baseline durations, option values, thread stalls, wall clock jumps, grandchildren, slow-dying children.",
 "Tests use one hanging function with real seconds; durations near the limit, clock jumps, process-group membership and concurrent hangs are not sampled.",
 ["src/process.rs", "src/process/unix.rs", "src/timeouts.rs", "src/lab.rs", "src/options.rs"],
 [("monotonic elapsed time polled every 50 ms", "src/process.rs poll"), ("process group kill", "src/process/unix.rs terminate_child"), ("timeout computation", "src/timeouts.rs")],
 None, ["signals sent to child process groups with their times", "mutants.out/outcomes.json"])

prop("C09", "An interrupt stops everything promptly and cleanly",
 "After SIGINT is received (once the handler is installed), no further build or test command is started apart from at most one per worker already being launched, every running child process group is sent SIGTERM and waited for, and the process exits with nonzero status within a bounded time, at whatever moment the signal arrives: while copying, waiting for the lock, between phases or while commands run, and also if its terminal or the pipe taking its output is gone. No child of the run outlives it and no mutant interrupted mid-test is recorded.",
 ["schedules", "fault_sequences", "configurations"],
 "All instants of signal delivery, all threads taking it, all job counts, several signals.",
 "One test interrupts one run once at one moment with one job.",
 ["src/interrupt.rs", "src/process.rs", "src/lab.rs", "src/copy_tree.rs", "src/output.rs"],
 [("interrupt flag checked in every poll loop", "src/interrupt.rs check_interrupted")],
 None, ["signals to children", "children alive at exit", "exit status", "time to exit"])

prop("C10", "Scratch build directories are removed at the end of every run",
 "When the process exits by itself - success, findings, baseline failure, internal error or interrupt - no temporary build directory it created remains, unless --leak-dirs was given or deleting it was itself refused by the file system. With --leak-dirs every build directory that was used remains, unmutated.",
 ["schedules", "configurations", "fault_sequences"],
 "All endings and their instants, all job counts, failures of any worker while others are running.",
 "Tests check cleanup after one successful run.",
 ["src/build_dir.rs", "src/copy_tree.rs", "src/lab.rs", "src/main.rs"],
 [("TempDir dropped with its BuildDir before exit", "src/build_dir.rs")],
 None, ["temporary directory after exit"])

prop("C11", "Concurrent runs never share, destroy or mix an output directory",
 "When several runs use the same output parent directory, at most one of them at a time uses mutants.out; the others wait (and can be interrupted while waiting). A finished run's results are moved whole to mutants.out.old, replacing the previous one, and no run ever deletes, renames or writes into the output directory of a run that is still going on; every run that exits successfully leaves a complete set of its own results.",
 ["schedules", "crash_points", "histories"],
 "All interleavings of two or three runs starting, waiting, finishing, being interrupted or crashing; pre-existing output directories from finished or crashed runs.",
 "One unit test rotates directories sequentially in one process; there is no concurrent test.",
 ["src/output.rs"],
 [("exclusive lock on lock.json held for the life of the run", "src/output.rs LockFile::acquire_lock"), ("rotation to mutants.out.old", "src/output.rs OutputDir::new")],
 [("lock.json", "file whose lock marks the directory as in use", "src/output.rs")],
 ["renames, deletions and creations in the output parent", "mutants.out of each run"])

prop("C12", "--iterate skips exactly the mutants already caught or unviable",
 "In runs that follow one another (none starting before the last has ended), with --iterate, a mutant is skipped if and only if its name was recorded as caught or unviable by a run in the immediately preceding unbroken chain of runs in that output directory; missed, timed-out, untested and interrupted mutants are always tested again. The record accumulates over any number of iterations and is never lost or gained through interrupted, failed or crashed runs, except that a crash between moving the old results and writing the record may forget skips (more testing, never less).",
 ["histories", "crash_points", "schedules", "fault_sequences"],
 "All histories of complete, interrupted, failing and killed runs followed by further iterations; source changes in between.",
 "One test runs three clean iterations.",
 ["src/output.rs", "src/main.rs", "src/workspace.rs"],
 [("caught, unviable and previously caught lists read before and rewritten after rotation", "src/output.rs load_previously_caught, write_previously_caught")],
 [("previously_caught.txt", "names skipped by this run", "mutants.out")],
 ["mutants.json of each run", "list files of each run"])

prop("C13", "Shards partition the mutants, independent of chance and environment",
 "For any k, the runs with --shard 0/k to k-1/k over an unchanged tree, each in its own environment, together test every selected mutant exactly once, with sizes differing by at most one, and each shard's content is the same on every run. The set and order of mutants listed for a tree and options does not depend on directory order, hash seeds, CPU count, time, current directory or the location of the tree.",
 ["schedules", "inputs", "configurations"],
 "All k, all trees, all hash seeds, directory enumeration orders, CPU counts and shuffle settings.",
 "Tests shard one tree in one environment; directory order and hash seeds are whatever the test machine gives.",
 ["src/shard.rs", "src/main.rs", "src/visit.rs", "src/workspace.rs"],
 [("shard selection by index before shuffling", "src/main.rs, src/shard.rs"), ("deterministic source walk", "src/visit.rs walk_tree")],
 None, ["mutants.json / --list output of each shard"])

prop("C14", "Scratch trees are faithful copies of the source",
 "Every scratch tree in which commands run contains exactly the files (with their contents and permissions), directories and symlinks of the source tree, except mutants.out, mutants.out.old, VCS metadata (unless --copy-vcs=true), git-ignored files (only with --gitignore=true inside a git tree) and relative path dependencies made absolute in the manifest and cargo config. If any part cannot be read or written completely the run stops with an error before any command runs in that tree; a partial copy is never tested.",
 ["inputs", "configurations", "fault_sequences", "schedules"],
 "All tree shapes, directory orders, short reads and writes, fallbacks of the copy primitives, and a failure of any single file operation during the copy.",
 "Tests copy a few trees with all system calls succeeding fully.",
 ["src/copy_tree.rs", "src/copy_tree/unix.rs", "src/build_dir.rs", "src/manifest.rs"],
 [("walk with explicit exclusions, errors propagated", "src/copy_tree.rs copy_tree"), ("path rewriting", "src/manifest.rs")],
 None, ["contents of the build directory at each command start"])

prop("C15", "Every scenario has its own complete log and diff",
 "Every scenario has its own log file and every mutant its own diff file, distinct from all others in the run; each log contains the scenario name, the exact command lines and the complete output of exactly that scenario's commands and of no other, and each diff is exactly the change present in the tree while its commands ran. The log and diff paths recorded in outcomes.json for a mutant are the ones holding its own output.",
 ["schedules", "inputs"],
 "All interleavings of concurrent scenarios, mutants whose positions or file names collide after sanitising, short writes.",
 "Tests look at single-job logs of a few trees; name collisions with concurrent workers are not sampled.",
 ["src/output.rs", "src/lab.rs", "src/mutant.rs", "src/process.rs"],
 [("unique log names allocated under the output mutex, created exclusively", "src/output.rs start_scenario"), ("child stdout and stderr appended to the scenario log", "src/process.rs start")],
 None, ["mutants.out/log, mutants.out/diff"])

prop("C16", "I/O failures are never turned into a successful-looking run",
 "If reading the sources or configuration, copying the tree, applying or reverting a mutation, launching a command, or writing any result file (mutants.json, outcomes.json, the text lists, logs, diffs) fails, the run ends with exit status 1 and an error message and not with a status that reports results. A run that exits 0, 2 or 3 has left complete, well-formed results on disk.",
 ["fault_sequences", "schedules", "configurations"],
 "A failure (EIO, ENOSPC, EACCES, EMFILE, EAGAIN) of any single file, process or thread operation, or of all operations of a kind from some point on, in any worker.",
 "No test injects an I/O error.",
 ["src/output.rs", "src/lab.rs", "src/copy_tree.rs", "src/source.rs", "src/process.rs", "src/build_dir.rs"],
 [("errors propagated with context to main", "src/main.rs main")],
 None, ["exit status", "stderr", "mutants.out"])

prop("C17", "Parallelism stays within --jobs and the shared jobserver",
 "At no moment do more build or test commands run at once than --jobs (1 by default), or than there are mutants, and never more build directories exist than that; while mutants remain untested and nothing failed, each worker that finishes one goes on to another. With the jobserver on, every command is given usable handles to one and the same token pool, holding as many tokens as --jobserver-tasks (by default the number of CPUs); with --jobserver=false no command is given one.",
 ["schedules", "configurations"],
 "All schedules, job counts, mutant counts, token counts and CPU counts.",
 "One test counts build directories after one run; concurrency over time and the pool's identity and size are not observed.",
 ["src/lab.rs", "src/process.rs", "src/options.rs"],
 [("n_threads = min(jobs, mutants)", "src/lab.rs test_mutants"), ("one jobserver client configured on each command", "src/lab.rs, src/process.rs")],
 None, ["lifetimes of cargo children", "jobserver pipe of each child"])

prop("C18", "Every run terminates and workers never deadlock",
 "If every command ends by itself or has a time limit, the run ends, whatever the interleaving of the workers and whatever single failure one of them meets: the total time is bounded by the work (copying, commands, limits and polling delays) divided over the workers, no lock is held forever, and an error or panic in one worker does not leave the others or the process hanging.",
 ["schedules", "fault_sequences", "configurations"],
 "All interleavings at the granularity of single instructions blocks between synchronisation operations, all fault points, spurious wakeups, stalls.",
 "Tests sample a handful of schedules the OS happens to give.",
 ["src/lab.rs", "src/process.rs", "src/console.rs", "src/output.rs"],
 [("short critical sections, no nested locks held across commands", "src/lab.rs, src/console.rs")],
 None, ["process termination within the simulated-time bound", "idle time of workers while mutants remain"])

prop("C19", "Results on disk are usable at every moment, also after a crash",
 "mutants.json is complete before the first command on mutated code starts. At every moment, and after being killed at any point, each complete line of caught.txt, missed.txt, timeout.txt and unviable.txt names a mutant whose testing had finished with that verdict, every mutant whose testing finished before the last scenarios in flight is on its list, and outcomes.json, whenever it is not just being rewritten, parses and agrees with the lists.",
 ["crash_points", "schedules"],
 "SIGKILL at any instruction-level point of any thread; observation at any command boundary.",
 "No test kills the process; files are looked at after a clean end only.",
 ["src/output.rs", "src/lab.rs"],
 [("lists appended unbuffered, outcomes.json rewritten after each scenario", "src/output.rs add_scenario_outcome")],
 None, ["mutants.out at command boundaries and after a kill"])

prop("C20", "Commands run the requested tool, packages, arguments and environment",
 "Every command uses the requested tool and phase (cargo or nextest; build without running, then test; or check) on exactly the packages that the options call for - the mutated package by default, the whole workspace with --test-workspace, the named packages with --test-package, and for the baseline every package with selected mutants - with the requested profile, features and extra arguments; test-only arguments go to test commands only. INSTA_UPDATE=no and INSTA_FORCE_PASS=0 are set for all of them, and lint caps only when asked for.",
 ["configurations", "inputs", "schedules"],
 "All option mixes and workspaces, all workers and all mutants in the queue of each.",
 "Unit tests check a few argument vectors in isolation, not what each concurrently running scenario is actually given.",
 ["src/cargo.rs", "src/lab.rs", "src/options.rs", "src/package.rs"],
 [("argument vector built per scenario and phase", "src/cargo.rs cargo_argv"), ("package selection per mutant", "src/lab.rs run_queue")],
 None, ["argv, cwd and environment of every cargo child"])

prop("C21", "The console tells the same story as the recorded results",
 "Every missed and timed-out mutant, every caught one with --caught and every unviable one with --unviable is reported on standard output exactly once, by name and with the verdict recorded for it, and nothing else is so reported; the final summary line's counts equal the recorded counts.",
 ["schedules", "configurations"],
 "All interleavings of workers finishing concurrently, all verdict mixes and print options.",
 "Tests look at single-job output of a few trees.",
 ["src/console.rs", "src/outcome.rs", "src/lab.rs"],
 [("one line per finished scenario under the view lock", "src/console.rs scenario_finished")],
 None, ["standard output"])

prop("C22", "Listing has no side effects and agrees with the run",
 "--list and --list-files start no build, check or test command, create and modify nothing on disk, and take no lock, so they are safe beside a running test. --list shows exactly the mutants that a run with the same filters, --iterate record and shard would test.",
 ["configurations", "inputs", "schedules"],
 "All option mixes and trees, also while another run is going on.",
 "Tests snapshot list output of fixed trees but do not watch for side effects or compare with a run.",
 ["src/main.rs", "src/list.rs"],
 [("listing returns before the output directory is opened", "src/main.rs main")],
 None, ["file-modifying system calls", "cargo children", "standard output"])

prop("C23", "Generated mutants are the documented, plausible replacements",
 "For every function, operator and match arm in the source, the set of mutants generated is the documented one: type-appropriate return values, binary and unary operator replacements, with the documented exclusions.",
 ["inputs", "programs"], "All Rust programs.", "Tests cover a fixed list of return types and trees.",
 ["src/fnvalue.rs", "src/visit.rs"], [("syntax tree visitor and replacement generator", "src/visit.rs, src/fnvalue.rs")])
prop("C24", "--in-diff selects exactly the mutants touched by the diff",
 "With --in-diff, a mutant is selected if and only if its span overlaps a line changed by the diff, and a diff that does not match the tree is refused.",
 ["inputs"], "All diffs and trees.", "Tests cover a few diffs.",
 ["src/in_diff.rs"], [("diff parsing and span overlap", "src/in_diff.rs")])
prop("C25", "Name, file and package filters select exactly what they describe",
 "--file, --exclude, --re, --exclude-re, --package and their configuration-file equivalents select exactly the mutants whose path, name or package matches.",
 ["inputs", "configurations"], "All filter expressions and trees.", "Tests cover a few patterns.",
 ["src/glob.rs", "src/options.rs", "src/workspace.rs"], [("glob and regex matching", "src/options.rs, src/glob.rs")])
prop("C26", "Relative path dependencies are rewritten correctly in scratch copies",
 "Every relative path dependency, patch or replacement that leaves the tree is rewritten to the absolute path it denoted in the source, and everything else in the manifest and cargo configuration keeps its meaning.",
 ["inputs"], "All manifests and cargo configurations.", "Tests cover a few manifests.",
 ["src/manifest.rs"], [("TOML path rewriting", "src/manifest.rs")])

out = os.path.join(os.path.dirname(__file__), "..", "properties.jsonl")
with open(out, "w") as f:
    for p in P: f.write(json.dumps(p) + "\n")
print(len(P), "properties")
