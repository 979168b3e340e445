import json
P=[]
def p(id,title,statement,over,qt,why,files,mech,observe=None):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=qt),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=observe or [],hook_needed=None)))
S="src/external/samurai/"
p("C01","A successful incremental build equals a clean build",
 "Whenever `muon samu` exits 0, every output of the requested targets has exactly the content a clean build of the current sources, build file and commands would produce. This holds after any history of source, header, depfile and command-line edits, added or removed build statements, deleted outputs, failed builds and builds killed at an arbitrary instant (outputs half-written, logs half-written).",
 ["histories","crash_points","schedules","inputs"],"every build graph (implicit, order-only, depfile, restat, generator, phony, rspfile, pool, multi-output, dyndep-free), every edit/build/kill history, every completion order of parallel jobs",
 "tests run a handful of fixed graphs once from scratch; none edits, fails, kills and rebuilds",
 [S+"build.c",S+"graph.c",S+"deps.c",S+"log.c",S+"parse.c"],
 [("dirty computation from mtimes, command hashes and recorded deps",S+"build.c computedirty/isdirty"),("build log",S+"log.c"),("deps log",S+"deps.c"),("restat pruning",S+"build.c nodedone/edgedone")])
p("C02","A build does no more work than needed; a second build does nothing",
 "After a build exits 0, running the same build again with nothing changed starts no job and succeeds. After an edit, only jobs that (transitively) depend on something that changed are started, and when a `restat` job leaves its output untouched, jobs that depend on nothing else that changed are not started.",
 ["histories","schedules","inputs"],"every build graph, every history of edits and builds, every completion order, any -j",
 "no test counts the commands a second build runs; most never build twice",
 [S+"build.c",S+"log.c",S+"deps.c","src/backend/ninja.c","src/backend/ninja/rules.c","src/backend/ninja/custom_target.c"],
 [("dirty computation",S+"build.c"),("restat mtime recording",S+"log.c"),("deps log reload and rewrite",S+"deps.c")])
p("C03","Jobs run in dependency order, at most once, within -j and pool limits",
 "In one build, a job starts only after every job producing one of its inputs (explicit, implicit, order-only or discovered) has finished successfully, and no job is started twice. At no instant are more than -j jobs running, more than depth jobs of one pool, or more than one job of the console pool.",
 ["schedules","inputs","configurations"],"every build graph, pool layout, -j value, job duration and completion order, job failures included",
 "needs control over job durations and completion order; the tests observe only the final exit status of fixed graphs",
 [S+"build.c",S+"graph.c"],[("work queue, nblock/nprune counters",S+"build.c queue/edgedone"),("pools",S+"build.c edgepool handling")])
p("C04","Build failures are reported, contained and awaited",
 "If any started job fails, the build exits non-zero; without -k no new job is started once the allowed number of failures is reached, with -k N or -k 0 every job that does not depend on a failed one still runs within that budget, and no job depending on a failed job is run. Jobs already running are waited for before exit, and a job that failed is run again by the next build.",
 ["schedules","fault_sequences","inputs"],"every build graph, failing subset, signal death, completion order, -j and -k; failures to start a job (fork/pipe/exec errors) included",
 "tests cover only single-failure exit status; which jobs were in flight when the failure arrived depends on timing",
 [S+"build.c","src/platform/posix/run_cmd.c"],[("numfail/maxfail accounting",S+"build.c build()"),("jobdone/edgedone",S+"build.c")])
p("C05","A job's output is shown complete, unmixed and only once",
 "Everything a job writes to stdout and stderr appears in the build's own output, byte-exact, contiguously after the job's description line, never interleaved with another job's, for any size, chunking and timing of the writes. A failed job's command and output are shown too.",
 ["schedules","inputs"],"every set of concurrent jobs, output sizes up to several pipe capacities, every interleaving of writes, partial reads and exits",
 "interleavings of concurrent writers are not controllable in tests",
 [S+"build.c","src/platform/posix/run_cmd.c"],[("per-job output buffers","src/platform/posix/run_cmd.c copy_pipe"),("output flush on completion",S+"build.c jobdone")])
p("C06","Damaged build logs cost at most extra work",
 "If the build log or dependency log in the build directory is missing, truncated at any byte (a kill in the middle of a write does that), followed by garbage, or has a damaged header, the next build neither crashes nor hangs nor fails for it, and its outputs equal a clean build: the damage costs at most extra work. With arbitrary bytes changed in the middle of a log the next build still neither crashes nor hangs.",
 ["crash_points","fault_sequences","histories"],"truncation at any length, removal, zero-filled tails, garbage tails, damaged headers and byte or record-id flips of the logs left by any build history, followed by any further history",
 "no test touches the logs",
 [S+"log.c",S+"deps.c"],[("log parsing and rewrite",S+"log.c loginit"),("deps log validation",S+"deps.c depsinit")])
p("C07","Building after a build-definition change reconfigures first",
 "When a build description the project was configured from (a meson.build, options file, configure_file input or anything else configuration read) changed since, the next build first regenerates the build files with the originally given options, and then builds; the resulting build directory and outputs equal those of a fresh setup and build of the new tree with the same options. When nothing changed, no regeneration happens.",
 ["histories","inputs","schedules"],"every project from the generated family, every sequence of edits to build definitions, options, sources and headers with builds between them",
 "tests configure each project once in a fresh directory and never edit it afterwards",
 ["src/backend/ninja.c","src/backend/ninja/rules.c","src/lang/workspace.c",S+"samu.c","src/options.c"],[("REGENERATE_BUILD edge","src/backend/ninja/rules.c"),("regenerate dependency list","src/lang/workspace.c"),("manifest rebuild loop",S+"samu.c")])
p("C08","Setup is all-or-nothing under kills and I/O errors",
 "If `muon setup` (or the regeneration a build triggers) exits 0, every file it writes is complete. If it is killed at any instant or fails through any I/O error, then a later build, test or install either reports failure or behaves exactly as for the complete old or the complete new configuration - never silently on a torn or mixed set of files - and rerunning setup succeeds and equals a fresh setup.",
 ["crash_points","fault_sequences","histories"],"kill or ENOSPC/EIO/short write/EMFILE/open failure at every system call of a setup or regenerate, first time or over an existing configured directory",
 "no test injects a kill or an I/O error",
 ["src/backend/output.c","src/backend/ninja.c","src/platform/filesystem.c","src/main.c"],[("writing of build files","src/backend/output.c with_open"),("file writes","src/platform/filesystem.c")])
p("C09","Configuration is deterministic",
 "For the same sources, options and environment, `muon setup` produces byte-identical build files and configured outputs, whatever the order in which the OS lists directories, the memory layout, the clock, the pid, the timing of helper processes, or how many times it ran before.",
 ["schedules","configurations","histories"],"every project of the generated family under every directory-listing order, heap fill/layout, clock and schedule seed",
 "two runs on one machine hit the same listing order and layout; tests never compare runs",
 ["src/backend/ninja.c","src/lang/interpreter.c","src/functions/kernel.c","src/lang/workspace.c"],[("ordered dict and array emission","src/lang/object.c, src/backend")])
p("C10","Reconfiguring leaves unchanged configured files untouched",
 "When setup or regeneration runs again and a configured or copied output (from configure_file with configuration, copy or capture, or vcs_tag at build time) would get the content it already has, that file is not modified, its timestamp included, so nothing depending on it is rebuilt; when the content would differ it is replaced by exactly the new content.",
 ["histories","inputs"],"every history of edits and reconfigurations of the generated projects",
 "tests never reconfigure an existing build directory and look at timestamps",
 ["src/functions/kernel/configure_file.c","src/platform/filesystem.c","src/script/vcs_tagger.meson"],[("compare before write","src/functions/kernel/configure_file.c file_exists_with_content")])
p("C11","A command's output and exit status are captured exactly",
 "For a command run at configure time, as a test, or through the internal exe wrapper, muon obtains exactly the bytes it wrote to stdout and stderr and its exit status (or the fact it was killed), delivers the given stdin content to it completely, and never deadlocks, whatever the sizes, chunking, interleaving and timing of its reads, writes and exit.",
 ["schedules","inputs","fault_sequences"],"every program behaviour from a generated family (large outputs, both streams, partial writes, early close of stdout, exit before reading stdin, slow writers, death by signal), every schedule",
 "timing and chunking are not controllable in tests; they run a few small commands",
 ["src/platform/posix/run_cmd.c","src/functions/kernel.c","src/main.c"],[("collect loop","src/platform/posix/run_cmd.c run_cmd_collect")])
p("C12","No descriptor or child leaks across many commands",
 "Running any number of jobs, tests or commands leaves no unreaped child and does not increase muon's open descriptors: every pipe and file opened for one command is closed when the command ends, on success, failure, failure to start and timeout alike; a command that could not be started is reported as failed.",
 ["histories","fault_sequences","schedules"],"every sequence of commands, with pipe/fork/exec/open failures injected at any point",
 "leaks show only after many commands or under injected failures",
 ["src/platform/posix/run_cmd.c",S+"build.c","src/cmd_test.c"],[("pipe lifecycle","src/platform/posix/run_cmd.c")])
p("C13","Test verdicts are right and complete",
 "`muon test` runs every selected test exactly once, with its declared arguments, environment, working directory and wrapper (after rebuilding what the tests need), reports each as pass, fail, skip or expected-fail exactly as its protocol and exit say, and exits 0 if and only if no test failed; this holds for any number of tests, any durations and completion order, and any way a test ends (exit codes, signals, TAP streams incl. bail-out, bad plans and non-zero exit, should_fail).",
 ["schedules","inputs","configurations"],"every generated set of tests, job limit, durations, endings and completion order; failure to start included",
 "the test suite contains few test() endings and fixed timing",
 ["src/cmd_test.c","src/formats/tap.c"],[("collect and check","src/cmd_test.c collect_tests/check_test_result_tap")])
p("C14","Test timeouts are enforced and never spurious",
 "A test still running when its timeout (times the multiplier) has passed is terminated - with SIGKILL if it ignores SIGTERM - within a bounded extra time, and is reported as failed by timeout; a test that finishes before its timeout is never reported as timed out. One hanging test never prevents the others from completing.",
 ["schedules","configurations","inputs"],"every set of test durations around their timeouts, SIGTERM-ignoring and output-flooding tests, any job limit and scheduling delay",
 "real-time tests of timeouts are slow and racy, so there are almost none",
 ["src/cmd_test.c","src/platform/posix/run_cmd.c"],[("timeout handling","src/cmd_test.c")])
p("C15","Test parallelism respects -j, serial and priority",
 "At most -j tests run at once, a test marked is_parallel: false never runs at the same time as any other, of one project's tests those with a higher priority are started first, and every runnable test is eventually started whatever the order and durations.",
 ["schedules","configurations"],"every mix of serial and parallel tests, priorities, job limits and durations",
 "overlap depends on timing that tests do not control",
 ["src/cmd_test.c"],[("slot allocation","src/cmd_test.c")])
p("C16","Fail-fast stops promptly and reports failure",
 "With --fail-fast, after the first failing test no further test is started, the tests still running are ended or awaited without leaking, and the exit status is non-zero; without it, all tests run.",
 ["schedules","configurations"],"every mix of failing tests, job limits and completion order",
 "depends on which tests are in flight when the failure is seen",
 ["src/cmd_test.c"],[("fail_fast","src/cmd_test.c")])
p("C17","Install is exact, contained, and loud on failure",
 "When `muon install` exits 0, every file, directory, symlink and script the project asked to install is present under DESTDIR + prefix at its path with exactly the built content and the requested (or default) permissions, and nothing outside DESTDIR is created or changed; a dry run changes nothing. Any copy, mkdir, chmod, symlink or install-script failure makes it exit non-zero, and running it again after a failure or a kill at any instant completes the same tree.",
 ["crash_points","fault_sequences","inputs","histories"],"every generated install plan, kill or ENOSPC/EIO/short write/EMFILE/EACCES at every system call, pre-existing destination states",
 "tests install into fresh directories without faults and compare name lists only",
 ["src/cmd_install.c","src/install.c","src/platform/posix/filesystem.c","src/platform/filesystem.c"],[("install loop","src/cmd_install.c install_run"),("copies","src/platform/posix/filesystem.c fs_copy_file")])
p("C18","Subproject downloads are verified, complete and loud",
 "A wrap-file archive whose bytes do not match the recorded checksum, or that is truncated or partially downloaded, is never unpacked into the source tree and makes the command fail; a download or extraction that fails or is killed at any instant is never later taken for a complete subproject. On success the subproject tree equals the archive content plus packagefiles and patches.",
 ["crash_points","fault_sequences","inputs"],"every generated archive and wrap, download truncation/corruption/failure, kill or ENOSPC/EIO at every system call of the fetch and extraction, then retry",
 "tests have no network and do not inject faults",
 ["src/wrap.c","src/external/libcurl.c","src/external/libarchive.c"],[("checksum check","src/wrap.c checksum"),("extraction","src/external/libarchive.c muon_archive_extract")])
p("C19","Formatting in place never loses the user's file",
 "After `muon fmt -i` ends in any way - success, parse error, I/O error, or kill at any instant - each named file holds either its complete original content or its complete formatted content, and unless every file was completely processed the exit status is non-zero.",
 ["crash_points","fault_sequences","inputs"],"every source file, kill or ENOSPC/EIO/short write/open failure at every system call",
 "tests format intact files on a healthy disk",
 ["src/main.c","src/lang/fmt.c","src/platform/filesystem.c"],[("in-place write","src/main.c cmd_format")])
p("C20","Damaged saved state is rejected",
 "If a state file that a later command reads (saved tests, install plan, compiler-check cache, option info) is truncated, empty, missing or has a damaged header, the command either reports failure or behaves as if the state were intact; it does not crash or hang, and never reports success after silently processing only part of it.",
 ["crash_points","fault_sequences","inputs"],"every truncation length of the saved state of every generated project, followed by test, install, build or reconfigure",
 "no test damages the saved state",
 ["src/lang/serial.c","src/cmd_install.c","src/cmd_test.c","src/main.c"],[("load","src/lang/serial.c serial_load")])
p("C21","The command wrapper writes captures only on success, exactly",
 "A custom target with capture, feed, env or depfile produces exactly the wrapped command's stdout, feeds it exactly the given file, and propagates its failure; when the command or any I/O step fails or is killed, the build does not treat the capture output as up to date.",
 ["schedules","fault_sequences","crash_points","inputs"],"every generated custom target and program behaviour, with ENOSPC/EIO/short write/kill at any step and a later rebuild",
 "tests run the wrapper on healthy disks with small outputs",
 ["src/main.c","src/backend/ninja/custom_target.c","src/functions/kernel/custom_target.c","src/platform/posix/run_cmd.c"],[("internal exe","src/main.c cmd_exe")])
p("C22","Running out of a resource never becomes silent success",
 "If a memory allocation, descriptor, process or disk-space request fails while setup, build, test or install runs, the command either still produces the complete correct result or ends with a non-zero status (or abort) and a diagnostic; it never crashes on an invalid memory access, hangs, or exits 0 with missing or wrong results.",
 ["fault_sequences","crash_points"],"every single failing allocation or system call, and bursts of them, in each command on generated projects",
 "no test injects failures",
 ["src/platform/mem.c","src/platform/posix/filesystem.c","src/platform/posix/run_cmd.c","src/backend/output.c"],[("checked allocation","src/platform/mem.c"),("checked syscalls","src/platform/posix/filesystem.c")])
def na(id,title,st,over,qt,why,files):
    p(id,title,st,over,qt,why,files,[("see files",files[0])])
na("N01","Formatting preserves meaning and is idempotent",
 "For every valid build file, the formatter's output parses to the same program and formatting it again changes nothing.",["inputs"],"every valid source text and formatter configuration","fixed sample files only",["src/lang/fmt.c"])
na("N02","The interpreter implements the Meson language",
 "Every program of the supported Meson subset evaluates to the value the Meson reference semantics prescribes, or is rejected with an error.",["programs"],"every program","fixed projects only",["src/lang/interpreter.c","src/functions"])
na("N03","Malformed source text is rejected without memory errors",
 "Every byte string given as build file, options file, ini, wrap or TAP text is parsed or rejected with a diagnostic, without memory errors or unbounded recursion.",["inputs"],"every byte string","few malformed samples",["src/lang/lexer.c","src/lang/parser.c","src/formats/ini.c"])
na("N04","Version and string utilities are correct",
 "Version comparison is a total order agreeing with rpmvercmp, path joining/relativisation are inverse on clean absolute paths, and SHA-256 matches the standard.",["inputs"],"every input string","fixed samples",["src/rpmvercmp.c","src/platform/path.c","src/sha_256.c"])
na("N05","The analyzer reports no error on programs that evaluate",
 "A program that evaluates successfully for some configuration gets no error-level type diagnostic from the static analyzer.",["programs"],"every program","fixed samples",["src/lang/analyze.c"])
open('/verif/properties.jsonl','w').write(''.join(json.dumps(x)+'\n' for x in P))
