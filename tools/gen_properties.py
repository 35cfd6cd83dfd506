#!/usr/bin/env python3
"""Source of /verif/properties.jsonl (run by hand when the property list changes)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe, state=None):
    d = dict(id=id, title=title, statement=statement,
             quantifier=dict(over=over, text=text), why_tests_cant=why,
             anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
                          observe_at=observe, hook_needed=None))
    if state: d["anchors"]["state"] = [dict(name=a, meaning=b, where=c) for a, b, c in state]
    assert len(title) <= 80, (id, len(title))
    P.append(d)
L = "crates/jarl-lsp/src/"; C = "crates/jarl-core/src/"; J = "crates/jarl/src/"

# ---------------------------------------------------------------- language server
p("C01", "The server's copy of every open document always equals the client's copy",
  "After any history of open, change, save and close notifications, everything the language server says about a document (diagnostics, code actions) is about exactly the text the client holds. Each change notification's edits are applied in the order given, each to the result of the previous one, in the negotiated position unit, with positions past the end of a line meaning the end of that line and an edit without a range replacing the whole text.",
  ["histories", "inputs", "schedules"],
  "every sequence of didOpen/didChange/didSave/didClose on any number of documents, every batch of incremental or full edits (empty, multi-line, overlapping the previous edit, at end of file, non-BMP text, CRLF), every position encoding",
  "Unit tests apply one or two hand-written edits to one document in UTF-16/UTF-8; no test runs a history, edits that depend on one another, or several documents.",
  [L+"document.rs", L+"session.rs", L+"server.rs"],
  [("incremental edit application", L+"document.rs apply_changes"), ("position to offset conversion", L+"document.rs position_to_offset"), ("document table", L+"session.rs open/update/close_document")],
  ["published diagnostics and code action edits after each save", "document and session API under the same history"],
  [("documents", "text, version and line table of every open document", L+"session.rs Session.documents"), ("line_starts", "line table that must match the text after every change, also a failed one", L+"document.rs TextDocument.line_starts")])
p("C02", "Every position the server sends uses the negotiated encoding and marks its text",
  "For each negotiated position encoding (UTF-8, UTF-16, UTF-32), every range in published diagnostics and every code-action edit denotes the flagged text of the document version it was computed from. Applying an edit the server offered, as a conforming client would, produces the text the corresponding command-line operation produces, and never changes bytes outside the construct it names.",
  ["inputs", "histories", "schedules"],
  "every document text (ASCII, combining, non-BMP, CRLF, empty and unterminated last lines, R and Rmd), every encoding offer of the client, every version history before the request",
  "Tests check ASCII snippets in UTF-8 and a few UTF-16 columns; the edit paths for suppression comments are never run with another encoding.",
  [L+"document.rs", L+"lint.rs", L+"server.rs", L+"session.rs"],
  [("offset to position conversion", L+"lint.rs byte_offset_to_lsp_position"), ("encoding negotiation", L+"session.rs negotiate_position_encoding"), ("code action edits", L+"server.rs diagnostic_to_*_action")],
  ["textDocument/publishDiagnostics", "textDocument/codeAction responses"])
p("C03", "Every request gets exactly one response with its id; notifications get none",
  "Whatever the client sends after initialization - known, unknown or malformed requests, requests about unknown documents, requests racing with edits, closes or each other - every request is answered exactly once, under its own id, with a result or an error of the right kind (method not found for unknown methods). No response is ever sent for a notification or for an id that was not asked.",
  ["histories", "schedules", "inputs"],
  "every interleaving of reader, main loop, workers and writer, every mix of requests (string and integer ids, well-formed and malformed parameters), every worker count",
  "Tests call the handler functions directly; none drives requests through the message loop, with several workers or with malformed parameters.",
  [L+"server.rs", L+"client.rs", L+"lint.rs"],
  [("request dispatch", L+"server.rs handle_request"), ("worker answering code actions", L+"server.rs handle_code_action_request"), ("response construction", L+"client.rs send_response, send_error_response")],
  ["JSON-RPC stream on stdout"])
p("C04", "Published diagnostics never go back in time and end up describing the last save",
  "For each document the versions of published diagnostics never decrease, and once traffic stops the last published set is the one for the text at the last save. After a document is closed its published set becomes and stays empty until it is opened and saved again, however the background work is scheduled.",
  ["schedules", "histories"],
  "every interleaving of saves, edits, closes and reopens with any number of lint workers running at any relative speed",
  "No test runs two lint tasks at once; the order in which workers publish depends on scheduling that no test controls.",
  [L+"server.rs", L+"client.rs", L+"session.rs"],
  [("lint task hand-over to workers", L+"server.rs DidSave handling, worker_thread"), ("publication", L+"server.rs handle_lint_task"), ("clearing on close", L+"server.rs DidClose handling")],
  ["textDocument/publishDiagnostics order and content"])
p("C05", "An answer depends only on its document, at the version it was asked for",
  "The diagnostics and code actions for a document are a function of that document's text at the moment of the save or request, of the project files on disk and of the configuration. Other open documents, later edits, worker count, scheduling and earlier history of the session never show in them.",
  ["schedules", "histories", "configurations"],
  "all interleavings of requests, edits and saves over several documents (including equal base names, different directories and projects), all worker counts",
  "Tests lint one document with one thread; state leaking between documents or versions needs concurrent histories to show.",
  [L+"server.rs", L+"session.rs", L+"lint.rs"],
  [("immutable snapshots", L+"session.rs take_snapshot"), ("per-call settings and analysis", L+"lint.rs run_jarl_linting")],
  ["difference between a concurrent session and a fresh single-request session"])
p("C06", "The server keeps serving: no input, failure or slow client stops it for good",
  "No document content, lint failure, unreadable file or configuration, burst of traffic or temporarily stalled client stops the server or one of its workers permanently. Once the client reads again and faults stop, every pending request is answered and every last save is published within a bounded number of steps.",
  ["fault_sequences", "schedules", "histories", "inputs"],
  "every burst length, every stall of the client's reading side, every failing read of project files or configuration, every document including unparsable ones and ones with odd edits",
  "Tests never fill the bounded queues, never stall a pipe and never inject an I/O error.",
  [L+"server.rs", L+"session.rs", L+"lint.rs", L+"document.rs"],
  [("bounded task channel and worker pool", L+"server.rs run, worker_thread"), ("error logging instead of propagation", L+"server.rs main_loop")],
  ["responses and publications after the stall or fault ends"])
p("C07", "The session lifecycle ends cleanly: initialize, shutdown, exit, end of input",
  "Every request received before shutdown is answered, shutdown is answered once, and after exit or end of input the process ends within a bounded number of steps. When an exit notification ends the session, the exit status is success exactly when shutdown preceded it. Nothing that was sent before the end is lost or cut in the middle of a message.",
  ["schedules", "histories", "fault_sequences"],
  "every interleaving of shutdown/exit/end of input with pending work, reader and writer threads; messages after shutdown; exit without shutdown; end of input at any byte",
  "No test runs the server's main loop, let alone its termination.",
  [L+"server.rs", L+"lib.rs", J+"commands/server.rs", J+"main.rs"],
  [("shutdown flag and loop exit", L+"server.rs main_loop, handle_request, handle_notification"), ("joining I/O threads", L+"lib.rs run")],
  ["process exit status", "bytes on stdout up to the end"])
p("C08", "The server's standard output carries only whole, well-formed protocol messages",
  "Whatever the scheduling, log level, document contents, or sizes in which pipes accept and deliver bytes, the server's standard output is a sequence of complete, correctly framed JSON-RPC messages and nothing else. Input arriving in arbitrarily small or large pieces is understood the same.",
  ["schedules", "fault_sequences", "inputs"],
  "every fragmentation of input and output (short reads and writes, interrupted calls), every log level and worker interleaving",
  "No test looks at the byte stream of a running server.",
  [L+"server.rs", L+"client.rs", L+"lib.rs", J+"logging.rs", J+"commands/server.rs"],
  [("single writer thread", L+"lib.rs run (lsp_server stdio)"), ("logging to stderr", J+"logging.rs")],
  ["raw bytes on stdout"])
p("C09", "The language server never modifies the file system",
  "Serving any session - opening, editing, saving, linting, computing fixes and suppressions - creates, changes, renames or removes no file. Changes reach the user only as edits offered to the client.",
  ["histories", "fault_sequences", "schedules"],
  "every session history, with fixable and unfixable code, project configuration that allows fixes, and I/O errors",
  "Tests check returned values only; none observes the file system around a session.",
  [L+"lint.rs", L+"server.rs", L+"session.rs"],
  [("lint on in-memory content with fixing off", L+"lint.rs run_jarl_linting")],
  ["every file-system call the process makes"])
p("C10", "Client bookkeeping: unique ids, replies matched once, notices once a session",
  "Requests the server side sends to the client carry ids that are never reused, whichever threads send them; a reply settles exactly the request it names and nothing else, an unknown or repeated reply is harmless, and requests older than the timeout - and only those - are forgotten on clean-up. Each session-wide notice (the unused-function one, the configuration one) is shown at most once.",
  ["schedules", "histories"],
  "all interleavings of sending, replying and cleaning up from several threads sharing one client handle, any simulated passage of time, any number of workers that find the notice due at the same moment",
  "Two tests create a client and send one message from one thread.",
  [L+"client.rs", L+"session.rs", L+"server.rs"],
  [("id counter and pending table", L+"client.rs next_request_id, send_request, handle_response, cleanup_pending_requests"), ("once-only flag", L+"client.rs notify_unused_fn_threshold_once"), ("config notice flag", L+"session.rs check_and_notify_config")],
  ["messages on the channel", "log records of settled, unknown and expired requests"],
  [("pending_requests", "requests awaiting a reply", L+"client.rs")])
p("C11", "Diagnostics in the editor follow the configuration on disk at each save",
  "Each save or code-action request is evaluated under the project configuration present on disk at that moment, so changing, adding, removing or repairing a configuration file takes effect at the next save without restarting the server. While a configuration is unreadable or invalid the server keeps running and serves again as soon as it is repaired.",
  ["histories", "fault_sequences", "configurations"],
  "all histories mixing edits of configuration files with saves and requests, including invalid and unreadable configuration for a while",
  "Tests create one configuration before one lint call.",
  [L+"lint.rs", C+"discovery.rs", C+"toml.rs", C+"config.rs"],
  [("settings discovered on every lint", L+"lint.rs run_jarl_linting"), ("configuration search", C+"discovery.rs discover_settings")],
  ["published diagnostics after each configuration change"])
p("C12", "Editor and command line report the same findings for the same file and project",
  "For a saved document whose file the command line would check, the language server's diagnostics are the same findings (rule, place, message) that the command line reports for that file in that project, including exclusions and the hiding of unused-function findings above the threshold.",
  ["inputs", "configurations", "schedules"],
  "all file contents, file names and places in a project, all configurations (nearest configuration, exclude, include, select, ignore, rule options, thresholds), all schedules of both programs",
  "Command-line and server tests are separate suites with separate examples; nothing compares them.",
  [L+"lint.rs", L+"utils.rs", J+"commands/check.rs", C+"check.rs", C+"discovery.rs"],
  [("shared lint core", C+"check.rs get_checks"), ("server-side exclusion", L+"utils.rs should_exclude_file_based_on_settings")],
  ["JSON output of check versus published diagnostics"])
# ---------------------------------------------------------------- command line
p("C20", "Fixing is atomic per file: after a crash or error a file is old or new, whole",
  "If a fixing run is killed, loses power or hits any I/O error at any point, every source file on disk holds either its complete previous content or complete fixed content, and keeps its permissions. It is never empty, truncated, mixed or missing, and no stray temporary file survives a failure that the process lived through.",
  ["crash_points", "fault_sequences", "schedules"],
  "a crash before or after every file-system operation and inside every write, every single or double I/O error (disk full, short write, EIO, interrupted call, failed open, failed rename), any thread schedule",
  "Tests run fixes on a healthy disk to completion; no test interrupts one.",
  [C+"check.rs", C+"fix.rs", J+"commands/check.rs"],
  [("writing back fixed text", C+"check.rs lint_fix")],
  ["simulated disk after each crash point"])
p("C21", "Fixing terminates, and re-running after an interruption reaches the same result",
  "A fixing run always terminates. Re-running it after a crash, kill or transient error, until it changes nothing, yields exactly the files an uninterrupted run (also repeated until it changes nothing) yields, and from then on further runs write nothing new.",
  ["crash_points", "fault_sequences", "histories", "inputs"],
  "all interruption points in one or several consecutive runs, overlapping and nested fixes that need several passes, all schedules",
  "Tests run each fix once on a few lines.",
  [C+"check.rs", C+"fix.rs"],
  [("repeat while fixes were skipped", C+"check.rs lint_fix"), ("skip overlapping fixes", C+"fix.rs apply_fixes")],
  ["final disk content of interrupted and uninterrupted histories"])
p("C22", "Only files that the run is asked to fix, and that have fixes, are ever written",
  "A run without fixing writes nothing. A fixing run changes only selected R files that contain an enabled, fixable violation outside of suppressions, and never an excluded file, an R Markdown or Quarto document, a file with syntax errors, or anything reached through another project's files.",
  ["configurations", "histories", "fault_sequences"],
  "all command lines, configurations (exclude, include, fixable, unfixable, select, ignore), file trees and I/O errors",
  "Tests look at the one file they expect to change.",
  [C+"check.rs", C+"fix.rs", C+"discovery.rs", C+"config.rs", J+"commands/check.rs"],
  [("fix switch", C+"check.rs check_path"), ("fixable and unfixable filters", C+"check.rs get_checks"), ("file selection", C+"discovery.rs discover_r_file_paths")],
  ["every file-system write the process makes"])
p("C23", "Fixes change exactly the flagged constructs and keep every other byte",
  "When fixes are applied, in whatever number of passes and however they overlap, each change replaces a flagged construct by its documented replacement and every other byte of the file - comments, spacing, line endings, non-ASCII text, suppressed code, the rest of the line - is preserved. The result still parses.",
  ["inputs", "histories", "schedules"],
  "all files mixing several fixable violations, nesting, non-ASCII text, CRLF and suppressions, all sets of enabled rules, all pass structures",
  "Tests fix short ASCII snippets with one rule at a time; interactions of several fixes in one file with multi-byte text are not covered.",
  [C+"fix.rs", C+"check.rs", C+"diagnostic.rs"],
  [("offset bookkeeping across fixes", C+"fix.rs apply_fixes")],
  ["file content after fixing, against a model of the expected replacement"])
p("C24", "An I/O failure on one file is reported and never disturbs the others",
  "If reading, parsing or writing one file fails, or a directory cannot be listed, the run says so for that path on its output, ends with the error status, and reports and fixes all other files exactly as if the failing one had not been given. A failure is never silently presented as a clean result.",
  ["fault_sequences", "schedules", "inputs"],
  "every assignment of I/O errors (permission, EIO, vanished file, disk full, invalid UTF-8) to the files and directories of a run, every schedule, every output format",
  "Tests cover one syntax error and one missing file; no test makes a read, a listing or a write fail.",
  [C+"check.rs", C+"discovery.rs", J+"commands/check.rs", J+"output_format.rs"],
  [("per-file results", C+"check.rs check"), ("error list in the output", J+"commands/check.rs check"), ("walk errors", C+"discovery.rs FilesVisitor")],
  ["stdout, stderr, exit status, file contents"])
p("C25", "Same input, same output: no effect of threads, hash seeds or directory order",
  "For the same files, configuration and command line, the bytes on standard output and standard error, the exit status and the resulting files are identical on every run, whatever the number of threads, their scheduling, hash seeds and the order in which the file system lists directories.",
  ["schedules", "configurations"],
  "all schedules of directory walk and lint threads, all thread counts, hash seeds and directory orders; all output formats, statistics, fix and suppression modes, multi-configuration trees with errors",
  "Snapshot tests run small inputs on one machine and sort some output by hand; they cannot vary scheduling, hash seeds or directory order.",
  [J+"commands/check.rs", J+"output_format.rs", J+"statistics.rs", C+"check.rs", C+"discovery.rs", C+"package.rs", C+"suppression.rs", C+"vcs.rs"],
  [("global sort of diagnostics", J+"commands/check.rs check"), ("ordered parallel collection", C+"check.rs check"), ("parallel walk", C+"discovery.rs discover_r_file_paths")],
  ["stdout, stderr, exit status and file tree across runs"])
p("C26", "What is found in a file does not depend on which other files are checked with it",
  "For rules that look at one file, the findings and fixes for a file are the same whether it is checked alone, with any other files, from a parent directory, twice, or through overlapping arguments; each selected file is processed once and reported once. Package-wide findings depend only on the package's own files.",
  ["configurations", "schedules", "inputs"],
  "all partitions and overlaps of the command-line arguments, all sets of companion files, all schedules",
  "Tests check fixed sets of files once.",
  [C+"check.rs", C+"discovery.rs", C+"package.rs", J+"commands/check.rs"],
  [("independent per-file checks", C+"check.rs check_path"), ("path collection", C+"discovery.rs discover_r_file_paths")],
  ["JSON output and files of partitioned and whole runs"])
p("C27", "Nothing is fixed unless version control covers it and is clean, or flags allow",
  "A fixing run modifies no file at all when some selected file is outside version control (unless explicitly allowed) or when a covering repository has uncommitted changes (unless explicitly allowed), and says why. A failure to determine the state counts as not clean, and the run's own earlier changes in the same invocation never count as dirt.",
  ["configurations", "fault_sequences", "histories"],
  "all layouts of repositories, sub-projects and files outside them, all dirty states, all failures of the state query, all flag combinations, all processing orders",
  "Tests use one repository and one project configuration at a time.",
  [C+"vcs.rs", C+"check.rs", J+"commands/check.rs"],
  [("gate before fixing", C+"check.rs check"), ("repository discovery and status", C+"vcs.rs check_version_control")],
  ["file writes", "exit status and message"])
p("C28", "The exit status tells the truth, also when output cannot be delivered",
  "The exit status is success only if every selected file was checked, no violation is left to report (or none was asked for) and the report was delivered; it is failure when violations remain and error when anything went wrong. A closed, full or failing standard output never turns into success with findings lost, and never corrupts source files.",
  ["fault_sequences", "inputs", "configurations"],
  "all mixes of clean, violating and failing files, all output formats and modes, standard output or error closed, full or failing at any byte",
  "Tests read complete output through healthy pipes.",
  [J+"main.rs", J+"status.rs", J+"commands/check.rs", J+"output_format.rs", J+"statistics.rs"],
  [("status computation", J+"commands/check.rs check"), ("status to exit code", J+"status.rs")],
  ["process exit status against the set of findings and delivered bytes"])
p("C29", "Adding suppression comments is atomic and changes nothing but comment lines",
  "Adding suppressions only inserts comment lines (nothing else in any file changes), leaves every file whole under crashes and I/O errors, and reports files it could not update. Once it has completed, a check reports none of the findings it suppressed, and repeating it after an interruption reaches the same suppressed state without duplicating comments.",
  ["crash_points", "fault_sequences", "inputs", "histories"],
  "all files (R and Rmd) and findings, all crash points and I/O errors, all repetitions",
  "Tests add suppressions once on a healthy disk.",
  [J+"commands/check.rs", C+"suppression_edit.rs", C+"suppression.rs"],
  [("insertion points and merging", J+"commands/check.rs add_jarl_ignore_comments"), ("comment placement", C+"suppression_edit.rs")],
  ["simulated disk, exit status, following check run"])
p("C30", "A run with an invalid or unreadable configuration fails before changing files",
  "If any configuration that applies to a selected file, or any option, is invalid or cannot be read, the run ends with the error status and names the problem, and no file has been modified. It never continues with defaults in place of a configuration that exists.",
  ["configurations", "fault_sequences", "schedules"],
  "all trees with several configurations of which any subset is invalid or unreadable, all option errors, all processing orders",
  "Tests use a single invalid configuration without fixing.",
  [J+"commands/check.rs", C+"config.rs", C+"toml.rs", C+"discovery.rs"],
  [("configuration discovery and parsing", C+"discovery.rs, "+C+"toml.rs"), ("rule resolution", C+"config.rs build_config")],
  ["exit status, message, file writes"])
p("C31", "Concurrent changes to the tree never crash a run or corrupt its report",
  "If files or directories appear, vanish or change while a check is running, the run still terminates with a defined status: each file is reported as of one content it really had during the run or as an error, and no unrelated file is affected.",
  ["schedules", "fault_sequences", "histories"],
  "another process creating, deleting, renaming or rewriting files and directories at any point between any two file-system operations of the run",
  "Tests run on a quiet tree.",
  [C+"discovery.rs", C+"check.rs", C+"package.rs", J+"output_format.rs"],
  [("read once, check in memory", C+"check.rs lint_only"), ("per-file error results", C+"check.rs check")],
  ["stdout, stderr, exit status against the set of contents each file had"])
# ---------------------------------------------------------------- pure functions (not applicable to this family)
p("C50", "R chunks of R Markdown and Quarto documents are located byte-exactly",
  "For every document, the extracted R chunks are exactly the R code blocks of the document and each chunk's text is the document's text at the reported offset.",
  ["inputs"], "all documents: fences of any length and indentation, options, nested and unterminated fences, CRLF, non-ASCII text",
  "Fifteen examples.", [C+"rmd/extraction.rs", C+"rmd/mod.rs"], [("chunk scanner", C+"rmd/extraction.rs")], ["extract_r_chunks"])
p("C51", "Suppression comments are understood exactly as documented",
  "A comment is a suppression directive exactly when it has the documented form, and it suppresses exactly the documented rule in the documented scope.",
  ["inputs"], "all comments and placements", "Example snippets only.", [C+"directive.rs", C+"suppression.rs"],
  [("directive parser", C+"directive.rs"), ("scope computation", C+"suppression.rs")], ["diagnostics of a file"])
p("C52", "The R version requirement in DESCRIPTION is read as R reads it",
  "The minimum R version used for version-dependent rules is the one DESCRIPTION declares, for every layout of the file that R accepts.",
  ["inputs"], "all DESCRIPTION files", "Six examples.", [C+"description.rs"], [("field parser", C+"description.rs")], ["rules enabled"])
p("C53", "Rule selection follows the documented algebra of select, extend and ignore",
  "The set of active rules is the documented function of defaults, select, extend-select, ignore, fixable, unfixable, groups and minimum R version from command line and configuration.",
  ["inputs", "configurations"], "all combinations of options", "A sample of combinations.", [C+"config.rs", C+"rule_set.rs"], [("rule table", C+"rule_set.rs")], ["findings"])
p("C54", "Each lint rule flags what it documents and its fix preserves meaning",
  "For each rule, code is flagged exactly when it matches the documented pattern, and a safe fix does not change what the code computes.",
  ["programs"], "all R programs", "A few dozen snippets per rule.", [C+"lints/", C+"analyze/"], [("rule implementations", C+"lints/")], ["findings and fixes"])
p("C55", "A file is governed by its nearest configuration, resolved as documented",
  "Each file is checked under the nearest configuration above it, falling back to the user configuration and then defaults, with paths and patterns relative to that configuration.",
  ["configurations"], "all directory layouts", "A sample of layouts.", [C+"discovery.rs", C+"toml.rs", C+"settings.rs"], [("search order", C+"discovery.rs")], ["findings"])
out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for d in P: f.write(json.dumps(d, ensure_ascii=True) + "\n")
print(len(P))
