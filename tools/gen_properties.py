"""Regenerates /verif/properties.jsonl (one place to edit the property texts)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, state=(), observe=()):
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text),
        why_tests_cant=why, anchors=dict(files=files,
        state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
        mechanism=[dict(name=a, where=b) for a, b in mech], observe_at=list(observe), hook_needed=None)))

B = "pieshell/pipeline/"
p("C01", "Every way a child can terminate marks it finished, with its true outcome",
  "Whenever a process started by a pipeline terminates, by exiting with any status or by being killed by any signal (with or without a core dump), it is reported as no longer running, and as failed exactly when its exit status was non-zero or a signal killed it. Being stopped or continued never counts as termination. Until it terminates it is reported as running.",
  ["histories", "inputs"], "every wait status the kernel can deliver, in any order, for any child",
  "The tests only run children that exit normally with status 0 or 1; a killed, dumped, stopped or continued child is never produced.",
  ["pieshell/signalio/signalutils.py", "pieshell/signalio/__init__.py", B+"running.py"],
  [("status decoding", "signalio/signalutils.py:get_sigchlds"), ("terminal event test", "signalio/__init__.py:ProcessSignalHandler.handle_event"), ("outcome", "pipeline/running.py:RunningProcess.is_failed/exit_code")],
  [("last_event", "last status event of the child", "ProcessSignalHandler"), ("done_future", "resolved once the child terminated", "ProcessSignalHandler")],
  ["RunningItem.is_running / is_failed / exit_code"])
p("C02", "No child-status change or handled signal is lost or misdelivered",
  "However many children change state between two wake-ups of the event loop, all of them are reaped without blocking, and each change is delivered to the handler registered for exactly that process. Any other signal the shell listens for is delivered, with its own number, to the handlers registered for it. Both hold for both signal backends and also while handlers unregister themselves during delivery.",
  ["schedules", "histories", "configurations"], "every coalescing of SIGCHLD, every set of registered handlers, both backends",
  "Coalesced SIGCHLD depends on timing the tests do not control, and only the signalfd backend is ever executed by them.",
  ["pieshell/signalio/signalutils.py", "pieshell/signalio/manager_signalfd.py", "pieshell/signalio/manager_asyncio.py"],
  [("reap loop", "signalutils.get_sigchlds"), ("dispatch", "SignalManager.handle_event/match_signal/register/deregister (both managers)")],
  [("signal_handlers", "handlers by filter", "SignalManager")], ["SignalHandler.handle_event"])
p("C03", "A forked child never returns into its caller's code",
  "Once a process has been forked for a command or a subshell, the child either becomes the requested program or terminates: whatever fails or is raised in it, it never returns into, or unwinds through, the code that started the pipeline. When it ends because it could not do what was requested, or because the pipeline a subshell ran failed, its exit status is non-zero; a subshell whose pipeline succeeded exits with status zero.",
  ["fault_sequences", "inputs"], "every exception at every call made in the child",
  "Tests never make a launch step in the child fail with anything but a missing file, and never look at what a failed child executes afterwards.",
  [B+"command.py", B+"builtins.py"],
  [("fork guard", "command.py:Command._run"), ("child bodies", "command.py:Command._child, builtins.py:SubShell._child")])
p("C04", "A program runs only in exactly the context that was asked for",
  "A program is executed only after every one of its redirections and the change to its environment's working directory have succeeded; if any of these fails it is not executed at all. It is executed with its environment's variables, with the complete argument list in order, and the program looked up is the first of those arguments.",
  ["fault_sequences", "inputs", "configurations"], "every failing redirection or directory, every environment and argument list",
  "Tests use only redirections that succeed; a swallowed failure in the child is invisible to them.",
  [B+"command.py", "pieshell/redir.py"],
  [("child set-up", "command.py:Command._child"), ("applying redirections", "redir.py:Redirects.perform, Redirect.perform")])
p("C05", "A program sees its redirected descriptors and nothing else of the shell's",
  "In a launched program each redirected descriptor number refers to the source named for it, even when several redirections share one source or when the sources are themselves descriptor numbers being redirected. No other descriptor that the shell has open remains open in the program.",
  ["inputs", "configurations"], "every set of redirections, including aliased and permuted descriptor numbers, and every set of descriptors open in the shell",
  "Tests redirect at most one descriptor per command and never list the descriptors a child ends up with.",
  ["pieshell/redir.py", "pieshell/log.py", "pieshell/utils/pipe.py"],
  [("two-phase duplication", "redir.py:Redirects.move_existing_fds/perform"), ("closing the rest", "redir.py:Redirects.close_other_fds"), ("free numbers", "redir.py:Redirects.find_free_fd"), ("log descriptor", "log.py"), ("close-on-exec pipes", "utils/pipe.py")])
p("C06", "After launch the shell keeps no stage descriptors and closes none it was lent",
  "Once a pipeline has been launched, every descriptor the shell created for the stages' sides of its pipes, files and captures has been closed in the shell exactly once, whatever the pipeline's structure, so a reader sees end-of-file as soon as the last writing stage is done. Descriptors that were lent to a pipeline (the shell's own standard streams, a descriptor number the user redirected to, the parent pipeline's descriptors) are never closed by it.",
  ["programs", "histories"], "every pipeline expression, successfully launched, any number of times",
  "A leaked or doubly closed descriptor only shows in particular combinations of stages, as a hang or an unrelated EBADF; the tests run a handful of two- and three-stage pipelines.",
  ["pieshell/redir.py"] + [B+f for f in ("base.py", "command.py", "function.py", "group.py", "pipe.py", "redirect.py")],
  [("lending", "redir.py:Redirect.borrow, Redirects.borrow; callers in pipe.py, group.py, command.py, base.py"), ("closing", "redir.py:Redirect.close_source_fd, Redirects.close_source_fds")],
  [("borrowed", "descriptor belongs to someone else", "Redirect")])
p("C07", "Stages are connected exactly as the pipeline is written",
  "In `a | b` what a writes to its standard output, and only that, is what b reads from its standard input, while every other redirection applies to both; in `a + b` both share the pipeline's descriptors. A pipeline or iterator used as an argument can be read, and a function used as an argument can be written to, at the file name the command receives for it. Iterating over a pipeline or converting it to text or bytes reads the standard output of the pipeline as a whole, and all processes of all its parts belong to the running pipeline.",
  ["programs"], "every nesting of pipes, groups, redirections and argument pipes",
  "Tests cover a few fixed shapes; the group test is disabled.",
  [B+f for f in ("pipe.py", "group.py", "redirect.py", "command.py", "function.py", "running.py", "base.py", "builtins.py")] + ["pieshell/redir.py"],
  [("composition", "Pipe._run, Group._run, CmdRedirect._run, Command._handle_arg_pipes, Function._run"), ("pipe ends", "redir.py:Redirect.make_pipe"), ("reading", "running.py:RunningPipeline.__aiter__/iterbytes")])
p("C08", "Everyone waiting for a pipeline wakes when it finishes or is suspended",
  "Whenever the last stage of a pipeline finishes, in whatever order its stages finish and whether they succeed, fail, are killed or raise, every task waiting for that pipeline resumes; any number of tasks may wait at once, and waits started before, during or after the finish all return. Waiting for a pipeline brought to the foreground ends when that pipeline finishes, fails or is suspended.",
  ["schedules", "histories", "fault_sequences"], "every completion order, every number of waiters, every way a stage ends",
  "A lost wake-up is a hang in a particular order of completions; the tests always have one waiter and well-behaved last stages.",
  [B+"running.py", B+"builtins.py", "pieshell/iterio.py", "pieshell/signalio/__init__.py"],
  [("completion tasks", "running.py:RunningItem.await_finish, builtins.py:RunnningFg.await_finish"), ("wake-up", "running.py:RunningPipeline.handle_finish, StopSignalHandler.handle_event"), ("wait loop", "running.py:RunningPipeline.wait")],
  [("finish_future", "what waiters sleep on", "RunningPipeline")])
p("C09", "A pipeline with a failed stage is never reported as success",
  "Waiting for, awaiting, running interactively, iterating to the end of, or converting a pipeline raises a pipeline error naming that pipeline whenever any of its stages failed, be it a program or a Python function; it returns normally only if all stages have finished and none failed. A Python stage has failed exactly if it raised or its output could not be written. All output produced before the failure is delivered to the reader first.",
  ["histories", "fault_sequences", "programs"], "every pipeline, every subset of failing stages",
  "One test has one failing program; failing functions, failing non-last stages and the text/bytes conversions are not exercised.",
  [B+"running.py", B+"base.py", "pieshell/iterio.py"],
  [("verdict", "running.py:RunningPipeline.wait/failed_processes, RunningFunction.is_failed, RunningProcess.is_failed"), ("end-of-stream check", "running.py:RunningPipeline.__aiter__/iterbytes, iterio.py:InputHandler/LineInputHandler.__anext__"), ("recording", "iterio.py:OutputHandler.send_output/destroy")])
p("C10", "A stream handler's descriptor is watched while open and untouched once closed",
  "A stream handler closes its descriptor at most once, never before it has stopped watching it, and never if it was lent. Once a handler is closed no code path reads from, writes to or watches that descriptor number again, even for work that was already queued.",
  ["schedules", "histories"], "every interleaving of readiness events, pending tasks, end-of-file and errors",
  "The damage (I/O on a reused descriptor number, a watched closed descriptor) needs a specific interleaving of queued callbacks.",
  ["pieshell/iterio.py"],
  [("life cycle", "IOHandler.enable/disable/destroy"), ("use", "OutputHandler.send_output, LineOutputHandler.send_output, InputHandler.handle_event, LineInputHandler.handle_event")],
  [("destroyed/enabled/borrowed", "life-cycle state", "IOHandler")])
p("C11", "Items cross between Python and programs as one line each, in order",
  "Each item a Python stage produces arrives as exactly one line (text encoded as UTF-8, bytes as they are, other values by their text form, None producing nothing), and each line a program writes arrives as exactly one item without its newline, an unterminated last line included. Nothing is lost, duplicated, merged or reordered, however output is split into reads and writes and however slowly an asynchronous source yields.",
  ["schedules", "inputs"], "every item sequence, every chunking by the kernel, every timing of asynchronous sources",
  "Tests use a few short items; chunk boundaries inside lines, overlapping readiness events and unterminated last lines are not reached.",
  ["pieshell/iterio.py", B+"function.py", "pieshell/utils/asyncutils.py"],
  [("writing", "iterio.py:LineOutputHandler.send_output/OutputHandler.send_output"), ("reading", "iterio.py:InputHandler, LineInputHandler"), ("conversion", "function.py:Function._run.convert"), ("adapters", "utils/asyncutils.py")],
  [("recursion_lock", "one item in flight", "OutputHandler"), ("buffer", "unconsumed input", "InputHandler")])
p("C12", "Feeding a stage never blocks the event loop",
  "However large an item is, handing it to a stage writes to the descriptor only when it is ready and only an amount that a ready pipe accepts without blocking, keeping the rest for the next readiness, so that a pipeline both fed from and read by Python cannot deadlock on the size of its items. Reading is likewise only done when input is ready, and status collection never waits.",
  ["inputs", "schedules"], "items of every size, every pipe fill level",
  "Tests use items far smaller than a pipe buffer.",
  ["pieshell/iterio.py", "pieshell/signalio/signalutils.py"],
  [("bounded writes", "iterio.py:OutputHandler.send_output, LineOutputHandler.send_output"), ("non-blocking reap", "signalutils.get_sigchlds")])
p("C13", "Arguments reach the program literally apart from the documented expansion",
  "A program's argument list consists of the given arguments in order, each expanded exactly once (variables, then home directory, then file name patterns, a pattern without matches standing for itself) unless protected with R(), in which case it is passed unchanged; file names matched by a relative pattern never start with anything but './' or '/'. Named arguments become --name=value with underscores as dashes, True giving just --name and False nothing. No shell ever interprets a command line.",
  ["inputs"], "every argument value, directory content and environment",
  "The tests expand one pattern; everything else about arguments is only exercised with plain words.",
  ["pieshell/environ.py", B+"command.py"],
  [("expansion", "environ.py:Environment._expand_argument, R"), ("argument list", "command.py:BaseCommand._arg_list/__call__/__getattr__/__sub__/__neg__"), ("no shell", "whole package")])
p("C14", "Values placed in shell or command-line text are always quoted for it",
  "Where text has to be handed to another interpreter (the names of scripts sourced by bash, a command line given to bash for completion, a pickled pipeline on a remote command line), every value inserted into that text is quoted or encoded so that it is taken as a single literal word whatever characters it contains.",
  ["inputs"], "every script name, every argument, every pipeline",
  "Only one plain script name is ever sourced in the tests, and remote execution is not tested.",
  [B+"builtins.py"], [("bashsource command line", "builtins.py:BashSource._run"), ("remote command line", "builtins.py:Remote._run"), ("completion line", "command.py:BaseCommand._arg_list_sh")])
p("C15", "Environments derived from another do not share mutable state with it",
  "Changing the directory, the exported variables or the default redirections of one environment never changes those of another, whether derived from it or it from the other; a derived environment starts with its parent's settings except the ones overridden, an override being honoured even if it is empty. Only the initial environment writes to the process's own environment variables.",
  ["histories", "configurations"], "every sequence of derivations and modifications",
  "The tests derive environments once and never look back at the parent.",
  ["pieshell/environ.py", "pieshell/module.py"],
  [("derivation", "environ.py:Environment.__call__/__init__/_exports"), ("module environments", "module.py:Loader.load_module")])
p("C16", "cd is all or nothing and moves the process only in interactive environments",
  "Changing an environment's directory either succeeds completely or raises and leaves both the environment's directory and the process's working directory as they were. A non-interactive environment never changes the working directory of the shell process; an interactive one changes it to the very same directory; commands always run in their own environment's directory.",
  ["inputs", "fault_sequences", "configurations"], "every path (missing, not a directory, not permitted), every environment",
  "Tests only change to an existing directory in an environment and never observe a failing change.",
  ["pieshell/environ.py", B+"command.py", B+"builtins.py"],
  [("cd", "environ.py:Environment._cd"), ("chdir confined to children", "command.py:Command._child, builtins.py:SubShell._child")])
p("C17", "Names in shell code resolve and assign in the documented order",
  "In shell code a name denotes, in this order, a variable of that scope, `exports`, an exported environment variable, a variable of the enclosing scope, a Python builtin, and otherwise a command; `_` always denotes the root command. Assigning to the name of an exported variable updates that export and nothing else; assigning any other name sets a variable and exports nothing. Variable expansion in arguments sees the names of the scope whose `env` the environment is, and the exported variables where it is no scope's.",
  ["inputs", "histories"], "every name, every content of scope, exports and builtins",
  "Tests look up three names; precedence between the sources is never tested.",
  ["pieshell/environ.py", "pieshell/module.py"],
  [("lookup/assignment", "environ.py:EnvScope.__getitem__/__setitem__"), ("scope binding", "environ.py:EnvScope.__setitem__, module.py:Loader.load_module")])
p("C18", "Composing, calling or running a pipeline never changes it",
  "Every operation that builds a pipeline from others (calling, attribute access, `|`, `+`, redirections, subtraction) yields a new pipeline and leaves its operands as they were, and running, iterating or converting a pipeline works on a copy. The same pipeline object can therefore be used in several places and run any number of times, also concurrently, with the same meaning each time.",
  ["histories", "programs"], "every sequence of compositions and runs of shared pipeline objects",
  "Tests build and run each pipeline once.",
  [B+f for f in ("base.py", "command.py", "pipe.py", "group.py", "redirect.py", "function.py")],
  [("constructors/operators", "BaseCommand.__call__/__getattr__/__sub__/__neg__, Pipeline.__or__/__ror__/__add__/..."), ("copy on run", "Pipeline.run, utils/copy.py")])
p("C19", "A copied pipeline has every part of the original and shares no containers",
  "The copy made of a pipeline when it is run has the same kind, environment, commands, arguments, options and redirections (descriptor, source, flag, mode, pipe and ownership) as the original at every level of nesting. Containers and pipelines inside it are copies of their own, so that two occurrences of the same pipeline object in an expression run as independent stages.",
  ["programs"], "every pipeline expression",
  "Tests copy few pipeline kinds and never compare a copy with its original.",
  ["pieshell/utils/copy.py", "pieshell/redir.py"] + [B+f for f in ("base.py", "command.py", "pipe.py", "group.py", "redirect.py", "function.py")],
  [("per-class copying", "__deepcopy__ of every pipeline class and of Redirect; Redirect.__init__ copy form"), ("engine", "utils/copy.py:deepcopy/copy_session")])
p("C20", "Temporarily changed global state is restored on every exit",
  "State that an operation changes for its duration (display nesting, display environment, copy session, temporary environment, prompt, completion search path, foreground pipeline) has its previous value again when the operation ends, however it ends, and nested operations restore to the value of the operation around them.",
  ["fault_sequences", "histories"], "every exception at every point inside such an operation, every nesting",
  "Tests do not raise inside these operations.",
  [B+"base.py", "pieshell/utils/copy.py", "pieshell/environ.py", "pieshell/jedi_completion.py", B+"running.py"],
  [("display", "base.py:pipeline_repr, Pipeline.__repr__/__name__"), ("copy session", "utils/copy.py:copy_session"), ("temporary_env / prompt", "environ.py:Environment.temporary_env, EnvScope.__enter__/__exit__"), ("completion", "jedi_completion.py:JediRL.complete"), ("foreground", "running.py:RunningPipeline.wait")])
p("C21", "Captured output is complete, never blocks completion, and is cleaned up",
  "When a pipeline finishes, everything its stages wrote to a STRING redirection, whatever bytes it contains, is available per process and descriptor, all captures being read before any is deleted, and every STRING capture file is deleted. TMP files stay until they are removed on request, which removes exactly them. Reading or deleting captures happens only after every stage has finished, and exactly once.",
  ["inputs", "histories"], "every output content, every pipeline sharing captures between stages",
  "Tests capture only short ASCII output; undecodable output and shared captures are not produced.",
  [B+"running.py", "pieshell/redir.py"],
  [("collect then delete", "running.py:RunningPipeline.handle_finish, RunningItem.handle_pipeline_finish/handle_pipeline_finish_destructive"), ("TMP", "running.py:RunningItem.output_files, BaseRunningItem.remove_output_files")])
p("C22", "Suspending and resuming reaches every process of the right pipeline",
  "Suspending a pipeline stops, and resuming or waiting for it continues, every one of its processes, tolerating those that are already gone. A terminal stop request suspends exactly the pipeline an interactive environment is currently waiting for, whose waiter gets a suspension error; without one it does nothing. bg and fg act on the pipeline given to them, or on the last one.",
  ["histories", "schedules"], "every set of processes in every state, every sequence of stop requests, bg and fg",
  "Job control is not tested at all.",
  [B+"running.py", B+"builtins.py", "pieshell/signalio/manager_signalfd.py", "pieshell/signalio/manager_asyncio.py"],
  [("suspend/resume", "running.py:RunningPipeline.suspend/restart, RunningProcess.suspend/restart"), ("stop request", "running.py:StopSignalHandler.handle_event, RunningPipeline.wait"), ("bg/fg", "builtins.py:BgBuiltin/FgBuiltin/RunnningFg")])
p("C23", "Any composed pipeline survives being sent to another shell",
  "A pickled pipeline never contains process-local state (running pipelines, scopes, processes), whatever has been or is being run in its environment, and unpickling it yields a pipeline of the same kind with the same environment settings and arguments, R()-protected ones included.",
  ["histories", "inputs"], "every pipeline of commands, every prior history of its environment",
  "Pickling is not tested; the failures depend on what ran before.",
  [B+"base.py", "pieshell/environ.py", "pieshell/redir.py"],
  [("reduction", "base.py:describable_object_reduce/DescribableObject.__setstate__"), ("environment state", "environ.py:Environment.__getstate__"), ("delegating attribute lookup", "R.__getattr__, SpecialRedirect.__getattr__, Redirects.__getattr__")])
p("C24", "No operation depends on a name, attribute or call form that does not exist",
  "Every operation of the package can be carried out as far as names go: each variable, module member and attribute of its own objects that the code refers to exists, and each call of the package's own functions passes arguments that function accepts, in the roles it gives them.",
  ["programs", "configurations"], "every code path of the package, including option and error paths",
  "Python resolves names and checks call forms only when a line is executed, and most option and error paths are never executed by the tests.",
  ["pieshell/"], [("all modules", "pieshell/**/*.py")])
p("C25", "Displaying a pipeline runs it only when it should",
  "Displaying a pipeline runs it only if its environment is interactive, no call of repr() is in progress that it is only a part of (or that displays it as text), and it is not itself a pipeline that has been run; in every other case displaying has no effect besides producing text. Pipelines interrupted or suspended while run by display do not raise out of it.",
  ["histories", "configurations", "programs"], "every pipeline kind, builtins included, every nesting of displays",
  "Tests display two pipelines in a non-interactive environment.",
  [B+f for f in ("base.py", "command.py", "builtins.py", "pipe.py", "group.py", "redirect.py", "function.py", "running.py")],
  [("display", "base.py:Pipeline.__repr__, pipeline_repr"), ("started mark", "base.py:Pipeline._run and every override of it")],
  [("_started", "this copy has been run", "Pipeline"), ("in_repr", "display nesting depth", "base.repr_state")])
p("C26", "Redirections mean what was specified, the innermost and latest winning",
  "A redirection opens exactly the file given with the flag and mode given, or by default read-only for standard input and write-and-create for standard output and error; names and numbers of the standard streams are interchangeable. When several redirections concern the same descriptor the innermost and latest specification wins: one written on a stage itself over the connections of the pipe that stage is part of, those over redirections of the whole pipeline, those over redirections passed to run, and those over the environment's defaults; all others are kept.",
  ["inputs", "programs"], "every combination of redirections",
  "Tests redirect one descriptor once.",
  ["pieshell/redir.py", B+"redirect.py", B+"base.py"],
  [("redirection", "redir.py:Redirect.__init__/open/make_pipe"), ("merging", "redir.py:Redirects.register/merge/__init__, redirect.py:CmdRedirect._run, base.py:Pipeline.run/_coerce")])
p("C27", "Programs start with the signals the shell reserves for itself unblocked",
  "Signals that the shell blocks in its own process in order to handle them (child status, terminal stop) are not left blocked in the programs it starts.",
  ["configurations", "programs"], "every program, both signal backends",
  "No test inspects a child's signal mask, and most programs do not care until job control or their own children are involved.",
  [B+"command.py", "pieshell/signalio/manager_signalfd.py"],
  [("blocking", "signalio/manager_signalfd.py:SignalManager.__init__"), ("unblocking", "command.py:Command._child")])
p("C28", "Asynchronous and synchronous sources are interchangeable",
  "Wherever a list, iterator or generator, or a function that makes one, can be piped into or out of a command or used as an argument, an asynchronous iterator or generator, or a function that makes one, can be used with the same result: each item becomes one line, in order. Items of synchronous sources that are coroutines are awaited first, and the value of a coroutine function is a single item.",
  ["programs"], "every position in a pipeline, every kind of source",
  "Tests only use asynchronous functions as consumers.",
  [B+"base.py", B+"command.py", B+"function.py", "pieshell/utils/asyncutils.py", "pieshell/iterio.py"],
  [("acceptance", "base.py:Pipeline._coerce, command.py:Command._handle_arg_pipes"), ("adaptation", "function.py:Function._run, utils/asyncutils.py, iterio.py:OutputHandler.get_iter")])
p("C29", "Command completion lists every available command or nothing stale",
  "Listing the names available in an environment yields the executables of every readable directory on its PATH plus all builtins, sorted, whatever unreadable, missing or relative directories the PATH contains; a listing that could not be completed is never kept and served later, and clearing the cache makes the next listing fresh.",
  ["configurations", "fault_sequences"], "every PATH and directory state, every history of failures and cache clears",
  "Tests list one healthy PATH once.",
  ["pieshell/environ.py", B+"builtins.py"],
  [("listing", "environ.py:Environment.__dir__"), ("clearing", "environ.py:Environment._clear_dir_cache, builtins.py:ClearDirCacheBuiltin")],
  [("_dir_cache", "complete listing or None", "Environment")])
p("C30", "The list of running pipelines holds exactly the unfinished ones",
  "An environment's list of running pipelines contains each pipeline started in it from its start until its last stage has finished, and not afterwards, also when it finishes before or while being started or when collecting its output fails; the last pipeline is the one most recently started.",
  ["histories", "schedules"], "every history of starts and finishes",
  "No test looks at the list.",
  [B+"base.py", B+"running.py"],
  [("adding", "base.py:Pipeline.run"), ("removing", "running.py:RunningPipeline.handle_finish")],
  [("running_pipelines", "unfinished pipelines", "Environment")])
p("C31", "Imported pysh modules run once found, in a scope and environment of their own",
  "A .pysh file is imported exactly when a file of that name exists in the searched directories, the first one winning, and ordinary modules take precedence; looking for one that is not there is no error of another kind. Its code runs in a scope of its own with an environment derived from the interactive one, so that it neither sees nor changes the importer's variables, directory or exports, and the module's attributes are that scope's variables, readable and assignable; it is registered before its code runs, and not left registered when it cannot be read.",
  ["programs", "configurations"], "every module, search path and importer state",
  "Tests import a few modules from one directory and read attributes.",
  ["pieshell/module.py", "pieshell/environ.py"],
  [("finder", "module.py:Finder.find_module"), ("loader", "module.py:Loader.load_module"), ("module object", "module.py:Module")])
p("C32", "bashsource imports exactly what bash reports",
  "The variables and functions sourced from a bash script are exactly those bash declares at its end, with their exact values, whatever characters and line breaks these contain.",
  ["inputs"], "every variable value and function body",
  "Tests source one script with one plain variable.",
  [B+"builtins.py"], [("parser", "builtins.py:parse_declares"), ("import", "builtins.py:BashSource.parse_decls")])
p("C33", "Process browsing shows the live process tree",
  "Browsing processes reaches every child, parent, group and session leader of a process by the documented names, distinguishing processes of the same name, at the time of access.",
  ["inputs", "schedules"], "every process tree and every change to it",
  "Depends on the processes existing at run time; not tested.",
  ["pieshell/ps.py", "pieshell/tree.py"], [("tree", "ps.py:PstreeProcess, tree.py:TreeGroup")])
with open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w") as f:
    for x in P: 
        assert len(x["title"]) <= 80, (x["id"], len(x["title"]))
        f.write(json.dumps(x) + "\n")
