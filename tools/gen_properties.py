#!/usr/bin/env python3
"""Writes properties.jsonl (kept as a generator so that the text is reviewable)."""
import json, os
M='glompo/core/manager.py'; B='glompo/core/_backends.py'; L='glompo/core/optimizerlogger.py'; O='glompo/optimizers/baseoptimizer.py'
P=[]
def p(id,title,statement,over,text,why,files,mech,observe,state=None):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech],observe_at=observe)))

p('C01','Every evaluation is recorded exactly once, in order, with its own value',
 "Each objective-function evaluation performed by an optimizer the manager has not shut down is recorded exactly once under that optimizer, in the order the optimizer made it, with exactly the parameters and value(s) that were used and returned, and with overall evaluation numbers that run 1..N without gap or repeat and equal the reported evaluation count. "
 "Nothing that was not evaluated is ever recorded. If the run ends because every optimizer finished and no more may be started, no evaluation is missing from the record; a run which ends for another reason may leave out evaluations that were still in flight when it ended.",
 ['schedules','histories','configurations'],"all interleavings of optimizers, queue contention levels, optimizer counts, endings and both parallel backends",
 "A unit test sees one schedule of one or two optimizers; loss and duplication appear only when the bounded queue fills, when chunked caching switches on, or when optimizers end between particular manager steps.",
 [M,B,O,L],[('results queue with chunked cache',B),('result draining',M+':_process_results'),('messaging wrapper',O+':_MessagingWrapper')],
 ['task invocation boundary','in-memory evaluation log','HDF5 log file','manager evaluation counter'])
p('C02','The reported result is the best recorded evaluation and never regresses',
 "From the first recorded value below +infinity on, and in the value returned at the end, the reported solution is one of the recorded evaluations with the smallest non-NaN value: its parameters evaluate to its value, its origin is the optimizer that produced it, and its value never increases during a run or across a checkpoint and resume. "
 "Non-finite values never displace a finite one, and the statistics delivered with the result agree with what actually happened (evaluations, optimizers started, killed and converged).",
 ['histories','inputs','schedules'],"all sequences of returned values (including ties, NaN, +/-inf, negative and zero) and all arrival orders across optimizers",
 "Tests check one or two benign sequences; aliasing, ties, zero/falsy optima, NaN ordering and late results only matter for particular value/arrival combinations.",
 [M,L],[('best-iteration tracking',L+':put_iteration'),('result assembly',M+':_update_best_result')],
 ['returned Result','manager.result at convergence checks','task invocation boundary'])
p('C03','Worker slots are never oversubscribed and spawning stops when told to',
 "At no time does the total number of worker slots of the running optimizers exceed the configured maximum number of jobs, and whenever slots are free and the selector offers an optimizer that fits, one is started. "
 "Optimizer identifiers are unique and consecutive from one (also across resumes), every optimizer gets the configuration the selector returned, and once the selector signals that spawning is over no optimizer is ever started again.",
 ['schedules','configurations','histories'],"all job limits, worker counts, selector answers and optimizer life times",
 "Slot accounting errors show only for mixtures of multi-slot optimizers that die and start in particular orders.",
 [M,'glompo/opt_selectors/baseselector.py'],[('slot filling',M+':_fill_optimizer_slots'),('optimizer construction',M+':_setup_new_optimizer')],
 ['optimizer construction and start/finish events','selector calls'])
p('C04','Only losing optimizers whose hunt condition holds are ever killed',
 "The manager shuts down an optimizer only if the user's hunting condition was evaluated true for it against the optimizer that holds the best solution at that time (or the user asked for it explicitly), never shuts down the holder of the best solution in a hunt, never does so twice or for an optimizer that already ended, and starts a hunt, which concerns every other optimizer known to be running with results, exactly whenever the configured number of evaluations has been recorded since the last one (once a best solution exists). "
 "A killed optimizer is told to stop, none of its results delivered after the kill are recorded or counted, and its recorded end condition and the kill statistics name that kill (unless it had to be terminated forcibly afterwards because it did not respond).",
 ['schedules','histories','configurations'],"all hunting conditions, hunt frequencies, arrival orders and kill modes",
 "The identity of the incumbent, the liveness of the victim and the results in flight all depend on the interleaving at the moment of the hunt.",
 [M,'glompo/hunters/basehunter.py'],[('hunt',M+':_start_hunt'),('shutdown',M+':_shutdown_job'),('victim result filter',M+':_process_results')],
 ['hunter invocations','stop signals seen by optimizers','recorded metadata','hunt counters'])
p('C05','The run ends exactly when its convergence condition or exhaustion says so',
 "The run ends if and only if the convergence condition evaluates true, or all optimizers have ended and no more may be started, or an interrupt or internal error is reported as such, and the end reason delivered to the user is the one that actually applied. "
 "When the run returns, every optimizer it started has been told to stop and none is left running (processes), whatever state the optimizers were in, and the run always returns within a bounded amount of manager work once its end condition holds.",
 ['schedules','configurations','fault_sequences'],"all convergence conditions, optimizer states at the end (running, blocked on a full queue, ending, silent), and both backends",
 "Deadlocks and leftover children at shutdown depend on what each optimizer is doing at the instant the run converges.",
 [M,'glompo/convergence/basechecker.py'],[('main loop',M+':start_manager'),('shutdown of children',M+':_stop_all_children')],
 ['checker evaluations','returned Result end condition','optimizer liveness after return'])
p('C06','A failing optimizer is contained and truthfully reported',
 "When an optimizer raises, exits, is killed by the operating system or stops responding at any point of its life, the run carries on with the others: no result of any other optimizer is lost or altered, everything the failed optimizer delivered before is kept, its slot is freed, and its end is recorded as an error rather than as a convergence. "
 "Optimizers that crash on every start cannot make the run spin forever, forced termination applies only to optimizers that were silent for longer than the permitted time, and if the manager itself fails or is interrupted it still stops its optimizers and returns the best solution found so far with that reason.",
 ['crash_points','fault_sequences','schedules'],"every point at which an optimizer, checker, hunter, selector or generator can fail, alone and in combination",
 "The consequences of a failure depend on which protocol step it interrupts; tests inject failures at one or two fixed places.",
 [M,O],[('child inspection',M+':_inspect_children'),('exception capture',O+':_minimize'),('crash shutdown',M+':start_manager')],
 ['optimizer exit events','recorded metadata and messages','returned Result'])
p('C07','Resuming from a checkpoint continues exactly where the checkpoint was taken',
 "A manager loaded from a checkpoint starts with the counters, best result, settings, evaluation history, metadata and live optimizers of the moment the checkpoint was taken, each optimizer in its own saved state with its identity and the job limit respected. "
 "Over the original session up to the checkpoint and the resumed session together every evaluation is recorded exactly once: none made before the checkpoint is lost or repeated and evaluation numbering continues without gap.",
 ['histories','schedules','crash_points'],"all moments at which a checkpoint can be taken (including while optimizers end, are killed, or have results queued or cached) and chains of several resumes",
 "Whether an evaluation is inside the optimizer, in the queue, in the cache or in the log at the instant of the checkpoint decides whether it survives; tests use idle or single optimizers.",
 [M,O,'glompo/optimizers/random.py'],[('checkpoint',M+':checkpoint'),('optimizer pause and save',O+':_prepare_checkpoint'),('loading',M+':load_checkpoint')],
 ['checkpoint archive','task invocation boundary over sessions','manager attributes after load'])
p('C08','A failed checkpoint never harms earlier ones, leaves rubbish or stalls the run',
 "If building a checkpoint fails at any step, every previously completed checkpoint is still present and loadable under its own name, no partial archive, working directory or temporary file remains, the history lists no checkpoint that was not completed, and the optimization carries on with all optimizers released (or, if so configured, ends reporting the failure). "
 "A task that cannot be serialised is handed to its own saving method or omitted, without failing the checkpoint.",
 ['crash_points','fault_sequences'],"every file, serialisation and archive operation of the checkpoint as a failure point (disk full, permission, unpicklable object), with and without an earlier checkpoint of the same name",
 "Each failure point needs its own injected fault, crossed with overwriting and error-handling settings.",
 [M],[('checkpoint transaction',M+':checkpoint'),('task persistence',M+':_checkpoint_task')],
 ['checkpoint directory contents','loadability of archives','optimizer progress after the checkpoint'])
p('C09','Checkpoint names follow the format and retention keeps exactly the newest',
 "A new checkpoint is named by substituting every key of the naming format, a name is recognised as matching exactly if it is the format with every key replaced by digits of that key's documented width (the same index throughout), and the running index is one more than the largest index among matching names present. "
 "With a retention limit of k, after a successful checkpoint the new one and the k newest earlier matching ones remain, and nothing that does not match the format is ever removed.",
 ['inputs','histories','configurations'],"all naming formats built from the documented keys and arbitrary literal text, directory contents, clock values and retention limits",
 "Formats with regular-expression characters, name prefixes, clock roll-over and mixed directory contents are endless; tests try a handful.",
 ['glompo/core/checkpointing.py',M],[('name construction and matching','glompo/core/checkpointing.py'),('retention',M+':checkpoint')],
 ['checkpoint directory before and after','names returned'])
p('C10','Taking checkpoints does not disturb the optimization',
 "While a checkpoint is being built every live optimizer is paused and performs no evaluation, and afterwards each continues from where it was: none is lost, restarted, shut down or left waiting because of the checkpoint, and none of their results is dropped or duplicated. "
 "Checkpoints are taken whenever the configured evaluation count or time since the last one has passed, at the start or end if so configured, and on user request, and not otherwise.",
 ['schedules','configurations','histories'],"all checkpoint schedules and all optimizer states at the moment of a checkpoint (computing, ending, hunted, blocked on the queue, failing)",
 "The pause handshake races with optimizers that end, die or fill the queue at the same time.",
 [M,O],[('pause/synchronise/release',M+':_checkpoint_optimizers'),('pause in the optimizer',O+':_prepare_checkpoint')],
 ['task invocation boundary','checkpoint begin/end','optimizer completion'])
p('C11','The results queue delivers everything exactly once and in order',
 "For any number of concurrent producers and any mix of blocking and non-blocking insertions, everything inserted is obtained exactly once by the consumer once it is flushed, the items of each producer are obtained in the order inserted, nothing else is obtained, and the queue never holds more chunks than its limit nor a chunk larger than its limit plus what was explicitly cached. "
 "A refused insertion does not leave the item behind, and no producer blocks forever while the consumer keeps reading.",
 ['schedules','inputs'],"all thread interleavings of producers and a consumer, sizes, chunk sizes and operation mixes",
 "The switch to caching races with other producers; a test exercises one order.",
 [B],[('chunked caching',B+':ChunkingQueue')],['queue client boundary (put/get/flush events)'])
p('C12','Combined conditions are lazy boolean logic and report what was evaluated',
 "Any nesting of and/or combinations of hunting or stopping conditions evaluates to the boolean combination of its parts, from left to right, evaluating a part only if its result is needed and each needed part exactly once per evaluation with the same arguments. "
 "After an evaluation the textual report shows exactly the results of the parts that were evaluated in that evaluation and 'None' for the others, iterating gives the leaves from left to right, and the pretty-printed form preserves the nesting.",
 ['inputs','histories'],"all condition trees and sequences of evaluations",
 "Trees and repeated evaluations are unbounded; stale results only show on later evaluations of deeper trees.",
 ['glompo/common/corebase.py','glompo/common/helpers.py'],[('combination','glompo/common/corebase.py'),('pretty printing','glompo/common/helpers.py:nested_string_formatting')],
 ['leaf invocations','returned booleans','report strings'])
p('C13','Every built-in hunting condition decides as documented',
 "For any evaluation history of hunter and victim, each built-in hunting condition returns exactly the documented predicate of those histories (best value unmoving, evaluations unmoving, invalid points, minimum calls, parameter distance, step size, optimizer type), false when there is too little history, and the randomised ones return true with the documented probability and never in the documented never-kill cases. "
 "The predicate is taken over the histories held in the log. Evaluating a condition never changes the log and the outcome does not depend on whether the log is kept in memory or on disk.",
 ['inputs','histories'],"all histories (including non-finite values and very short ones) and parameters of the conditions",
 "Thresholds, window boundaries and non-finite values need many generated histories compared against an independent reference.",
 ['glompo/hunters/bestunmoving.py','glompo/hunters/evalsunmoving.py','glompo/hunters/lastptsinvalid.py','glompo/hunters/parameterdistance.py','glompo/hunters/stepsize.py','glompo/hunters/timeannealing.py','glompo/hunters/valueannealing.py','glompo/hunters/min_fcalls.py','glompo/hunters/type.py'],
 [('hunters','glompo/hunters')],['hunter return values over generated logs'])
p('C14','Every built-in stopping condition decides as documented',
 "For any state of the manager, each built-in stopping condition returns exactly the documented predicate (function calls, target cost, converged optimizers, kills, kills after convergence, optimizers started, session or overall time), where kills after convergence counts only kills made after the condition saw the required number of optimizers converged. "
 "Along any run the conditions based on counters, once true, stay true, also across a checkpoint and resume.",
 ['histories','inputs'],"all sequences of manager states and parameters",
 "Memory inside conditions (kills after convergence, time over sessions) depends on the sequence of states, not one state.",
 ['glompo/convergence/fmax.py','glompo/convergence/ftarget.py','glompo/convergence/nconv.py','glompo/convergence/nkills.py','glompo/convergence/nkillsafterconv.py','glompo/convergence/omax.py','glompo/convergence/tmax.py'],
 [('checkers','glompo/convergence')],['checker return values over state histories'])
p('C15','Selectors offer the documented optimizer and stop spawning as documented',
 "For any sequence of requests, the cycling selector goes through its options in order and repeats (retrying the same option when it does not fit), the chain selector offers the option whose evaluation-count stage is current (and stops spawning after the optional last threshold), and the random selector offers only options that fit, each reachable. "
 "No selector ever offers an optimizer needing more slots than available, spawn controls stop spawning exactly from their limit on, options keep their configuration unchanged between requests, and malformed options are refused.",
 ['inputs','histories'],"all option lists, worker counts, free slots, evaluation counts and request sequences",
 "The selectors are stateful and must be right for every sequence of (free slots, evaluation count) requests.",
 ['glompo/opt_selectors/cycle.py','glompo/opt_selectors/chain.py','glompo/opt_selectors/random.py','glompo/opt_selectors/baseselector.py','glompo/opt_selectors/spawncontrol.py'],
 [('selectors','glompo/opt_selectors')],['select_optimizer return values'])
p('C16','Start points lie in the bounds and follow the documented strategy',
 "For any bounds and any state of the optimization, including before any result exists and when all values seen are non-finite, each start-point generator returns a vector of the right length with finite entries inside the bounds: uniform random points for the random generator, always the same point for the single-point generator, the incumbent (or a random point if none) for the incumbent generator, the documented blend or bounded step for the explore/exploit and basin-hopping generators, a truncated normal deviate for the perturbation generator, and for the annealing generator a point it evaluated or the best known, other than its previous one, with the evaluations of its annealing steps counted by the manager. "
 "Generating a point never changes the bounds, the log, the incumbent or a previously returned point.",
 ['inputs','histories'],"all bounds, histories of results and generator settings",
 "Corner states (no finite result, newest optimizer without points, evaluation count beyond the estimate) occur only in particular run histories.",
 ['glompo/generators/random.py','glompo/generators/single.py','glompo/generators/best.py','glompo/generators/exploit_explore.py','glompo/generators/basinhopping.py','glompo/generators/annealing.py','glompo/generators/peterbation.py'],
 [('generators','glompo/generators')],['generate() return values over manager states'])
p('C17','The evaluation log answers every query from exactly what was put in',
 "After any sequence of operations on the evaluation log (adding optimizers, iterations, metadata and messages, clearing, flushing, saving and reloading), every query (history columns, lengths, best iteration overall and per optimizer, largest finite value, metadata, counts) gives what a simple sequential record of the same operations gives, for the in-memory and for the file-backed log alike. "
 "Clearing releases the history of an optimizer that will deliver no more (the in-memory log then answers its history as empty, the file-backed one from the file) but never falsifies overall counts, best iterations or metadata, and reloading a saved log restores it.",
 ['histories','inputs'],"all operation sequences, optimizer ids, extra columns and values including non-finite ones",
 "Interactions between clearing, chunked writing and later queries occur only in particular operation orders.",
 [L],[('in-memory log',L+':BaseLogger'),('file log',L+':FileLogger')],['logger client boundary'])
p('C18','The log file on disk is complete, and rolls back exactly on resume',
 "After a run that requested it, the log file contains for every optimizer its start, end time and end condition, messages and complete iteration table, agreeing with what was evaluated and with the manager's counters (text attributes longer than HDF5 can hold are shortened). "
 "Resuming from a checkpoint with an existing log file removes exactly the evaluations and optimizers recorded after that checkpoint and continues the file, also when the original session was killed; a missing file is reported and started anew, and a log file belonging to another optimization is refused and left unmodified.",
 ['histories','crash_points'],"all runs, all checkpoints along a run, and any progress of the file past the checkpoint",
 "How far the file ran past the checkpoint, per optimizer, determines which rows and groups must go.",
 [L,M],[('rollback',M+':start_manager'),('file log',L+':FileLogger')],['HDF5 file contents','task invocation boundary'])
p('C19','Bundled optimizers respect bounds, budget and manager commands',
 "The bundled random and CMA-ES optimizers evaluate only points inside the bounds, never exceed their iteration budget (also over interruption and resume), and return the best point of the iterations they completed together with its value and whether they converged. "
 "They stop promptly after a stop command, begin no further iteration while paused, process every pending command in order, resume from their saved state, report their end to the manager exactly once, and print nothing unless asked to be verbose. "
 "The wrapper of the SciPy optimizers delivers every evaluation, the result SciPy delivers, whether it converged, and its end exactly once.",
 ['inputs','schedules','histories'],"all objective functions, bounds, settings and command sequences",
 "Commands can arrive at any iteration and in any order.",
 ['glompo/optimizers/random.py','glompo/optimizers/cmawrapper.py','glompo/optimizers/scipy.py',O],[('message handling',O+':check_messages'),('random optimizer','glompo/optimizers/random.py'),('CMA wrapper','glompo/optimizers/cmawrapper.py')],
 ['task invocation boundary','signal pipe','returned result'])
p('C20','User intervention files act on exactly what they name',
 "A stop file naming a living optimizer shuts down exactly that optimizer, is removed and recorded as a user intervention; stop files that name a dead or unknown optimizer or no number at all have no effect and never disturb the run. "
 "A checkpoint request file produces exactly one checkpoint, is removed, works without checkpointing having been configured, and leaves the configuration as it was.",
 ['inputs','schedules','histories'],"all file names of the intervention patterns, at any moment of the run, several at once",
 "Names and timing are chosen by the user at run time.",
 [M],[('stop files',M+':_is_manual_shutdowns'),('checkpoint file',M+':_is_manual_checkpoints')],['working directory contents','optimizer end conditions','checkpoint directory'])
p('C21','Each optimizer\'s printed output and log messages go to its own file',
 "With split print streams, everything an optimizer prints to standard output or error goes, complete and in order (but for the last partial line of a process that was terminated), to that optimizer's own file and nowhere else, and what the rest of the program prints is unaffected, for processes and threads alike. "
 "The per-optimizer log splitter writes every record of an optimizer, complete and in order, to that optimizer's own log file and passes it on only if asked to.",
 ['schedules','configurations'],"all interleavings of printing optimizers, thread and process backends",
 "Cross-talk between streams depends on which thread prints when.",
 [B,'glompo/common/wrappers.py','glompo/common/helpers.py'],[('thread redirect',B+':ThreadPrintRedirect'),('process redirect','glompo/common/wrappers.py'),('log splitting','glompo/common/helpers.py:SplitOptimizerLogs')],
 ['print stream files','captured stdout/stderr'])
p('C22','Output files are faithful, readable, and never destroy results uninvited',
 "The summary file of any run, however it ended, is valid plain YAML whose counters, solution, bounds, settings and end condition agree with the run, and exactly the result files asked for by the output level are produced, the plots showing the recorded trajectories; a run whose files cannot be saved still returns its result. "
 "Results already in the working directory make the run refuse to start and stay untouched unless overwriting was allowed, and then only files of the kinds the manager itself produces are removed.",
 ['configurations','histories','inputs'],"all output levels, endings, settings and directory contents",
 "The combination of settings objects, endings and previous files is unbounded.",
 [M,'glompo/common/helpers.py'],[('summary',M+':_save_log'),('purge',M+':_purge_old_results')],['working directory contents','summary YAML'])
p('C23','Invalid configurations are refused and valid ones are taken as given',
 "Setting up a manager with an invalid argument (non-callable task, inverted, equal or non-finite bounds, a non-positive or non-integer job limit, objects of the wrong kind) raises the documented error and leaves the manager uninitialised and unable to start, while every valid configuration is stored and used exactly as given with the documented defaults for what was omitted. "
 "A manager is initialised at most once: later attempts change nothing, a failed setup or load of a damaged checkpoint leaves no trace in the manager, the arguments given when loading a checkpoint replace the stored ones, and the task or task loader given is used where the checkpoint holds no task.",
 ['inputs','configurations'],"all argument combinations, valid and invalid, and damaged checkpoint files",
 "The space of invalid combinations is large and the consequence (a half-initialised manager) shows only afterwards.",
 [M,'glompo/common/helpers.py'],[('setup validation',M+':setup'),('bounds validation','glompo/common/helpers.py:is_bounds_valid')],['setup()/load_checkpoint() outcome and manager attributes'])
p('C24','Benchmark functions follow their formula and never go below their stated minimum',
 "Every benchmark function of any supported dimension returns the value of its documented formula and declares its recommended bounds. It is finite, deterministic (except where noise was asked for) and does not modify its input over its whole declared domain, and never returns less than its declared global minimum there. "
 "Where a location of the minimum is declared it lies in the domain and evaluates to the declared minimum, and the declared bounds are valid with one pair per dimension (values the documentation announces as unknown, estimated or approximate are held to that only). Its detailed form begins with the same value, the Lennard-Jones gradient is the derivative of its energy, and a configured delay is respected.",
 ['inputs'],"all points of the domain and all supported dimensions",
 "Tests evaluate the functions at single points.",
 ['glompo/benchmark_fncs.py'],[('functions','glompo/benchmark_fncs.py')],['function values'])
p('C25','Sharing best solutions reaches every other optimizer and only when asked',
 "With sharing enabled, whenever the best known solution improves, every other running optimizer is sent exactly that solution (parameters and value) and its producer is not, in the order of improvement; nothing is sent when the best did not improve or when sharing is disabled. "
 "A bundled optimizer that receives a shared solution takes it as its incumbent without it being counted as an evaluation.",
 ['schedules','histories'],"all improvement sequences, optimizer sets and optimizer life times",
 "Which optimizers are alive and what is already known at each improvement varies with the schedule.",
 [M,O],[('sharing',M+':_update_best_result'),('injection',O+':inject')],['injections received by optimizers'])
p('C26','Detailed evaluation costs one call and logs all of its values',
 "With detailed logging on, each evaluation an optimizer makes by either calling style costs exactly one evaluation of the task (its detailed form), the optimizer receives what it asked for (the bare value or the full sequence) and every extra value is recorded under the right column next to its own evaluation, with columns named, ordered and typed as the task declares or by inference; values for which there is no column type are stored as text. "
 "With it off, the plain form is evaluated for plain calls, and a task without a detailed form is never evaluated when detailed logging is requested: its optimizers fail with the reason.",
 ['inputs','configurations'],"all kinds and shapes of extra values, header declarations and calling styles",
 "Column order and types interact with arbitrary extra values.",
 [O,'glompo/common/helpers.py',L],[('messaging wrapper',O+':_MessagingWrapper'),('header inference','glompo/common/helpers.py:infer_headers')],['task invocation boundary','log columns'])
p('C27','The live scope shows exactly what happened and never disturbs the run',
 "With the live scope switched on, each optimizer's stream holds exactly its recorded evaluations in order, at their overall evaluation numbers and with their values (their logarithm if asked for; the best value so far if asked for; with a limited range at least those within the range), whatever the values are. "
 "Every optimizer that was terminated, converged or crashed is marked as such at its last point then shown, optimizers that pause for and are saved in a checkpoint are marked so, and nothing else is marked. What was shown survives a checkpoint and resume; recording writes exactly the frames taken to the working directory; the optimization gives the same guarantees as without the scope (a user interrupt while drawing stops it), and no figure or encoder is left behind.",
 ['histories','inputs','configurations'],"all runs, values, scope settings, endings and resumes",
 "Tests plot a handful of benign points by hand; which marker appears where depends on how optimizers end, which values they return, and what was truncated or restored before.",
 ['glompo/core/scope.py',M],[('streams and markers','glompo/core/scope.py:GloMPOScope'),('scope updates',M+':_process_results'),('scope updates at ends',M+':_inspect_children')],
 ['streams and markers of the scope','open figures','movie file'])
with open(os.path.join(os.path.dirname(os.path.abspath(__file__)),'..','properties.jsonl'),'w') as f:
    for x in P:
        assert len(x['title'])<=80,(x['id'],len(x['title']))
        f.write(json.dumps(x)+'\n')
print(len(P))
