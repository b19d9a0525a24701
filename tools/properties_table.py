SAN = "The real code is compiled with ASan+UBSan and again with TSan (any report fails the run); "
EXP = ("Exploration: held on the executions produced (counts in the evidence). Trusts clang's sanitizers, the oracle in the "
       "harness%s.")
STAND = ", and the stand-in for the absent sup-dto/sup-utils libraries in /verif/standin"

prop("C01", "Job commands are queued in order, with priority, and never lost",
     "Commands pushed to a job's command queue by any number of threads are received exactly once, in the order they were pushed, and a consumer blocked on the empty queue is woken for every command that becomes available. "
     "A priority push is accepted exactly when the queue is empty or its command outranks (start < step < pause < reset < halt < terminate) the one at the front; then its attached action runs exactly once, before any consumer can receive the command, which goes to the front of the queue, and when it is refused nothing changes and the action does not run. "
     "Size, emptiness and non-blocking reads always describe a state the queue really had, and a failed read leaves its output untouched.",
     ["histories", "schedules", "inputs"],
     "every sequence of pushes, priority pushes, non-blocking and blocking pops, from any number of threads under every interleaving",
     "Two unit tests push a handful of commands from one thread; no test has a blocked consumer, concurrent producers or simultaneous priority pushes.",
     ["job_command_queue.h", "runner/job_command_queue.cpp", "runner/job_commands.cpp"],
     [("mutex held over check, action and insertion", L + "runner/job_command_queue.cpp PriorityPush"), ("one notification per accepted command, predicate wait", L + "runner/job_command_queue.cpp Push, WaitForNextCommand")],
     ["return values of push/pop/size calls with call and return times", "count and time of the attached action"],
     state=[("command list", "pending commands, front is next", "JobCommandQueue::m_command_queue")],
     tech="exhaustive short operation sequences against a list model, linearizability checking of recorded concurrent histories, wake-up and conservation monitors, ASan/UBSan and TSan builds with injected lock delays",
     note=EXP % "")

prop("C02", "Notifications reach exactly the registered callbacks, none after unregistering",
     "A notification published under a name is delivered, with its exact name and arguments, exactly once to every generic callback and then to every callback registered under exactly that name, each group in registration order, and never two deliveries at the same time. "
     "Once unregistering a listener returns (called directly or through the listener's guard going away) none of its callbacks is still running or ever runs again, while other listeners keep receiving everything. "
     "Registering an empty function is refused, and unregistering tells whether anything was registered for that listener.",
     ["histories", "schedules", "inputs"],
     "every sequence of registrations, unregistrations, guards and notifications, with publishers and listeners in different threads",
     "Three unit tests register two or three callbacks in one thread; nothing runs a publisher against a listener that is going away.",
     ["named_callback_manager.h", "scope_guard.h"],
     [("one mutex held while registering, removing and delivering", L + "named_callback_manager.h")],
     ["the calls each callback receives", "return values"],
     tech="call-by-call comparison with a list model, interval checking of concurrent deliveries (must/may/must-not), use-after-unregister detection, ASan/UBSan and TSan builds with injected lock delays",
     note=EXP % "")

prop("C03", "A scope guard runs its action exactly once, when its last owner goes away",
     "The action given to a scope guard runs exactly once: when the guard that owns it at that time is destroyed (also while an exception unwinds the scope) or is overwritten by assigning another guard to it, and not before. "
     "Moving and swapping guards transfers ownership without running anything, a moved-from, default or empty guard does nothing, and a guard reports itself valid exactly while it owns an action.",
     ["histories", "programs"],
     "every sequence of construction, destruction, move construction, move assignment, swap and exception unwinding over any set of guards",
     "Three unit tests cover one construction, one move and one swap; ownership has to hold for every combination of them.",
     ["scope_guard.h", "base/scope_guard.cpp"],
     [("move leaves the source empty, assignment by temporary and swap", L + "base/scope_guard.cpp")],
     ["how often each action ran after each operation", "validity of every guard"],
     tech="exhaustive short and random long guard programs checked after every operation against an ownership model, ASan/UBSan and TSan builds",
     note=EXP % "")

prop("C04", "Status, job-state and command vocabularies are total and mutually consistent",
     "Every instruction status and every job state has its fixed, distinct text, and any other value is rendered as unknown. "
     "An instruction is finished exactly in success and failure, needs execution exactly when it is not finished, is ready to be ticked exactly when not started or not finished, and is executing exactly when not finished or running; a job state is final exactly when succeeded, failed or halted. "
     "Job commands are totally ordered start < step < pause < reset < halt < terminate, and these answers are the same from any thread, including on simultaneous first use.",
     ["inputs", "schedules"],
     "every enumerator, every out-of-range value, every pair of commands, first use from several threads",
     "The unit tests look at the declared texts and a few command pairs; they leave most classification predicates and all invalid values unexamined.",
     ["execution_status.h", "procedure/execution_status.cpp", "job_states.h", "runner/job_states.cpp", "job_commands.h", "runner/job_commands.cpp"],
     [("switch and static tables", L + "procedure/execution_status.cpp, runner/job_states.cpp")],
     ["results of the text and classification functions"],
     tech="enumeration of all enumerators, all pairs and wide integer ranges against a table oracle, concurrent first use, ASan/UBSan and TSan builds",
     note=EXP % "")

prop("C05", "Log severities translate between number and name without loss",
     "The nine severities have the syslog numbers 0 to 8 from emergency to trace and a fixed upper-case name each; translating a severity to its name and back gives the same severity. "
     "Any other number is rendered as unknown, and any other text, however close to a name, is answered with the value that means no such severity. "
     "The answers are the same from any thread, including on simultaneous first use.",
     ["inputs", "schedules"],
     "every integer and every string, from any thread",
     "The unit tests check the nine names; near-miss names, out-of-range numbers and concurrent use are not reached.",
     ["log_severity.h", "base/log_severity.cpp"],
     [("one table searched in both directions", L + "base/log_severity.cpp GetSeverityMap")],
     ["results of the two translation functions"],
     tech="enumeration of levels, integer ranges and all one-edit neighbours of the names against a table oracle, concurrent first use, ASan/UBSan and TSan builds",
     note=EXP % "")

prop("C06", "Errors, preamble entries and breakpoints keep exactly what they were given",
     "Every exception of the library carries exactly the message it was raised with, is caught as the library's common message exception and as a standard exception, and is caught as no other specific kind. "
     "A procedure preamble returns all type registrations (kind and text) and all plugin paths in the order they were added, duplicates included, and copies are independent. "
     "A breakpoint starts as set, and always reports the instruction it was created for and the status last given to it.",
     ["inputs", "histories"],
     "every message, every sequence of preamble additions and copies, every sequence of breakpoint status changes",
     "No unit test of the core covers them; the remaining ones look at one or two entries.",
     ["exceptions.h", "base/exceptions.cpp", "procedure_preamble.h", "procedure/procedure_preamble.cpp", "breakpoint.h", "runner/breakpoint.cpp"],
     [("append-only lists and plain members", L + "procedure/procedure_preamble.cpp, runner/breakpoint.cpp, base/exceptions.cpp")],
     ["what() of caught exceptions and the handler that catches", "lists returned by the preamble", "breakpoint accessors"],
     tech="model comparison over random messages, registration histories and breakpoint histories, ASan/UBSan and TSan builds",
     note=EXP % "")

prop("C07", "Control-flow instructions give the result their documented semantics prescribe",
     "For every tree of sequences, fallbacks, their reactive variants, choices, parallel sequences, inverters, repeats, for-loops, force-success and leaf instructions, executing the procedure ends with the status the documented semantics gives, and runs exactly the leaves it prescribes, in that order and that often. "
     "An instruction that has finished is not executed again until it is reset, and children of a branch that was not selected or not reached are never executed.",
     ["programs", "inputs"],
     "every instruction tree, every attribute value and every outcome of the leaves",
     "Unit tests fix a few small trees per instruction; combinations, nesting under loops and reactive re-evaluation are sampled by hand only.",
     ["instructions/sequence.cpp", "instructions/fallback.cpp", "instructions/reactive_sequence.cpp", "instructions/reactive_fallback.cpp", "instructions/choice.cpp", "instructions/parallel_sequence.cpp", "instructions/inverter.cpp", "instructions/repeat.cpp", "instructions/for.cpp", "instructions/force_success.cpp", "instructions/instruction.cpp", "instructions/compound_instruction.cpp", "instructions/decorator_instruction.cpp", "procedure/procedure.cpp"],
     [("one tick executes one child or all parallel children", L + "instructions/*.cpp ExecuteSingleImpl"), ("status computed from child statuses", L + "instructions/*.cpp CalculateCompoundStatus")],
     ["status changes reported to the user interface", "executions of instrumented leaf instructions", "final status of the procedure"],
     tech="random procedures executed by the real engine and compared, leaf by leaf, with an independent reference interpreter; ASan/UBSan build",
     note=EXP % STAND)

prop("C08", "Every status change is reported once and follows the instruction life cycle",
     "The sequence of statuses reported to the user interface for each instruction is the sequence of its status changes: an instruction goes from not started to not finished before it executes, then through not finished or running to success or failure, and back to not started only by a reset. "
     "No change is reported twice or skipped, the last report equals the status the instruction has, and a parent is reported executing before any of its children and finished only after every child it depends on.",
     ["programs", "histories", "schedules"],
     "every procedure, including parallel and asynchronous parts, resets and halts",
     "Unit tests look at final statuses; the stream of notifications is not checked as a whole anywhere.",
     ["instructions/instruction.cpp", "instructions/async_wrapper.cpp", "user_interface.h"],
     [("preamble and postamble around every execution", L + "instructions/instruction.cpp ExecuteSingle"), ("reset of status", L + "instructions/instruction.cpp Reset")],
     ["user interface status updates, with status read back"],
     tech="online automaton over the stream of status notifications of random procedures, loops, parallel branches, halts and resets; ASan/UBSan and TSan builds",
     note=EXP % STAND)

prop("C09", "Parallel branches run concurrently, are counted correctly and always end",
     "A parallel sequence executes all its children concurrently and succeeds as soon as the required number of children has succeeded, fails as soon as the failure threshold is reached, whatever order and timing the branches have. "
     "When it finishes early it asks the remaining branches to halt, and once a parallel or asynchronous instruction has been reset or destroyed none of its branches is still executing.",
     ["schedules", "programs", "configurations"],
     "every number of branches, every pair of thresholds, every branch outcome and every interleaving of the branch threads",
     "Unit tests run two or three branches with fixed outcomes once, in whatever order the scheduler happens to choose.",
     ["instructions/parallel_sequence.cpp", "instructions/async_wrapper.cpp", "instructions/async.cpp"],
     [("thread per branch with future", L + "instructions/async_wrapper.cpp"), ("threshold counting", L + "instructions/parallel_sequence.cpp CalculateStatus")],
     ["enter and leave events of instrumented branch leaves", "final statuses"],
     tech="trace monitor over enter/leave events of controlled branches, threshold oracle, race detection; ASan/UBSan and TSan builds with injected delays",
     note=EXP % STAND)

prop("C10", "A job follows its control protocol for every sequence of commands",
     "A job is always in one of its documented states and changes state only as commands and execution prescribe: start runs it, step executes exactly one tick and pauses, pause stops it after the current tick, halt ends it as halted, and only reset leaves a final state, back to the initial one. "
     "Commands that are meaningless in the current state are ignored, every state change is reported to the monitor exactly once and in order, and reset makes the procedure start afresh. "
     "A job that runs to its end reports success or failure as its procedure did.",
     ["histories", "schedules"],
     "every sequence and timing of start, step, pause, halt, reset and terminate commands, issued by any number of threads while the procedure runs",
     "Unit tests issue a handful of commands and wait for one state; command sequences racing with the end of ticks are not reached.",
     ["async_runner.h", "runner/async_runner.cpp", "local_job.h", "runner/local_job.cpp", "runner/runner.cpp"],
     [("single command loop thread with a state machine", L + "runner/async_runner.cpp")],
     ["state changes seen by the job monitor", "tick events", "commands with call times"],
     tech="trace automaton over job-state, tick and status events under random command sequences and timings; ASan/UBSan and TSan builds",
     note=EXP % STAND)

prop("C11", "Execution pauses at every breakpoint before the instruction, and nowhere else",
     "Whenever an instruction carrying a breakpoint is among those the next tick of a running job would execute, the job pauses before that tick; after resuming, that instruction executes and the same breakpoint stops the job again whenever execution reaches the instruction anew. "
     "A job never pauses at an instruction without a breakpoint, a removed breakpoint no longer stops it, and setting one twice or removing a missing one changes nothing.",
     ["programs", "histories", "schedules"],
     "every procedure, every set of breakpoints and every interleaving of setting, removing, stepping, starting and pausing",
     "Unit tests set one breakpoint in one short sequence; breakpoints inside loops, parallel branches and combined with stepping are not explored.",
     ["runner/breakpoint_manager.cpp", "runner/runner.cpp", "runner/async_runner.cpp"],
     [("breakpoints released once and re-armed after the next tick", L + "runner/breakpoint_manager.cpp"), ("check before each tick", L + "runner/runner.cpp")],
     ["job states", "status changes of the instruction carrying the breakpoint", "breakpoint notifications"],
     tech="trace oracle computing from the reference interpreter where a job must pause, over random procedures, breakpoints and resume commands; ASan/UBSan and TSan builds",
     note=EXP % STAND)

prop("C12", "Halting always stops a procedure promptly",
     "After halt is requested, from any thread and at any moment, a blocking instruction (waiting for time, for a variable, or for the user) returns without waiting for its condition, no leaf that had not been started is executed, and the job ends: halted, or with the result of the procedure when the tick in progress completes it. "
     "Branches that are still executing when their procedure is reset or destroyed are halted likewise. After a reset the same procedure can be executed again as if it had never been halted.",
     ["schedules", "histories", "programs"],
     "every procedure, every moment of execution and any thread issuing the halt",
     "Unit tests halt a few waiting procedures at one moment; halts that fall between two instructions or while a loop resets its child are not reached.",
     ["instructions/instruction.cpp", "instructions/wait.cpp", "instructions/wait_for_variable.cpp", "instructions/wait_for_variables.cpp", "instructions/input.cpp", "instructions/user_choice.cpp", "instructions/user_confirmation.cpp", "instructions/repeat.cpp", "instructions/for.cpp", "instructions/listen.cpp", "runner/async_runner.cpp"],
     [("halt flag checked before executing and in every waiting loop", L + "instructions/instruction.cpp, instructions/*.cpp"), ("halt passed to children", L + "instructions/compound_instruction.cpp, decorator_instruction.cpp")],
     ["leaf executions after the halt call", "state changes", "bounded time from halt to halted"],
     tech="halt injected at every observed event and at random times, bounded-progress watchdog and after-halt execution monitor; ASan/UBSan and TSan builds",
     note=EXP % STAND)

prop("C13", "A job can be created, controlled and destroyed at any time without harm",
     "Destroying a job, in whatever state it is and whatever its procedure is doing (waiting, asking the user, running parallel or included branches), returns after stopping all its activity; afterwards no notification reaches the user interface and no thread of the job exists. "
     "Using a job concurrently from several threads, and creating and destroying many jobs, never touches freed memory, races on shared state, deadlocks or leaks.",
     ["schedules", "histories", "programs"],
     "every procedure, every state and every moment of destruction",
     "Unit tests destroy jobs that have finished; destruction in the middle of asynchronous activity is a matter of timing.",
     ["local_job.h", "runner/local_job.cpp", "runner/job_interface_adapter.cpp", "async_runner.h", "procedure/procedure.cpp", "instructions/async_wrapper.cpp"],
     [("terminate command and join in the destructor", L + "runner/async_runner.cpp"), ("order of destruction of runner, interface and procedure", L + "runner/local_job.cpp")],
     ["sanitizer reports", "notifications after destruction", "thread count", "watchdog"],
     tech="random procedures and command sequences with destruction at random events, sanitizers, late-notification monitor and watchdog; ASan/UBSan/LSan and TSan builds",
     note=EXP % STAND)

prop("C14", "Job information and updates let an observer reconstruct the job exactly",
     "The static description of a job lists every variable and every instruction of its procedure exactly once, with unique dense indices, the real tree structure, types, names, categories and attributes. "
     "An observer that applies all published updates of instruction state, variable value, connection state and breakpoints to that description ends, whenever the job is quiet, with exactly the values the procedure has.",
     ["programs", "histories", "schedules"],
     "every procedure and every execution of it, with any number of threads producing updates",
     "Unit tests compare the description of a few fixed procedures; the update stream under execution is not compared with the final state.",
     ["job_info.h", "runner/job_info.cpp", "runner/job_info_utils.cpp", "runner/job_interface_adapter.cpp", "runner/instruction_map.cpp", "runner/variable_map.cpp", "runner/job_map.cpp", "runner/instruction_info.cpp", "runner/instruction_info_utils.cpp", "runner/variable_info.cpp", "runner/workspace_info.cpp"],
     [("index maps built once per procedure", L + "runner/instruction_map.cpp, runner/variable_map.cpp"), ("adapter translating pointers to indices", L + "runner/job_interface_adapter.cpp")],
     ["job description", "update stream", "values read from the quiet procedure"],
     tech="observer model fed by the recorded update stream compared with the live procedure at quiescence, structural invariants of the description, over random procedures; ASan/UBSan and TSan builds",
     note=EXP % STAND)

prop("C15", "Included procedures behave as if written in place, with their parameters",
     "Including an instruction tree or another procedure executes it as if its instructions were written in place, with every placeholder replaced by the given parameter, in the caller's workspace for trees and in the included procedure's own workspace otherwise. "
     "Missing or unreadable files, missing parameters, unknown names and recursive inclusion are reported as setup errors and never crash or hang.",
     ["programs", "inputs"],
     "every include structure, nesting and parameter set",
     "Unit tests include one or two files with matching parameters.",
     ["instructions/include.cpp", "instructions/include_procedure.cpp", "instructions/instruction_helper.cpp", "procedure/procedure_store.cpp", "instruction_utils.h", "instructions/instruction_utils.cpp"],
     [("clone and placeholder substitution at setup", L + "instructions/instruction_helper.cpp")],
     ["leaf executions and their resolved attributes", "setup exceptions"],
     tech="differential execution of random procedures against their hand-inlined equivalents; fault cases with exception oracle; ASan/UBSan build",
     note=EXP % STAND)

prop("C16", "A reset procedure runs again exactly as the first time",
     "After a procedure has finished, been halted or been paused, resetting it restores every instruction to not started and every workspace variable to its initial state, and executing it again gives the same executions, status changes, variable changes and result as the first execution of a fresh copy.",
     ["programs", "histories"],
     "every procedure and every point at which it is reset, any number of times",
     "Unit tests reset a few procedures after completion and look at one status.",
     ["procedure/procedure.cpp", "instructions/instruction.cpp", "procedure/workspace.cpp", "variables/variable.cpp", "variables/local_variable.cpp", "instructions/for.cpp", "instructions/repeat.cpp", "instructions/choice.cpp"],
     [("reset hooks of instructions and variables", L + "instructions/*.cpp ResetHook, variables/*.cpp")],
     ["trace of executions, statuses and variable changes of each run"],
     tech="trace equality between the run after a reset at a random point and a fresh run, over random procedures; ASan/UBSan build",
     note=EXP % STAND)

prop("C17", "Ill-formed procedures are rejected at setup, well-formed ones accepted",
     "An instruction or variable whose attributes are missing, malformed, out of range or in forbidden combination, a decorator or compound with the wrong number of children, variables with the same name, and a procedure without a usable root are refused when the procedure is set up, by an exception of the library that names the problem. "
     "Whenever every documented constraint is met, setup succeeds, and attribute values taken from the workspace that cannot be converted make the instruction fail rather than crash.",
     ["inputs", "programs"],
     "every instruction and variable type, every attribute subset and value",
     "Unit tests try one or two bad attributes per instruction type.",
     ["attributes/attribute_validator.cpp", "attributes/attribute_handler.cpp", "attributes/concrete_constraints.cpp", "attributes/constraint.cpp", "attributes/attribute_definition.cpp", "attributes/attribute_properties.cpp", "attributes/attribute_utils.cpp", "instructions/instruction.cpp", "variables/variable.cpp", "procedure/procedure.cpp"],
     [("attribute definitions and constraints validated at setup", L + "attributes/attribute_handler.cpp")],
     ["outcome of setup: accepted, or exception type and text"],
     tech="generated attribute combinations judged by an independent predicate for each type; ASan/UBSan build",
     note=EXP % STAND)

prop("C18", "A workspace behaves as a typed record store with change notifications",
     "Reading a variable or any of its fields gives the value last successfully written there, other fields and variables are untouched, and a write that cannot be converted to the variable's type (unless the variable is dynamically typed) is refused and changes nothing. "
     "Every successful change is notified once, under the variable's name, with the complete value the variable then has and its availability, and a failed or rejected write is not. "
     "Setting up, resetting and tearing down a workspace restore the declared initial values in any order of use.",
     ["histories", "inputs"],
     "every sequence of variable additions, reads, writes, resets and callbacks over values of every type",
     "Unit tests write a few scalars and one structure.",
     ["procedure/workspace.cpp", "workspace.h", "variables/variable.cpp", "variables/local_variable.cpp", "variable.h"],
     [("typed assignment guarded by conversion", L + "variables/local_variable.cpp"), ("notification after each change", L + "variables/variable.cpp")],
     ["results of reads and writes", "notifications received"],
     tech="random operation histories compared step by step with an executable model of typed values; ASan/UBSan build",
     note=EXP % STAND)

prop("C19", "Concurrent use of a workspace is atomic and wakes every waiter",
     "Reads and writes of a variable by any number of threads take effect atomically: every value read is one that was written as a whole, in an order consistent with real time, and callbacks see the changes of a variable in the order they were made. "
     "A thread waiting for a condition on a variable returns as soon as the condition has become true, whatever the timing, and otherwise at its timeout.",
     ["schedules", "histories"],
     "every number of reader, writer, resetter and waiting threads and every interleaving",
     "Unit tests have one writer and one waiter; a lost wake-up or a torn value needs a precise interleaving.",
     ["procedure/workspace.cpp", "variables/variable.cpp", "workspace.h"],
     [("per-variable access mutex", L + "variables/variable.cpp"), ("condition variable notified on change", L + "procedure/workspace.cpp WaitForVariable")],
     ["call and return events of reads and writes with unique values", "callback order", "return of waiting calls"],
     tech="register linearizability checking of recorded histories with unique multi-field values, callback order monitor, bounded wake-up; ASan/UBSan and TSan builds with injected delays",
     note=EXP % STAND)

prop("C20", "A file variable stores and returns values faithfully",
     "A value written to a file variable is what a later read returns, also through another variable on the same file or after the procedure is gone, for values of every type. "
     "A missing, unreadable or corrupt file makes reading fail without crashing or changing anything else, and a write that cannot be stored is reported as failed.",
     ["inputs", "fault_sequences"],
     "every value, every file content and every failure of the file system",
     "Unit tests store two values in a writable directory.",
     ["variables/file_variable.cpp", "base/anyvalue_utils.cpp", "anyvalue_utils.h"],
     [("JSON serialisation of type and value", L + "variables/file_variable.cpp")],
     ["values read back", "file contents", "results of calls"],
     tech="random values and injected file faults (missing, truncated, corrupted, directories, read-only) with a round-trip oracle; ASan/UBSan build",
     note=EXP % STAND)

prop("C21", "Data instructions compute exactly what they are documented to",
     "Copying, comparing, incrementing, decrementing, adding members and elements, testing existence and truth, and resetting variables have exactly the documented effect on the workspace, for operands of every type and for whole variables and fields alike. "
     "When an operand is missing or unsuitable the instruction fails, reports it in the log, and changes nothing.",
     ["inputs", "programs"],
     "every pair of operand types and values, including extremes, and every field path",
     "Unit tests use a few integers; mixed types, extremes, negative and unsigned values, and nested fields are not covered.",
     ["instructions/copy.cpp", "instructions/copy_to_procedure.cpp", "instructions/copy_from_procedure.cpp", "instructions/equals.cpp", "instructions/greaterthan.cpp", "instructions/greaterthanorequal.cpp", "instructions/lessthan.cpp", "instructions/lessthanorequal.cpp", "instructions/increment.cpp", "instructions/decrement.cpp", "instructions/add_member.cpp", "instructions/add_element.cpp", "instructions/var_exists.cpp", "instructions/condition.cpp", "instructions/reset_variable.cpp"],
     [("operations on values read from the workspace", L + "instructions/*.cpp ExecuteSingleImpl")],
     ["workspace before and after, status, log messages"],
     tech="random operands and field paths judged by an independent exact-arithmetic oracle with frame condition (nothing else changes); ASan/UBSan build",
     note=EXP % STAND)

prop("C22", "Waiting instructions respect their timeouts and conditions",
     "A wait lasts at least its timeout and then succeeds; waiting for a variable or a set of variables succeeds once the condition holds, fails no earlier than its timeout when it never does, and reacts to changes made by other threads meanwhile. "
     "Timeouts that are negative, not finite or too large to represent are refused rather than misinterpreted, and the tick timeout of a procedure bounds how long it idles, never how fast it progresses.",
     ["inputs", "schedules", "configurations"],
     "every timeout value, every moment of the change waited for",
     "Unit tests use one or two fixed timeouts and a change made in advance.",
     ["instructions/wait.cpp", "instructions/wait_for_variable.cpp", "instructions/wait_for_variables.cpp", "instructions/instruction_helper.cpp", "instructions/listen.cpp", "runner/runner.cpp"],
     [("monotonic deadline with halt-aware waiting", L + "instructions/wait*.cpp")],
     ["monotonic times around execution", "statuses"],
     tech="lower-bound timing oracle on the monotonic clock with concurrent changes at random moments and generous upper watchdog; ASan/UBSan and TSan builds",
     note=EXP % STAND)

prop("C23", "Outputs, messages, logs and inputs pass between procedure and user unaltered",
     "Every executed output, message and log instruction delivers its resolved text, value, description and severity to the user interface exactly once, in execution order. "
     "The value, choice or confirmation the user gives is what the procedure uses: an input of a suitable type is stored as given, an unsuitable one makes the instruction fail, and the chosen branch and no other is executed.",
     ["inputs", "programs", "histories"],
     "every value, text, severity and user reply, fixed or taken from the workspace",
     "Unit tests deliver one value of each kind.",
     ["instructions/output.cpp", "instructions/message.cpp", "instructions/log_instruction.cpp", "instructions/input.cpp", "instructions/user_choice.cpp", "instructions/user_confirmation.cpp", "runner/user_interface.cpp", "base/user_input_reply.cpp", "base/user_input_request.cpp"],
     [("user interface calls", L + "instructions/output.cpp, message.cpp, log_instruction.cpp"), ("future-based input", L + "instructions/input.cpp, user_choice.cpp, user_confirmation.cpp")],
     ["calls received by the user interface", "workspace after the input"],
     tech="scripted user interface recording every call, compared with the expected exchange for random procedures and replies; ASan/UBSan and TSan builds",
     note=EXP % STAND)

prop("C24", "Procedures survive a round trip through XML",
     "Converting any procedure to XML text and parsing it back gives a procedure with the same instructions, attributes, structure, root, variables, preamble and procedure settings, which executes identically; doing it twice gives the same text.",
     ["programs", "inputs"],
     "every procedure and every attribute text, including markup characters and non-ASCII text",
     "Unit tests compare two or three fixed procedures.",
     ["parser/procedure_parser.cpp", "parser/instruction_parser.cpp", "parser/variable_parser.cpp", "parser/sequence_parser.cpp", "parser/procedure_to_treedata_utils.cpp", "sequence_parser.h"],
     [("tree data conversion in both directions", L + "parser/*.cpp")],
     ["structure of the parsed procedure", "serialised text", "execution trace"],
     tech="random procedures serialised and parsed with structural and behavioural comparison; ASan/UBSan build",
     note=EXP % STAND)

prop("C25", "No input text can do worse than a library error",
     "Whatever text is given as a procedure file or string, or as the type and value texts inside it, parsing either gives a procedure or reports an error of the library; it never crashes, corrupts memory, leaks or hangs, and setting up and executing what was accepted is as safe.",
     ["inputs"],
     "every text",
     "Unit tests parse well-formed files and a few broken ones.",
     ["parser/sequence_parser.cpp", "parser/procedure_parser.cpp", "parser/instruction_parser.cpp", "parser/variable_parser.cpp", "attributes/attribute_utils.cpp", "procedure/procedure_context.cpp"],
     [("exceptions of the library for every parse error", L + "parser/*.cpp")],
     ["outcome of parsing and set-up", "sanitizer reports"],
     tech="grammar-based and byte-level mutation of procedure texts with an outcome oracle (accepted or library exception) under ASan/UBSan/LSan",
     note=EXP % STAND)

prop("C26", "Registries and named types resolve names to what was registered",
     "An instruction or variable type registered under a name is found under exactly that name, registering a name twice is refused, unknown names are reported as errors, and the list of names is complete. "
     "A data type registered by a procedure's preamble is usable under its name by all its variables whatever the order of registrations and dependencies allowed by the documentation, and does not leak into other procedures.",
     ["histories", "inputs", "schedules"],
     "every sequence of registrations and look-ups, from several threads for look-ups",
     "Unit tests register one or two types.",
     ["instruction_registry.h", "instructions/instruction_registry.cpp", "variable_registry.h", "variables/variable_registry.cpp", "procedure/procedure.cpp", "application_utils.h", "base/application_utils.cpp", "base/generic_utils.cpp"],
     [("name to constructor map", L + "instructions/instruction_registry.cpp, variables/variable_registry.cpp"), ("type registry owned by the procedure", L + "procedure/procedure.cpp")],
     ["results of registration and creation"],
     tech="random registration histories compared with a map model and random preambles with a type oracle; ASan/UBSan and TSan builds",
     note=EXP % STAND)

prop("C27", "Every user input request is answered at most once and can always be cancelled",
     "Each request for user input obtains the reply the user gave to that request and no other, exactly once, however many requests are pending; requests are put to the user one at a time. "
     "Dropping a request cancels it, also while the user is being asked, without affecting others; waiting for a reply returns when the reply is there or when the time is over, and ends all the same when the input source is shut down or fails.",
     ["schedules", "histories", "fault_sequences"],
     "every number of concurrent requests, cancellations, waits and shut-downs, and input functions that fail",
     "Unit tests make one or two requests with a well-behaved input function.",
     ["async_input_adapter.h", "base/async_input_adapter.cpp", "i_user_input_future.h", "base/i_user_input_future.cpp", "base/user_input_request.cpp", "base/user_input_reply.cpp"],
     [("request queue served by one thread", L + "base/async_input_adapter.cpp")],
     ["requests seen by the input function, cancellations, replies seen by each future"],
     tech="exactly-once and pairing monitor over uniquely numbered requests and replies with random cancellation, waiting, throwing and shut-down; ASan/UBSan and TSan builds with injected delays",
     note=EXP % STAND)

prop("C28", "Command-line interfaces accept exactly valid replies, print what they are given",
     "The command-line interface converts what the user types to the requested type exactly when the whole of it denotes a value of that type within its range, and otherwise answers that the input failed; a menu accepts exactly the listed numbers. "
     "Shown values, messages and log lines contain exactly what the procedure sent, filtered by the selected severity, and the daemon interface refuses every request for input and logs the rest.",
     ["inputs"],
     "every typed line, every requested type and every severity filter",
     "There are no tests for the command-line interfaces.",
     ["src/app/oac-tree-cli/cl_interface.cpp", "src/app/oac-tree-daemon/daemon_interface.cpp"],
     [("parser table per scalar type", "src/app/oac-tree-cli/cl_interface.cpp"), ("severity filter", "src/app/oac-tree-cli/cl_interface.cpp, src/app/oac-tree-daemon/daemon_interface.cpp")],
     ["returned values for scripted input lines", "text written to standard output and log"],
     tech="scripted standard input and captured output compared with an independent parser of scalars, over random and boundary texts; ASan/UBSan build",
     note=EXP % STAND)

prop("C29", "Traversals list every instruction once; what is announced next is executed next",
     "The full tree of a procedure lists each instruction exactly once under its real parent and in order, its leaves are exactly the instructions without children, and flattening is level by level. "
     "The instructions announced as next before a tick are those that tick executes first, or whose body starts over in it, for trees without running asynchronous branches, and trees can be moved and stored like any value.",
     ["programs", "histories"],
     "every procedure and every tick of its execution",
     "Unit tests look at three or four fixed trees.",
     ["instruction_tree.h", "instructions/instruction_tree.cpp", "instructions/instruction.cpp", "runner/runner.cpp", "runner/instruction_info_utils.cpp"],
     [("breadth-first walk over child selectors", L + "instructions/instruction_tree.cpp")],
     ["trees returned before each tick", "instructions executed in the tick"],
     tech="structural oracle over random trees and tick-by-tick comparison of announced and executed instructions; ASan/UBSan/LSan build",
     note=EXP % STAND)

prop("C31", "Plugins add their types; helpers for files and job states report what happened",
     "Loading a plugin makes exactly the instruction and variable types it registers available to the procedures parsed from then on, loading it again changes nothing, and a procedure that names a plugin that cannot be loaded is refused with an error of the library. "
     "Creating a folder creates its missing parents and nothing else, and reports success exactly when a folder is there afterwards; a file is reported as existing exactly if it can be opened; a procedure file yields a procedure or a reason, never both; every thread waiting for a job state or for the end of a job is released once that state stays, with the right answer, and not before its time is over otherwise.",
     ["inputs", "histories", "schedules"],
     "every set of plugins, every path and state of the file system, every sequence of job states with any number of waiting threads",
     "Unit tests load one library, create one folder and use one waiting thread.",
     ["parser/sequence_parser.cpp", "parser/procedure_parser.cpp", "base/generic_utils.cpp", "base/application_utils.cpp"],
     [("registration by static objects of the plugin", L + "instruction_registry.h"), ("recursion over missing parents", L + "base/generic_utils.cpp"), ("notification of all waiters", L + "base/application_utils.cpp")],
     ["registered names after loading", "file system before and after", "answers of waiting threads"],
     tech="plugins compiled at check time and loaded by random procedures, file-system snapshots compared with a model of paths, many waiting threads under perturbed locks; ASan/UBSan and TSan builds",
     note=EXP % STAND)

prop("C30", "The engine is free of memory errors, undefined behaviour, races and leaks",
     "Running arbitrary well-formed procedures that use every instruction and variable type, with observers attached and with arbitrary control commands from several threads, never accesses invalid memory, never invokes undefined behaviour, never races on shared data, never leaks and never deadlocks.",
     ["programs", "schedules", "histories"],
     "every procedure over the whole instruction set, every sequence of control commands, every interleaving",
     "The unit tests run each instruction in isolation, without sanitizers and with hardly any concurrency.",
     ["instructions/instruction.cpp", "procedure/procedure.cpp", "procedure/workspace.cpp", "runner/async_runner.cpp", "runner/local_job.cpp", "base/async_input_adapter.cpp"],
     [("locks, ownership by smart pointers, joined futures", L + "**")],
     ["sanitizer reports, watchdog"],
     tech="soak of randomly generated procedures over the whole instruction set and of the repository's own XML resources under random job control; ASan/UBSan/LSan and TSan builds",
     note=EXP % STAND)
