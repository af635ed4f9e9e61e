#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the single source of the property texts)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, state=None, observe=None):
    assert len(title) <= 80, (id, len(title))
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe: a["observe_at"] = observe
    P.append({"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why, "anchors": a})

BC, PR, PJ, RT, SS, SU, CL, MN, SM, VM = ("src/bytecode.rs", "src/process.rs", "src/project.rs", "src/runtime.rs", "src/std_system.rs", "src/std_util.rs", "src/cli.rs", "src/main.rs", "src/slotmap.rs", "src/vecmap.rs")

p("P01", "Every encoded instruction decodes to the same instruction and operands",
  "For every instruction the compiler can write, in every operand shape it uses, the bytes written decode to the same kind of instruction with the same operands in the same order and width, and no two different instructions share an encoding. Operands that are code or data addresses are written so that they are still relocated when the program is packed, and plain operands are not.",
  ["programs"], "all instructions with all operand combinations that the compiler emits, in every program",
  "Tests encode a sample of programs; an opcode that collides or an operand read in the wrong order only shows in a program that uses exactly that instruction with that operand shape.",
  [BC], [("instruction writer", "BinaryWrite for Instruction"), ("instruction reader", "BinaryRead for Instruction"), ("address relocation", "append_prefixed / finalize")])

p("P02", "Compiled code keeps the operand stack balanced",
  "Every expression block compiles to code that leaves exactly one more value on the operand stack than it found, and every statement block to code that leaves it as it found it, on every path through the generated code including loop exits, branches and error handlers. No instruction ever pops a value its block did not push, and every jump the compiler reserves is filled in with a target inside the code it generates.",
  ["programs"], "all programs, all nestings of blocks and all run-time paths through the generated code",
  "A leaked or missing value only shows after many iterations, in a nested position, or on the rarely taken branch of one block kind; tests run few programs and few paths.",
  [BC, PR], [("expression templates", "ByteCodeBuilder::append_expr"), ("statement templates", "ByteCodeBuilder::append_stmt"), ("stack effects", "Process::step_impl")], [("value_stack", "operand stack", "Process")])

p("P03", "A script step always moves on, suspends with a way to resume, or ends",
  "Whenever a step of a script succeeds, the script has either moved to the next or target instruction, or is suspended on exactly one pending operation that resumes right after the instruction that started it, or has ended. A pending operation that is not finished stays pending and changes nothing else; when it finishes, the script continues after the suspended instruction, exactly once.",
  ["programs", "schedules"], "all instructions, all operand values, all completion orders of asynchronous operations",
  "A forgotten advance on one branch hangs or re-executes only for that instruction with that operand; tests cover a few instructions and mostly immediate completions.",
  [PR], [("instruction dispatch", "Process::step_impl"), ("pending operations", "Defer")], [("pos", "current code position", "Process"), ("defer", "the pending operation", "Process")])

p("P04", "A script that ends releases everyone who waits on it",
  "When a script ends - by finishing, by an uncaught error, by stopping itself or by stopping everything - it becomes idle in the same step and gives up its completion barrier, its pending reply obligation and its pending operation. A script that has not ended keeps all of them; answering a message uses its reply obligation up, so that a script answers at most once.",
  ["programs", "histories"], "all ways a script can end, at all points of its execution",
  "Waiters hang only for the one way of ending that forgets one of the resources; tests exercise normal completion.",
  [PR], [("termination", "Process::step")], [("barrier", "completion barrier shared with waiters", "Process"), ("reply_key", "network reply obligation", "Process")])

p("P05", "Catching an error or returning restores the surrounding context exactly",
  "When an error is caught, the call stack, operand stack, warp state, custom script state and handler position are exactly those of the try block that catches it, and the error text is visible in the variable named by that block. When a custom block or ring returns, the caller's position, warp state, operand stack (plus the result), error handlers and custom script state are those of the call.",
  ["programs"], "all nestings of calls, warps and try blocks and all points at which an error or return can happen",
  "Each saved field matters only for one nesting shape (an error thrown inside a warped call inside an expression); tests sample few nestings.",
  [PR], [("error unwinding", "Process::step"), ("calls", "Process::step_impl Call/CallClosure/Return"), ("handlers", "PushHandler/PopHandler")], [("CallFrame", "saved caller context", PR), ("Handler", "saved try context", PR)])

p("P06", "Runaway recursion of any kind ends in a catchable error",
  "Every way a script can call something - custom blocks, rings, asking another sprite to run a ring - first checks the configured call-depth limit, and exceeding it raises an ordinary script error instead of growing the call stack further.",
  ["programs"], "all programs, all call mechanisms, all configured limits",
  "A test of one call mechanism says nothing about the others, and unbounded growth ends in memory exhaustion, not in a test failure.",
  [PR], [("call depth check", "Process::step_impl")], [("max_call_depth", "documented call stack bound", "Settings")])

p("P07", "Every looping block gives other scripts a turn on each iteration",
  "The code generated for every looping or waiting block contains a yield on every path from the loop's start back to it, so an unwarped script in a loop cannot starve other scripts. Inside warp, yields are suppressed, and leaving warp re-enables them.",
  ["programs", "schedules"], "all looping blocks and all paths through their bodies",
  "Starvation only shows when another script competes with that particular loop kind.",
  [BC, PR], [("loop templates", "append_stmt / append_expr"), ("yield and warp", "Process::step_impl Yield/WarpStart/WarpStop")])

p("P08", "No part of a block is lost or duplicated in compilation",
  "For every block kind that compiles, each of its input expressions and each of its nested scripts ends up in the generated code exactly once, and a block kind or input the VM cannot execute is rejected with an error that names it rather than silently skipped. Inputs are evaluated in the order in which the block lists them wherever the instruction consumes them in that order.",
  ["programs"], "all block kinds and all shapes of their inputs",
  "A dropped input changes behaviour only when that input has an effect or a value that matters; tests hold a sample of block kinds.",
  [BC], [("expression compiler", "ByteCodeBuilder::append_expr"), ("statement compiler", "ByteCodeBuilder::append_stmt")])

p("P09", "An operator block performs the operation it names",
  "Every arithmetic, comparison, text, list-wise and query operator keeps its identity from the parsed block through the compiled instruction to the primitive that computes it: addition adds, less-than compares less-than, a sine is a sine, and so on, on scalars and elementwise on lists. Every element gets its own result: results are shared only between equal operands, and random choices are drawn anew for every element. Values of kinds that do not compare are unequal.",
  ["programs", "inputs"], "all operator blocks and all operand values",
  "Two operators that agree on the sampled operands (or a swapped pair never sampled) are indistinguishable to tests.",
  [BC, PR], [("operator compilation", "append_expr"), ("binary operators", "ops::binary_op"), ("unary operators", "ops::unary_op"), ("relations", "ops::check_relation")])

p("P10", "No script can make the VM borrow a cell it already has borrowed",
  "While the VM holds exclusive access to a list, an entity, a closure or the global context, it never borrows another cell that could be the same one, and it never hands control to host code that can reach a cell while it holds a conflicting borrow of that cell. Aliased inputs (a list used as its own index, a message sent from within itself, a sprite pointing at itself) therefore cannot crash the VM.",
  ["programs", "inputs"], "all aliasing between the operands of any instruction",
  "The double borrow panics only when two operands are the same object; tests pass distinct objects.",
  [PR, PJ, RT], [("cell borrows", "RefLock::borrow / borrow_mut across the interpreter"), ("system calls", "perform_request / perform_command")])

p("P11", "Lists that contain themselves never hang or overflow the VM",
  "Every operation that walks nested lists - comparing, formatting, flattening, measuring, converting, elementwise arithmetic - notices a list it is already inside of, and stops or reports a cycle error instead of recursing forever.",
  ["inputs"], "all list structures, including cyclic ones",
  "Cyclic inputs exist only if a test builds one for that specific operation.",
  [PR, RT], [("cycle caches", "recursive list traversals in ops and Value")])

p("P12", "List positions are validated against the list they index",
  "Every element access, insertion or removal a script asks for uses an index that was checked against the length of that same list at that time, or is guarded by an emptiness check; a bad index yields a script error and leaves the list unchanged.",
  ["inputs"], "all index values and list lengths",
  "Off-by-one and wrong-length checks only fail at particular boundary values.",
  [PR], [("index preparation", "ops::prep_index / prep_index_set / prep_rand_index"), ("list instructions", "Process::step_impl")])

p("P13", "No script ever observes a number that is not a finite number",
  "Every numeric value that reaches a script - from arithmetic, parsing, conversion, the system, properties or the project file - is a finite number: it is made by the checked constructor, which rejects not-a-number and both infinities (and stores negative zero as zero) and changes no other value. A rejected result becomes a script error (or, while parsing text or a project, a failed parse); it is never replaced by another value and never crashes the host. No other code can build a number, except reading back bytecode that was serialised before.",
  ["inputs"], "all operand values of all numeric operations",
  "NaN and infinity arise only for particular operands (0/0, inf-inf, sqrt of a negative, overflow).",
  [RT, PR], [("checked numbers", "Number / NumberChecker")])

p("P14", "Only the list-modifying blocks modify a list",
  "The elements of an existing list change only through the blocks that insert, replace or remove items; every reporter, comparison, conversion and loop works on the list without modifying it, the list a for-each loop consumes is its own copy, and the blocks that build a list (list of, all but first of, reversed, in front of, append, flatten, combinations) report a new one.",
  ["programs"], "all programs and all sharing of lists between variables",
  "An accidental in-place edit is invisible unless the test still holds another reference to the same list and looks at it.",
  [PR, BC, RT], [("list mutation", "borrow_mut on list cells"), ("for-each copy", "append_stmt ForeachLoop")])

p("P15", "Clones get their own variables, rings share the ones they capture",
  "A cloned sprite starts with its own copy of every sprite variable, so later changes on either side are invisible to the other; a ring or upvar keeps referring to the very variable it captured. Declaring a script variable always creates a fresh one.",
  ["programs", "histories"], "all interleavings of cloning, capturing and assigning",
  "Aliasing bugs show only when one side writes after the split and the other side reads.",
  [RT, PR, PJ], [("shared variables", "Shared / SymbolTable"), ("clone block", "Process::step_impl Clone"), ("closures", "MakeClosure / prep_call_closure / InitUpvar")])

p("P16", "No failure inside the VM is silently dropped",
  "Whenever an operation the interpreter, scheduler or loader relies on reports a failure, the failure is passed on as a script error, converted to a documented fallback, or reported to the host; it is never discarded with execution continuing as if it had succeeded.",
  ["inputs", "fault_sequences"], "all operations that can fail",
  "A dropped error only matters when that operation fails, which tests rarely provoke.",
  [PR, PJ, RT, BC, SS, CL], [("error propagation", "Result-returning calls")])

p("P17", "Every accepted external request is answered exactly once",
  "Each request or command the built-in system, property handling or command-line hosts accept is completed exactly once on every path, with a value or an error, or handed over to the component that will complete it; one that is not accepted is returned uncompleted together with the original request. A handler the embedding program supplies is asked before the built-in one. No script can therefore hang on, or be answered twice by, a request that was accepted.",
  ["inputs", "histories"], "all requests and commands and all paths of their handlers",
  "A path that forgets to complete hangs only the script whose request takes that path.",
  [RT, SS, CL, MN], [("request keys", "Key::complete"), ("property commands", "Property / EntityState perform_*"), ("handlers", "Config request/command closures")])

p("P18", "Answers and failures of requests land where the script looks for them",
  "The outcome of a remote call, a syscall or a question goes to the place its block documents: results onto the operand stack or into the answer, failures into the matching last-error slot (cleared by a later success) when soft errors are configured for that kind of request, and as a script error when hard errors are configured for it.",
  ["histories", "configurations"], "all outcomes of requests under all error-handling settings",
  "Mixing up two settings or two slots is invisible unless both kinds fail in the same test under different settings.",
  [PR], [("request outcomes", "process_result / Defer::Request")], [("last_rpc_error", "last remote call failure", "Process"), ("last_syscall_error", "last syscall failure", "Process"), ("last_answer", "last answer", "Process")])

p("P19", "An unsupported request is reported as exactly the feature it needs",
  "Every kind of external request and command is associated with the feature of the same meaning, and a system that does not support it fails the script with an error naming that feature rather than another one or none.",
  ["configurations"], "all request and command kinds",
  "Only a configuration that lacks precisely that feature reveals a wrong association.",
  [RT, SS], [("feature mapping", "Request::feature / Command::feature"), ("unsupported fallback", "StdSystem perform_request / perform_command")])

p("P20", "The VM core reaches the outside world only through the host system",
  "Compilation, execution and scheduling read no clock, randomness, environment, file, network or global mutable state except through the system object supplied by the host, so the same program, system answers and inputs always give the same execution.",
  ["configurations", "schedules"], "all code of the core modules",
  "A hidden source of nondeterminism agrees with itself most of the time.",
  [RT, PR, PJ, BC, SM, VM, "src/util.rs"], [("host interface", "System trait")])

p("P21", "The crate stays free of unsafe code and of hand-written GC tracing",
  "The library contains no unsafe code, the compiler is told to reject any, and every type that can hold garbage-collected pointers derives its tracing from its fields, so no script can cause memory unsafety or a use after collection.",
  ["programs"], "all code of the library crate",
  "Memory unsafety may never manifest in a test run.",
  ["src/lib.rs", RT, PR, PJ], [("unsafe ban", "crate attributes"), ("tracing", "Collect derives")])

p("P22", "Every documented feature combination builds, including without std",
  "The library type-checks with no default features, with the standard library only, with the built-in system, and with the command line enabled, so embedded hosts can rely on the core needing neither std nor the system layer.",
  ["configurations"], "all documented feature combinations",
  "The test suite only builds the default configuration.",
  ["src/lib.rs", "Cargo.toml"], [("feature gates", "cfg(feature)")])

p("P23", "Each stop block stops exactly the scripts it names",
  "Stopping everything ends every running script and discards all queued starts; stopping the other scripts of a sprite or all other scripts spares the requester; stopping a script ends only that one; and stopping from outside behaves like stopping everything. A stopped script never runs again and scripts outside the named set keep running.",
  ["schedules", "histories"], "all sets of running and queued scripts at the moment of stopping",
  "The wrong set only differs when several scripts of several sprites are running or queued at that moment.",
  [PJ, BC], [("abort handling", "Project::step Abort"), ("external stop", "Project::input Stop"), ("stop block", "append_stmt Stop")])

p("P24", "The scheduler neither loses nor revives a script",
  "Every script the scheduler takes from the run queue is, in the same step, either put back into the queue or removed from the set of processes, and every new process is entered into both; an error or termination removes it, anything else requeues it. A queue entry whose process is gone is skipped, never trusted.",
  ["schedules", "histories"], "all sequences of steps, starts, stops and errors",
  "A lost or doubled queue entry needs a particular order of events to show.",
  [PJ], [("scheduling", "Project::step / State"), ("process table", "SlotMap of processes")], [("process_queue", "round-robin run queue", "State"), ("processes", "live processes", "State")])

p("P25", "A queued start of a script runs as soon as the script is free",
  "When a script is triggered while a previous run of it is still going, the new start is queued and begins once that run is over, however it ended; a restarting trigger replaces the running one and drops what was queued. Queued starts never wait on a script that is no longer running.",
  ["schedules", "histories"], "all orders of triggers and completions",
  "Only a trigger that arrives during a run, combined with one particular way of ending, shows a stalled queue.",
  [PJ], [("script queue", "Script::consume_context / schedule"), ("queue pump", "AllContextsConsumer")], [("context_queue", "pending starts", "Script")])

p("P26", "Broadcast-and-wait waits for exactly the scripts it started",
  "A waiting broadcast resumes only after every script it triggered has ended or was cancelled, since each of them - running or still queued - holds the broadcast's barrier until then; a plain broadcast never waits. A network message that expects a reply passes its reply obligation to the scripts it starts.",
  ["schedules", "histories"], "all sets of receivers and all completion orders",
  "Missing one holder of the barrier shows only when that receiver is the last to finish.",
  [PJ, PR, RT], [("barrier", "Barrier / BarrierCondition"), ("dispatch", "Project::step Broadcast"), ("waiting", "Defer::Barrier")])

p("P27", "Each event starts exactly the scripts bound to it",
  "The start flag, key presses, local messages, network messages, clone creation and custom conditions each start all scripts bound to that very event - on the right sprite and with the message contents in the declared variables - and no script bound to another event. Messages addressed to particular sprites reach only their scripts.",
  ["programs", "histories"], "all combinations of scripts and events",
  "A missed or extra receiver shows only in a project that has that combination of scripts.",
  [PJ, BC], [("event dispatch", "Project::input / Project::step"), ("event binding", "bytecode Event")])

p("P28", "Clones gain all scripts of their original and deletion removes all traces",
  "A new clone is bound to a copy of every script of the sprite it was cloned from, and deleting a clone - which is only possible for clones - ends its running scripts, removes its bound scripts and lets no event start a script on it again, while other sprites are unaffected.",
  ["histories"], "all sequences of cloning, deleting and triggering",
  "A leftover script or a missing one shows only after a later event reaches the clone.",
  [PJ, PR], [("clone creation", "Project::step CreatedClone"), ("clone deletion", "Project::step DeletedClone"), ("clone blocks", "Process::step_impl Clone/DeleteClone")])

p("P29", "A stale handle never reaches a newer occupant of its slot",
  "In the slot container, a handle gives access only to the value it was created for: removing a value, by any route, invalidates all handles to it even after the slot is reused, and the reported size always equals the number of values present.",
  ["histories"], "all sequences of insertions, removals, clears and lookups",
  "Reuse of a slot after removal along one particular route is needed to see a stale handle succeed.",
  [SM], [("generational slots", "SlotMap")], [("generation", "slot reuse counter", SM)])

p("P30", "The sorted map keeps its keys sorted and unique",
  "In the vector map, keys change only through operations that keep them unique and, for the sorted flavour, in ascending order; lookups use the search that matches the flavour, and no mutable access to keys is handed out.",
  ["histories"], "all sequences of operations",
  "A misplaced insertion is only visible to later lookups of particular keys.",
  [VM], [("insertion", "VecMap::insert / get_or_insert_with"), ("lookup", "VecMap::get / get_mut")])

p("P31", "Reading, setting and changing a sprite property concern the same property",
  "For every sprite property, the read, set and change blocks act on the same underlying field with the same unit and the same wrapping or clamping, and changing it by an amount equals reading, adding and setting. Every such access yields a result.",
  ["inputs"], "all properties and all amounts",
  "A property whose set clamps but whose change does not differs only near its limits.",
  [RT], [("property access", "Properties::perform_get_property / set / change")])

p("P32", "A message awaiting a reply gets the first reply or times out, once",
  "A reply is stored only for a message that is still waiting, only the first one counts, the waiting entry is registered before the message is sent and removed when the reply or the timeout is delivered, and every waiting message eventually times out. Every message goes out once with its own type, targets, content and key, and a message from a peer that awaits an answer is delivered with the key that answers it.",
  ["schedules", "histories"], "all orders of sending, replying, polling and timeout, across threads",
  "Duplicate, late and early replies race with polling; tests do not control those orders.",
  [SS], [("reply table", "StdSystem send_message / poll_reply"), ("reply reception", "websocket handler")], [("message_replies", "waiting messages", "StdSystem")])

p("P33", "Host threads never wait while holding a lock, and locks nest in one order",
  "No code in the threaded host layers waits - for a channel, a thread, a timer, the network or the terminal - or runs code of the embedding program while it holds a lock, no lock is taken again by its holder, and where one lock is taken under another the order is the same everywhere, so host threads cannot deadlock each other.",
  ["schedules"], "all interleavings of host threads",
  "A deadlock needs a particular interleaving.",
  [SS, SU, CL], [("mutexes", "Mutex::lock call sites")])

p("P34", "A rejected project or request leaves the execution server unchanged",
  "In server mode an uploaded project replaces the running one, and becomes the one that is served for download, only if it both parses and compiles; otherwise the previous project keeps running and the failure is reported. Every request is answered, malformed requests are refused without effect, and every accepted upload or input is forwarded to the execution loop exactly once.",
  ["inputs", "fault_sequences"], "all uploads and requests",
  "There is no test for the server; partial failures (parses but does not compile) are rare inputs.",
  [CL], [("project replacement", "run_server"), ("http handlers", "run_http")])

p("P35", "The terminal is restored on every way out of interactive mode",
  "From the moment interactive mode switches the terminal into raw mode, every way out - normal exit, failing to load the project, and panics - switches it back and shows the cursor again.",
  ["fault_sequences"], "all exits of interactive mode",
  "Tests do not run in a terminal, and a broken terminal is not observed by assertions.",
  [CL], [("terminal guard", "run_proj_tty")])

p("P36", "Script-supplied numbers are range-checked before they are narrowed",
  "Wherever a number that a script or project supplies becomes a count, an index, a note, a duration or another bounded integer, values outside the target range are rejected with an error or explicitly clamped first, and arithmetic on the result cannot overflow; nothing wraps around silently.",
  ["inputs"], "all numeric inputs of all blocks",
  "Wraparound needs extreme values that sampled tests do not include.",
  [PR, RT, BC], [("numeric conversions", "casts from script numbers")])

p("P37", "A value's reported type, conversions and serialised form all agree",
  "For every kind of value, its reported type, the type tests blocks perform, the typed accessors and the conversions to and from the external representation name the same kind: an accessor succeeds exactly on the kinds it documents and otherwise fails with an error stating the expected and the actual kind, and values that cannot leave the VM are refused rather than altered. What the external (JSON and NetsBlox JSON) forms can express comes back unchanged: list elements in order, text and media names unescaped, media bytes and image centres intact.",
  ["inputs"], "all values of all kinds",
  "A wrong pairing shows only for the one kind that was mixed up.",
  [RT, PR], [("type queries", "Value::get_type / BasicType::to_type"), ("accessors", "Value::as_*"), ("external form", "Value::to_simple / from_simple")])

p("P38", "Arithmetic results are the exact mathematical or IEEE value",
  "Every numeric operator returns the value its mathematical definition and IEEE arithmetic prescribe for the given operands, including rounding, modulus of negative numbers and trigonometry in degrees.",
  ["inputs"], "all operand values", "The operand space is unbounded; tests sample it.",
  [PR], [("operators", "ops::binary_op / ops::unary_op")])
p("P39", "Packing a program preserves every jump target and string",
  "After compilation shrinks and relocates the code, every jump, call and literal refers to the instruction or text it referred to before, for every program size and address width.",
  ["programs"], "all programs, all sizes", "Only programs whose addresses cross an encoding width boundary exercise relocation chains.",
  [BC], [("packing", "ByteCodeBuilder::finalize")])
p("P40", "Encoded source locations decode to the block they were recorded for",
  "For every code position, looking it up in the compact location table gives the location of the block that produced the instruction there, whatever prefixes, suffixes and numbering the project's block identifiers use.",
  ["programs", "inputs"], "all code positions, all identifier formats", "Identifier formats are free text; tests sample a few.",
  [BC], [("location table", "Locations")])
p("P41", "Every script is scheduled again within a bounded number of steps",
  "In a project with a fixed number of running scripts, each script that is not waiting executes again after a bounded number of scheduler steps, whatever the others do.",
  ["schedules"], "all schedules", "Bounded waiting is a statement about unbounded executions.",
  [PJ], [("round robin", "Project::step")])
p("P42", "Values survive a round trip through the external JSON form unchanged",
  "Converting any storable value to the external JSON form and back yields an equal value, including extreme numbers, images, audio and nested lists.",
  ["inputs"], "all storable values", "The value space is unbounded.",
  [RT], [("json form", "SimpleValue::into_netsblox_json / from_netsblox_json")])
p("P43", "Parsing delimited text and formatting it back are inverse",
  "Splitting text as CSV, JSON, lines, words or columns and joining it back yields the original text, and formatting a list and parsing it yields the original list, for all cell contents including quotes, separators and line breaks.",
  ["inputs"], "all texts and lists", "Escaping bugs need particular characters in particular places.",
  [PR], [("csv", "ops::from_csv / ops::to_csv"), ("json", "ListJson / parse")])
p("P44", "A step, a compilation and every other call into the machine comes to an end",
  "Every call a host makes - compiling or linking a project, loading it, taking one step, delivering an input, looking up an error location, reading or writing values - returns (or fails) after finitely much work: every loop runs over something finite, takes from a collection that it does not refill, or counts towards a bound, and stepping through numbers stops when they become too large for a step to change them; and recursion over a project or a plain value only goes into smaller parts of it. A script that loops does so over many steps, never inside one.",
  ["inputs", "programs"], "all projects, all values, all operands", "A loop that never ends needs a particular input (a number too large to count from, a name with odd characters, an entry that is put back); tests run only inputs for which it ends.",
  [PR, PJ, BC, RT], [("ranges", "ops::binary_op / BinaryOp::Range"), ("run queue", "Project::step"), ("work list of closures", "ByteCode::compile"), ("cursors", "Locations::lookup / decode_u64")])

p("P45", "A project starts in the state its file describes",
  "When a project is compiled and loaded, every global variable, every sprite variable, every costume and every sound exists under the name the file gives it and holds the value the file gives it, nested lists item by item in order; a list the file uses in several places is one shared list, and lists it does not share are separate. Each sprite starts at its own position, heading (brought into one turn), size, visibility, pen colour and active costume, with every other property at its default; the first entity is the stage and the others are sprites. Every script with a hat is installed exactly once, on its own sprite, at its own start, for the event its hat names (the key, the message and its parameters included), and scripts without a hat are not. A hat, key or value the machine cannot express is rejected rather than dropped or replaced.",
  ["inputs"], "all projects", "Losing or swapping an item needs a particular combination of kinds of values, sharing, hats and sprites; tests load a few fixed projects.",
  [BC, RT, PJ], [("compile the initial state", "InitInfo / ByteCode::compile"), ("globals and entities", "GlobalContext::from_init"), ("scripts", "Project::from_init")])

p("P46", "Comparing two values gives one answer, decided by their kinds and contents",
  "Two booleans or two numbers compare by value. A number and a text, and two texts, compare as numbers where the texts are numerals and otherwise as text without regard to case. Lists compare element by element from the front: the first elements that do not compare equal decide, and a list that ends first is less. Images, sounds, sprites, closures and native values are equal only to themselves. All other pairs do not compare. The answer is the same seen from the other side, and lists that contain themselves end in an error, not in endless comparison. 'Identical' holds only for one and the same object or for equal booleans, numbers and texts of the same kind. Searching a list finds the first element that compares equal, and reports none only after comparing all of them.",
  ["inputs"], "all pairs of values", "Some of the 81 pairs of kinds never meet in a test, and lists agree up to the element that was not sampled.",
  [PR], [("comparison", "ops::cmp_impl / ops::cmp"), ("identity", "ops::identical"), ("search", "ops::find")])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'properties.jsonl')
with open(out, 'w') as f:
    for x in P: f.write(json.dumps(x) + "\n")
print(len(P), "properties")
