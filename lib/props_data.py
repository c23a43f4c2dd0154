def M(*a):
    return [dict(name=n, where=w) for n, w in a]


def S(*a):
    return list(a)


prop('P01', 'Driver waveforms follow the transport/inertial preemption rules',
     'The value of a signal driver at every simulation time is exactly the one given by the VHDL rules for projected output waveforms, for every sequence of transport, inertial and reject-limited assignments with any delays, multi-element waveforms and null transactions, made to a whole signal, an element or a slice.',
     ['programs', 'histories'],
     'every sequence of up to 3 (thorough 4) assignments from an alphabet of all mechanisms, delays 0..3, rejection limits, values, one and two element waveforms and nulls, with every gap between them, on scalar, array and record signals',
     'the regression suite has a few dozen hand written waveforms; the deletion rules depend on the relative order, equality and distance of all pending transactions, so the histories grow as a product that no list of examples covers',
     ['src/rt/model.c', 'src/rt/structs.h', 'src/lower.c'],
     M(('insertion and preemption of pending transactions', 'src/rt/model.c insert_transaction, sched_driver, sched_disconnect'),
       ('splitting of drivers when parts of a signal are assigned', 'src/rt/model.c split_nexus, clone_source'),
       ('the queue that wakes drivers', 'src/rt/model.c deltaq_insert_driver, update_driver')),
     S(('projected waveform', 'ordered pending transactions of each driver')),
     'explicit-state model of projected waveforms; every bounded assignment history replayed on real nvc', 'model_checking',
     'All assignment histories within the stated bounds are executed by the real simulator (interpreter, JIT and AOT code) and every transaction compared with the model. Trusts the reference model (40 lines, LRM 10.5.2.2) and nvc binary file output.')

prop('P02', 'Signal values are the resolution of all their sources',
     'After every simulation cycle each signal has the value obtained by applying its resolution function to the current values of all its connected drivers and ports, each contributing exactly once, whatever the order of updates, the port modes, partial or individual associations, and type conversions on the way up and down the hierarchy.',
     ['programs', 'histories'],
     'all driver value combinations and update orders for 1..4 sources over hierarchies of in/out/inout/buffer ports with whole, sliced and per-element association and conversions; all nine values of the standard resolved type',
     'tests contain one fixed topology each; missed or duplicated sources appear only for particular combinations of split signals, order of updates and depth of hierarchy',
     ['src/rt/model.c', 'src/elab.c', 'src/lower.c'],
     M(('driving value calculation', 'src/rt/model.c calculate_driving_value, call_resolution'),
       ('port maps collapse and conversion', 'src/rt/model.c x_map_signal, x_map_const, convert_driving')),
     S(('resolution memo table', 'cached results for one and two sources')),
     'exhaustive enumeration of topologies and driver histories against a reference resolver', 'model_checking', '')

prop('P03', 'Processes resume exactly when their wait condition says',
     'A process resumes in exactly those simulation cycles in which a signal of its sensitivity set has an event and its condition is true, or its timeout expires; it then runs exactly once per cycle, in delta and time order, with postponed processes in the last delta of a time step.',
     ['programs', 'histories'],
     'every combination of sensitivity, condition and timeout forms with every short history of signal changes, including changes in the same delta as the timeout and repeated waits',
     'spurious and lost wakeups need a specific coincidence of an event, a condition and a pending timeout in one cycle; the tests check chosen coincidences only',
     ['src/rt/model.c', 'src/lower.c', 'src/simp.c'],
     M(('sensitivity and trigger bookkeeping', 'src/rt/model.c sched_event, clear_event, run_trigger, wakeup_one'),
       ('timeouts', 'src/rt/model.c deltaq_insert_proc, x_sched_process')),
     S(('wakeup generation', 'stale wakeups are ignored')),
     'exhaustive wait statement x stimulus history exploration against a delta-cycle reference simulator', 'model_checking', '')

prop('P04', 'Signal attributes report the true history of the signal',
     "At every point the attributes 'event, 'active, 'last_event, 'last_active, 'last_value, 'delayed, 'stable, 'quiet, 'transaction, 'driving and 'driving_value of a signal agree with the sequence of transactions and events that the signal has actually had.",
     ['programs', 'histories'],
     'all bounded histories of transactions with equal and different values, delays 0..3 including several deltas in one time step, observed at every delta; scalar, array and record prefixes',
     'each attribute keeps its own cached state that is invalidated at different points; only particular interleavings of events, inactive deltas and time steps reveal a stale one',
     ['src/rt/model.c', 'src/lower.c'],
     M(('event and activity stamps', 'src/rt/model.c x_test_event, x_test_active, x_last_event, x_last_active'),
       ('implicit signals', 'src/rt/model.c update_implicit_signal')),
     S(('last event and active delta stamps', 'per nexus time stamps')),
     'exhaustive transaction history enumeration, attributes compared with a reference at every delta', 'model_checking', '')

prop('P05', 'Force overrides and release restores a signal',
     'While a signal or a part of it is forced every reader sees the forced value regardless of driver activity, and after release it takes the value its drivers have at that moment; forcing one part never disturbs another part.',
     ['histories'],
     'all sequences of force in/out, release and driver assignments up to depth 4 on scalars, elements, slices and whole arrays, with ports',
     'forcing adds hidden sources to a signal; combinations of overlapping parts, repeated forces and drivers changing underneath are far more than the handful of tests',
     ['src/rt/model.c', 'src/lower.c'],
     M(('forced sources', 'src/rt/model.c get_pseudo_source, force_signal, x_release')),
     S(('pseudo sources', 'per nexus forcing and deposit values')),
     'bounded exploration of all force/release/drive sequences against a reference model', 'model_checking', '')

prop('P06', 'Results do not depend on how the design is executed',
     'A design produces the same output, messages and exit status whether its code is interpreted, compiled just in time or ahead of time at any optimisation level, with or without signal collapsing, coverage collection or waveform dumping, and whether or not the elaborated design is saved and reloaded.',
     ['configurations', 'programs'],
     'every execution configuration applied to a family of programs that covers the operators, types, control and signal constructs exhaustively for small sizes',
     'the suite runs each test in one configuration; a miscompilation shows only when the same code is run by two back ends on the same data',
     ['src/jit', 'src/vcode.c', 'src/vlsi.c', 'src/cgen.c'],
     M(('interpreter', 'src/jit/jit-interp.c'), ('LLVM code generation', 'src/jit/jit-llvm.c'), ('IR generation and optimisation', 'src/jit/jit-irgen.c, src/jit/jit-optim.c, src/vcode.c')),
     (), 'exhaustive configuration product over enumerated programs, outputs compared pairwise and with a reference', 'model_checking', '')

prop('P07', 'Arithmetic is exact or reported as an error',
     'Every predefined arithmetic, relational, shift and logical operator and type conversion on scalars yields the mathematically defined result for its operand values, or the program stops with an error when the result cannot be represented in the type (for types of at most 32 bits; overflow of 64-bit addition, subtraction and multiplication is excluded because the test suite requires it to wrap) or the divisor is zero, identically for constants folded by the compiler and values computed at run time.',
     ['inputs', 'programs'],
     'all operators on all pairs from a boundary-value alphabet of every integer width, physical and real types, and complete 8-bit ranges, each evaluated as static expression, folded constant and run-time expression',
     'overflow and sign errors sit at a few boundary pairs per operator, width and execution path, and folding and run time are separate implementations',
     ['src/simp.c', 'src/lower.c', 'src/vcode.c', 'src/jit/jit-interp.c', 'src/jit/jit-llvm.c', 'src/jit/jit-irgen.c'],
     M(('overflow checks', 'src/jit/jit-irgen.c irgen_op_trap_add ...'), ('constant folding', 'src/simp.c, src/eval.c')),
     (), 'exhaustive operator x operand enumeration against exact integer semantics', 'model_checking', '')

prop('P08', 'Array operations compute the language-defined result',
     'Concatenation, slicing, indexing, aggregates, comparison, logical, shift and rotate operators and conversions on arrays yield the elements, length, direction and bounds that VHDL defines, for every combination of operand lengths, bounds and directions including null arrays.',
     ['inputs', 'programs'],
     'all operands with lengths 0..4, ascending and descending with different left bounds, all element values from a two-value alphabet, all shift amounts',
     'null ranges, descending bounds and one-element cases combine into thousands of variants of which tests hold a few',
     ['src/lower.c', 'src/simp.c', 'src/bounds.c', 'src/jit/jit-exits.c', 'src/rt/standard.c'],
     M(('array lowering', 'src/lower.c lower_concat, lower_aggregate, lower_array_slice'), ('predefined array operators', 'src/lower.c lower_predef')),
     (), 'exhaustive operand shape and value enumeration against a reference', 'model_checking', '')

prop('P09', 'Out-of-range accesses are always caught and legal ones never',
     'Every index, slice, conversion, assignment, parameter, return value and allocation that is outside the bounds or length VHDL requires stops the program with an error before any effect, and no access that is inside them is rejected.',
     ['inputs', 'programs'],
     'all indices, slices, values and lengths from an interval that extends two beyond each bound, for ascending, descending and null ranges, in static and run-time form for every kind of check',
     'checks may be elided, folded or merged; an off-by-one affects one side of one direction only',
     ['src/lower.c', 'src/bounds.c', 'src/vcode.c', 'src/jit/jit-irgen.c', 'src/jit/jit-exits.c'],
     M(('range and index checks', 'src/lower.c lower_check_scalar_bounds, lower_check_array_sizes'), ('static checks', 'src/bounds.c'), ('elision', 'src/vcode.c emit_range_check, emit_index_check')),
     (), 'exhaustive enumeration of bound/access pairs against the definition', 'model_checking', '')

prop('P10', 'IEEE packages compute the standard-defined functions',
     'Every operator and function of the supplied std_logic_1164 and numeric packages returns the value defined by the IEEE standard for all inputs including metavalues and all operand widths, also where the implementation substitutes native code for the VHDL source.',
     ['inputs', 'configurations'],
     'all nine-value operand pairs, all vectors up to width 4 with representative metavalues, and all unsigned/signed pairs up to width 5, with native substitutes active',
     'the native substitutes are a second implementation that tests compare for a few vectors; metavalue and width corner cases multiply',
     ['src/jit/jit-intrin.c', 'lib/ieee.08', 'src/rt/standard.c'],
     M(('native substitutes', 'src/jit/jit-intrin.c'), ('VHDL source', 'lib/ieee.08/*.vhdl')),
     (), 'exhaustive input enumeration against a reference of the nine-value algebra', 'model_checking', '')

prop('P11', 'Selection statements take exactly the right branch',
     'Case, matching case, selected and conditional assignments, if chains, loops with exit and next, and return execute exactly the branch and iterations VHDL defines, for every choice layout (single values, ranges, overlapping others, strings, enumerations) and every selector value.',
     ['programs', 'inputs'],
     'all partitions of a small selector domain into choices, in every form of choice and for integer, enumeration, string and 64-bit selectors, evaluated for every selector value; all nested loop exit patterns up to depth 3',
     'dispatch is compiled to jump tables, binary searches or hashes depending on the number and shape of the choices, so each shape is a separate algorithm',
     ['src/lower.c', 'src/simp.c', 'src/vcode.c', 'src/jit/jit-irgen.c', 'src/jit/jit-llvm.c'],
     M(('case lowering', 'src/lower.c lower_case_scalar, lower_case_array'), ('branch optimisation', 'src/vcode.c emit_cond, src/jit/jit-optim.c')),
     (), 'exhaustive enumeration of choice layouts x selectors against direct evaluation', 'model_checking', '')

prop('P12', 'Text conversion round-trips every value',
     "Converting any scalar or bit-like array value to text with 'image, to_string or a text output procedure and back with 'value or a text input procedure yields the original value, and malformed text is rejected rather than misread.",
     ['inputs'],
     'all enumeration literals, boundary integers, physical values in every unit, reals, all vectors up to width 8, all field justifications, and all short strings over a lexical alphabet as input to conversion',
     'parsers accept an unbounded language; tests feed the common spellings only',
     ['src/rt/stdenv.c', 'src/common.c', 'src/lower.c', 'lib/std.08/textio-body.vhd', 'src/jit/jit-exits.c'],
     M(("'image and 'value", 'src/lower.c lower_image_helper, lower_value_helper; lib/nvc.08/text_util'), ('text I/O', 'lib/std/textio-body.vhd')),
     (), 'exhaustive enumeration of values and short strings, round trip plus reference grammar', 'model_checking', '')

prop('P13', 'Separately compiled libraries behave like one compilation',
     'A design analysed file by file into libraries on disk and elaborated or run by later invocations behaves exactly as when everything is done in one invocation, for every split of the files and every legal order of analysis.',
     ['histories', 'configurations'],
     'all legal analysis orders and all splits of the command sequence over processes for projects of up to five units that exercise every kind of stored object',
     'tests run everything in one invocation; serialisation errors appear only when a particular kind of node is reloaded',
     ['src/lib.c', 'src/object.c', 'src/fbuf.c', 'src/ident.c', 'src/tree.c', 'src/type.c', 'src/jit/jit-pack.c'],
     M(('library files', 'src/lib.c'), ('object serialisation', 'src/object.c'), ('packed JIT code', 'src/jit/jit-pack.c')),
     S(('library index', 'on-disk list of units and dependencies')),
     'exhaustive enumeration of analysis orders and process splits, compared with the single-invocation run', 'model_checking', '')

prop('P14', 'A damaged library file is reported, never used',
     'When the contents of a stored library file are changed or cut short in any way, loading it ends with an error message and a failure status; nvc never crashes, hangs or silently uses the damaged unit.',
     ['fault_sequences', 'inputs'],
     'every truncation length and every single-byte corruption (several bit patterns per byte) of the stored unit and index files of a small library',
     'no test corrupts a file; each offset is a different failure path in the decompressor and reader',
     ['src/fbuf.c', 'src/object.c', 'src/lib.c', 'src/ident.c', 'thirdparty/fastlz.c'],
     M(('checksummed, compressed file format', 'src/fbuf.c'), ('object reader', 'src/object.c object_read')),
     (), 'exhaustive single-fault enumeration over file bytes', 'fault_enumeration', '')

prop('P15', 'An interrupted analysis leaves the library usable',
     'If nvc is killed or a file operation fails at any point while it saves to a library, a later run sees for each unit either the old or the new version in full, never a mixture or an unreadable library.',
     ['crash_points', 'fault_sequences'],
     'every file-system call made while saving, killed before and after it and failed with an error, followed by a fresh run over the library',
     'needs a crash between particular system calls',
     ['src/lib.c', 'src/fbuf.c', 'src/util.c'],
     M(('write to temporary then rename', 'src/lib.c lib_save, src/fbuf.c fbuf_close'), ('library lock file', 'src/lib.c file_write_lock')),
     (), 'exhaustive crash-point enumeration at every file-system call of the real binary', 'fault_enumeration', '')

prop('P16', 'Units that depend on changed units are never silently reused',
     'After any sequence of edits and re-analyses, elaborating a design either uses code consistent with the latest analysed version of every unit it depends on, or is refused with an error telling which unit is out of date.',
     ['histories'],
     'all sequences of up to four edit/analyse steps over a package, package body, two entities and a configuration with changing interface values',
     'staleness depends on order of analysis across units; tests have two or three fixed orders',
     ['src/lib.c', 'src/common.c', 'src/names.c', 'src/elab.c'],
     M(('dependency checksums', 'src/lib.c, src/object.c'), ('time stamps', 'src/lib.c')),
     (), 'exhaustive edit/analysis history enumeration with a version-tracking oracle', 'model_checking', '')

prop('P17', 'Locks give mutual exclusion and always make progress',
     'For every interleaving of threads, at most one thread is inside a critical section protected by the same lock, every waiter eventually enters once the holder leaves, and no wakeup is lost; no thread passes a barrier before all have reached it; and while the world is stopped no other thread runs.',
     ['schedules'],
     'every interleaving with up to a bounded number of preemptions of 2 and 3 threads locking and unlocking 1 and 2 locks, with the real lock and parking code',
     'the interleavings that lose a wakeup need preemption at one particular instruction',
     ['src/thread.c', 'src/thread.h'],
     M(('one-byte locks and the parking bay', 'src/thread.c nvc_lock, nvc_unlock, thread_park, thread_unpark')),
     S(('lock byte', 'held and parked bits')),
     'stateless exploration of the real code under a controlled scheduler, preemption bounded', 'model_checking', '')

prop('P18', 'Every queued task runs exactly once before the queue is drained',
     'For every interleaving of the threads that execute a batch of queued tasks, each task is executed exactly once, starting and draining a batch returns only when all its tasks have finished, and asynchronous tasks are complete after the barrier that waits for them.',
     ['schedules'],
     'every preemption-bounded interleaving of the submitting thread with one and two worker threads, batches of up to four tasks, consecutive batches and nested asynchronous tasks',
     'duplicated or lost tasks need a steal racing with a pop at the last element',
     ['src/thread.c'],
     M(('work-stealing deques', 'src/thread.c push_bot, pop_bot, steal_task'), ('global queue and idle workers', 'src/thread.c workq_start, workq_drain, async_do, async_barrier')),
     S(('deque top and bottom', 'versioned indexes')),
     'stateless exploration of the real code under a controlled scheduler, preemption bounded', 'model_checking', '')

prop('P19', 'Concurrent name and object tables behave like sequential maps',
     'For every interleaving of concurrent lookups and insertions, the shared identifier table returns the same unique identifier for equal strings and different ones for different strings, and the concurrent hash table behaves as some sequential order of its operations, including while it is being resized.',
     ['schedules'],
     'every preemption-bounded interleaving of 2 and 3 threads with up to 3 operations on colliding keys, from tables in every fill state around a resize',
     'a lost entry requires an insertion to race with a resize at one point',
     ['src/hash.c', 'src/ident.c'],
     M(('concurrent hash', 'src/hash.c chash_put, chash_get, chash_cas, chash_wait_for_resize'), ('identifier interning', 'src/ident.c ident_from_bytes')),
     S(('root table', 'shared table being resized')),
     'stateless exploration of the real code under a controlled scheduler with a linearizability oracle', 'model_checking', '')

prop('P20', 'Memory is reclaimed only when unreachable',
     'Whatever the sequence of allocations, reference changes and deallocations a design performs, and however small the heap, an object that is still reachable keeps its contents and identity, and memory that is no longer reachable is eventually reusable.',
     ['histories'],
     'every operation sequence up to a bounded depth over allocate, link, unlink, drop and collect with a heap small enough to force collections at every step, at API level and through access types in designs',
     'a premature reuse needs a collection between two specific operations',
     ['src/rt/mspace.c', 'src/mask.c', 'src/jit/jit-exits.c'],
     M(('conservative mark and free-list rebuild', 'src/rt/mspace.c'), ('thread local allocation buffers', 'src/rt/mspace.c tlab_acquire, tlab_reset')),
     S(('head mask', 'which heap lines start an object')),
     'bounded exhaustive operation sequences on the real allocator against a reference object graph', 'model_checking', '')

prop('P21', 'Waveform dumps show exactly the history of the signals',
     'A waveform file, in either format, contains for every dumped signal exactly the value changes that the signal had at each time, with the right initial values, types, hierarchy and final time.',
     ['histories', 'configurations'],
     'all short signal histories for every dumpable type and array shape, both formats, with include/exclude filters',
     'a viewer is needed to see an error; tests compare a few golden files',
     ['src/rt/wave.c', 'thirdparty/fstapi.c'],
     M(('dump writer', 'src/rt/wave.c')),
     (), 'exhaustive bounded histories, dump decoded and compared with the history logged by the design', 'model_checking', '')

prop('P22', 'Coverage counts equal actual executions and merge additively',
     'Reported statement, branch, expression, toggle and state coverage says covered exactly for the items that the run exercised, and merging databases gives the union of their coverage in every order and grouping.',
     ['programs', 'histories'],
     'all input histories up to a bound of a design with every kind of coverage item, all orders and groupings of merging three databases, thresholds and exclusions',
     'each history exercises another subset of the bins; tests have one run per design',
     ['src/cov/cov-data.c', 'src/cov/cov-api.h', 'src/cov/cov-report.c', 'src/lower.c', 'src/rt/cover.c'],
     M(('counters', 'src/cov'), ('merging', 'src/cov/cov-data.c cover_merge')),
     (), 'exhaustive stimulus enumeration, reported counts compared with an executable reference', 'model_checking', '')

prop('P23', 'PSL assertions fail and hold exactly when the property does',
     'An assert or cover directive reports a failure or match at exactly the clock cycles at which the property is violated or matched by the sampled trace according to PSL semantics.',
     ['histories', 'programs'],
     'all Boolean traces up to length 5 for an enumerated family of properties built from always, never, next, until, before, sequences with repetition, implication and abort',
     'automata construction errors need a specific trace; tests use one trace per property',
     ['src/psl/psl-fsm.c', 'src/psl/psl-lower.c', 'src/psl/psl-sem.c', 'src/rt/model.c'],
     M(('automaton construction', 'src/psl/psl-fsm.c'), ('stepping', 'src/rt/model.c update_property')),
     S(('automaton state mask', 'set of active states')),
     'all bounded traces x enumerated properties against a direct trace evaluator', 'model_checking', '')

prop('P24', 'Foreign interfaces observe and change the real simulation state',
     'Through the procedural interfaces a plugin sees the true hierarchy, values, times and events, every registered callback fires exactly at the phases and events it asked for until removed, and values it writes take effect as documented.',
     ['histories'],
     'all sequences up to a bounded depth of register, remove, disable, enable, read and write operations at each phase of a design with known behaviour',
     'the tests have one plugin per feature; the interaction of removal, re-registration and event delivery is not sampled',
     ['src/vhpi/vhpi-model.c', 'src/vpi/vpi-model.c', 'src/rt/model.c'],
     M(('callbacks', 'src/vhpi/vhpi-model.c'), ('events', 'src/rt/model.c model_set_event_cb')),
     (), 'bounded exhaustive operation sequences from a plugin against a reference', 'model_checking', '')

prop('P25', 'Verilog four-state operators and scheduling follow the standard',
     'Four-state operators, literals of every base and size, case matching, primitive gates, continuous and procedural assignments yield the values the Verilog standard defines for all operand values including x and z.',
     ['inputs', 'programs'],
     'all four-value operand vectors up to width 3, all sized and based literals over a digit alphabet, all gate inputs, all orders of blocking and nonblocking assignment up to length 3',
     'x and z propagation has a case for every operand combination',
     ['src/vlog', 'lib/nvc.08/verilog.vhd', 'src/jit/jit-intrin.c', 'src/vlog/vlog-number.c'],
     M(('operators', 'lib/nvc/verilog-body.vhd, src/vlog/vlog-number.c'), ('lowering', 'src/vlog/vlog-lower.c')),
     (), 'exhaustive operand enumeration against a four-state reference', 'model_checking', '')

prop('P26', 'Malformed source is diagnosed, never crashes the compiler',
     'For every sequence of characters or tokens given as VHDL or Verilog source, analysis terminates with success or with diagnostics and a failure status; it never crashes, hangs or reports an internal error.',
     ['inputs'],
     'every single-token deletion, duplication, swap and substitution of small programs that cover the grammar, and all short token sequences in selected contexts',
     'the parser has thousands of error paths, tests exercise some hundred',
     ['src/parse.c', 'src/scan.c', 'src/lexer.l', 'src/names.c', 'src/sem.c', 'src/vlog/vlog-parse.c'],
     M(('error recovery', 'src/parse.c'), ('overload resolution after errors', 'src/names.c')),
     (), 'exhaustive single-mutation neighbourhood of covering programs', 'fault_enumeration', '')

prop('P27', 'Elaboration builds exactly the described hierarchy',
     'The elaborated design contains for every instance, generate and block exactly the units, generic values, bindings and local declarations that the source, configurations and command line select, and each instance has its own copy of everything declared in it.',
     ['programs', 'configurations'],
     'all combinations of nesting (block, for/if/case generate, component, entity and configuration instantiation) up to depth 3 with subprograms, packages, types and signals declared at every level, all generic override and binding choices',
     'sharing or mixing up declarations of two instances needs a particular nesting with a particular declaration',
     ['src/elab.c', 'src/inst.c', 'src/names.c', 'src/lower.c', 'src/simp.c'],
     M(('copying and renaming of units', 'src/inst.c, src/elab.c'), ('binding', 'src/elab.c elab_binding, elab_block_config')),
     (), 'exhaustive enumeration of nesting shapes and bindings against the expected instance list', 'model_checking', '')

prop('P28', 'Exit status and stopping rules reflect what happened',
     'The exit status, the time at which simulation stops and the printed severity counts follow from the reported severities, stop and finish calls, and the stop-time, stop-delta and exit-severity options given.',
     ['configurations', 'histories'],
     'all combinations of report severities at each of several times, process outcomes and command-line limits',
     'option interactions are a product that tests do not span',
     ['src/nvc.c', 'src/rt/model.c', 'src/jit/jit-core.c', 'src/rt/assert.c', 'src/rt/stdenv.c'],
     M(('severity handling', 'src/rt/assert.c'), ('stop rules', 'src/rt/model.c should_stop_now, src/nvc.c run_cmd')),
     (), 'exhaustive option x outcome enumeration against a reference', 'model_checking', '')

prop('P29', 'File input and output behave like a sequential byte stream',
     'Every sequence of file opens, reads, writes, flushes, seeks and closes a design performs on text and binary files yields the same data, end-of-file indications and open status as the VHDL file model.',
     ['histories'],
     'all operation sequences up to depth 5 over open modes, read, write, endfile, flush and close on two file objects, for element types of several sizes',
     'buffer and end-of-file handling depends on the order of operations; tests use straight read or write loops',
     ['src/rt/fileio.c', 'lib/std/textio-body.vhd', 'src/lower.c'],
     M(('file primitives', 'src/rt/fileio.c')),
     (), 'bounded exhaustive operation sequences against a reference file model', 'model_checking', '')
