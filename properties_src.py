ASAN = 'Executions of the real code under ASan+UBSan with a reference-model monitor; '
TRUST = ' Assurance is for the executions explored (counts in the evidence); trusted: the reference model in the harness, clang sanitizers, and the header shims in /verif/shim where the code needs newer abseil than the sandbox has.'

p('C01', 'Data buffers are never shared, lost or reused while referenced',
  'A data buffer handed out by a pool has the requested size, one reference, and storage disjoint from every other referenced buffer, and keeps its contents until its owner writes it; a copy equals its source. '
  'It returns to the pool exactly when its last reference is released and may be handed out again only then, and released buffers are reused before new ones are made. '
  'Submitting a buffer updates its destination exactly once (or just releases it when it has none) and uses up exactly one reference; clearing or destroying the pool frees each idle buffer exactly once.',
  ['histories', 'inputs'], 'every history of allocate, copy, reference, release, typed access, submit and clear, over all sizes',
  'The unit tests allocate a handful of small buffers once; aliasing, double release and pool corruption need particular histories (several sizes incl. above 4096 bytes, clear then reuse).',
  [G + 'data_buffer.h', G + 'data_buffer.cc', G + 'ref_count.h'],
  [('free lists by size', G + 'data_buffer.h: DataBufferFactory::Allocate/Recycle'), ('reference count reaching zero', G + 'ref_count.h: DecRef'), ('Submit', G + 'data_buffer.cc')],
  ['pool and buffer public interface', 'destination callback'],
  'model-based runtime monitor over random pool histories under ASan/UBSan/LSan', ASAN + 'checks every live buffer after every operation.' + TRUST)
p('C02', 'Scheduled write-backs and calls happen once, in their cycle, in order',
  'An action scheduled n >= 1 cycles ahead happens exactly once, during the n-th advance after it was scheduled, and actions due in the same cycle happen in the order they were scheduled, whatever the latencies, the initial depth, or scheduling from inside an action. '
  'The number of pending actions reported is exact. A written-back buffer stays referenced and unchanged until its cycle, and a delay line destroyed early releases what it holds.',
  ['schedules', 'histories', 'configurations'], 'every interleaving of schedule and advance, all latencies and initial depths',
  'The tests schedule a few latencies; growth, wrap-around and their combination with occupied slots depend on particular latency/position pairs.',
  [G + 'delay_line.h', G + 'function_delay_line.h', G + 'data_buffer.h'],
  [('circular buffer and growth', G + 'delay_line.h: Add/Resize'), ('advance', G + 'delay_line.h: Advance'), ('write-back record', G + 'data_buffer.h: DataBufferDelayRecord')],
  ['order and cycle of actions', 'return values', 'reference counts'],
  'online trace checker (calendar reference) over random schedules under ASan/UBSan', ASAN + 'a calendar model predicts the exact action list of every cycle.' + TRUST)
p('C03', 'Program errors are reported exactly as raised, masked and cleared',
  'At any time the set of active errors is exactly those raised and not cleared since, each listed once as masked or unmasked according to its current mask, with its messages in the order raised. '
  'Masking, unmasking or clearing one error never affects another; the internal error can never be masked. '
  'Using an unknown or duplicate name raises the internal error and changes nothing else.',
  ['histories', 'inputs'], 'every history of register, raise, mask, unmask and clear over any names',
  'Tests follow single paths; the masked/unmasked move combined with raise and clear orders is a state space.',
  [G + 'program_error.h', G + 'program_error.cc'],
  [('masked and unmasked sets', G + 'program_error.cc: Mask/Unmask/Raise/Clear')], ['controller queries'],
  'model-based runtime monitor over random controller histories under ASan/UBSan', ASAN + 'full state compared after every operation.' + TRUST)
p('C04', 'Status registers and state items report exactly their conditions and size',
  'Reading a status register yields, for every bit position, the current value of the condition installed there (0 if none), each condition in the mask being evaluated exactly once and none outside it; operand views give the same value truncated or extended. '
  'Writes to it are ignored and leave reference counts as any other write does. '
  'A state item reports its name, shape, element size and total size as the product of its dimensions.',
  ['inputs', 'configurations'], 'every set of conditions, mask and value width; every shape',
  'Tests use a few bits of one width.', [G + 'status_register.h', G + 'state_item_base.cc', G + 'state_item_base.h', G + 'state_item.h'],
  [('Read / Read(mask)', G + 'status_register.h'), ('size computation', G + 'state_item_base.cc')], ['register reads', 'operand reads', 'accessors'],
  'reference monitor over random conditions and masks under ASan/UBSan', ASAN + 'bit-by-bit reference and evaluation counts.' + TRUST)
p('C05', 'Constant operands present one value under every width and signedness',
  'Every accessor of an immediate, vector-immediate or literal operand returns the operand\'s mathematical value reduced modulo the accessor\'s width and read with its signedness (false only for zero), for each element. '
  'Their shape and text are those given, the text defaulting to the decimal value; they have no underlying object. The text of a vector-immediate shows its first and last element. Wrapper operands expose the wrapped object, its text and the given shape, and have no value (0), buffer or latency of their own.',
  ['inputs'], 'all values of all operand types, all accessors', 'Tests check a few values of some types; sign and zero extension errors show only for particular value/type/accessor triples.',
  [G + 'immediate_operand.h', G + 'literal_operand.h', G + 'wrapper_operand.h', G + 'operand_interface.h'],
  [('AsXxx accessors', G + 'immediate_operand.h, literal_operand.h')], ['accessor results'],
  'reference monitor (128-bit arithmetic) over boundary-biased values under UBSan', ASAN + 'every accessor compared with modular arithmetic.' + TRUST)
p('C06', 'Floating point helpers follow the IEEE formats',
  'For half, single and double precision values, and for integers holding their bit patterns, the classification as infinity, NaN, quiet or signaling NaN, the sign, and the published masks, biases and special values are those of the IEEE format of that width. '
  'Converting half to single precision is exact for every finite value and infinity, and maps NaNs to the canonical NaN of the same sign. The width and signedness relations between integer types are as named.',
  ['inputs'], 'all bit patterns (all 2^16 half values exhaustively)', 'No test covers most of these; single corner patterns (subnormals, signaling NaNs, negative patterns in signed types) decide.',
  [G + 'type_helpers.h', G + 'signed_type.h', G + 'variant_helper.h'], [('FPTypeInfo', G + 'type_helpers.h'), ('ConvertHalfToSingle', G + 'type_helpers.h')], ['function results'],
  'exhaustive (16 bit) and boundary-biased differential monitoring under UBSan', ASAN + 'half precision exhaustive; 32/64-bit patterns sampled at exponent/significand corners.' + TRUST)
p('C07', 'Bit-gather recipes pack exactly the selected bits, as code and as text',
  'For every 64-bit mask, the recipe derived from it packs exactly the bits selected by the mask, in order, into the low bits of the result, for every value. '
  'The source text written for a recipe, when executed, computes the same result as evaluating the recipe directly, line by line with the given indentation.',
  ['inputs'], 'all masks and values', 'Tests check a few masks; shift and mask arithmetic errs only for particular run patterns (e.g. runs reaching bit 63, several runs).',
  [D + 'extract.cc', D + 'extract.h'], [('GetExtractionRecipe', D + 'extract.cc'), ('WriteExtraction', D + 'extract.cc')], ['results', 'emitted text'],
  'differential monitor: bit-by-bit reference vs recipe vs interpreted emitted code', ASAN + 'all 16-bit masks exhaustively plus random 64-bit masks.' + TRUST)
p('C08', 'Template expressions evaluate to exact integer arithmetic or an error',
  'Instantiating a template expression with argument expressions, at any nesting of templates, yields the value of exact integer arithmetic on the arguments; when that value does not exist (division by zero, overflow, failing function, unbound or missing parameter) an error is reported, never a wrong number or a crash. '
  'An expression is constant exactly when no parameter occurs in it; folding, copying and instantiation give equal results and leave the original intact.',
  ['inputs', 'programs'], 'all expression trees and argument lists', 'Tests evaluate a few small trees; error paths inside nested operators and boundary values are not reached.',
  [D + 'template_expression.cc', D + 'template_expression.h', D + 'base_class.h'], [('Evaluate/GetValue', D + 'template_expression.cc'), ('binary folding', D + 'template_expression.h')], ['GetValue, Evaluate, IsConstant'],
  'differential monitor against an exact evaluator over random trees under ASan/UBSan/LSan', ASAN + 'values, errors, ownership (leaks, double frees).' + TRUST)
p('C09', 'Generated names are stable and every resource name denotes one resource',
  'The conversions of description names to type names, snake case, lower case and include guards are the documented ones for every identifier, and distinct snake-case identifiers give distinct type names. '
  'A resource registry holds exactly one resource per name: creating an existing name is refused, looking up returns the same object every time, and attributes set on one resource never change another.',
  ['inputs', 'histories'], 'all identifiers; all create/lookup histories', 'Tests use a few names.', [D + 'format_name.cc', D + 'resource.cc', D + 'resource.h'],
  [('ToPascalCase, ToSnakeCase, ToHeaderGuard', D + 'format_name.cc'), ('ResourceFactory', D + 'resource.cc')], ['results', 'registry contents'],
  'differential and model-based monitor over random names and histories under ASan/UBSan', ASAN + 'exact text and registry state compared.' + TRUST)
p('C10', 'Traps are in memory exactly while an action is enabled there',
  'The trap instruction is present at an address exactly while at least one action or breakpoint there is enabled, whichever client set, enabled, disabled or cleared it and in whatever order; otherwise the original instruction is back. '
  'Performing the actions at an address runs each enabled action there exactly once with its address and id, and nothing at an address without any. '
  'Identifiers of live actions are unique per address, and operations on unknown addresses or ids are refused without effect, as are those that fail because memory cannot be written (setting or enabling where the trap does not go in, disabling or clearing where the instruction does not come back).',
  ['histories', 'fault_sequences'], 'every history of set, clear, enable, disable, perform, clear-all by several clients, with refused memory writes',
  'The action point tests are not in the reliable set and follow single paths; the count of enabled actions over shared addresses is a state space.',
  [G + 'action_point_manager_base.cc', G + 'breakpoint_manager.cc'], [('number of active actions', G + 'action_point_manager_base.cc'), ('breakpoint map', G + 'breakpoint_manager.cc')],
  ['trap writes through the memory interface', 'action callbacks', 'queries'],
  'model-based runtime monitor with fault injection over random histories under ASan/UBSan', ASAN + 'memory image of traps compared after every operation.' + TRUST)
p('C11', 'Register writes appear whole, on time and in order through every operand',
  'A value submitted through a register destination operand becomes the register\'s value in exactly the cycle given by the operand\'s latency (at once for zero), writes due in one cycle in submission order, and no earlier. '
  'Every source operand and accessor then reads that value under its type and element index, whole. A destination buffer starts as a private copy when asked for, so the register never changes before submission. '
  'Scalar, vector, matrix, control and null registers, aliases and resource reservations all behave so; buffers are released exactly once.',
  ['histories', 'schedules'], 'every history of writes, reads and cycle advances over registers of every type and shape',
  'Tests submit one or two writes; overlapping latencies, reuse of buffers and destruction with writes in flight are not reached.',
  [G + 'register.h', G + 'register.cc', G + 'control_register.h', G + 'devnull_operand.h', G + 'arch_state.h', G + 'arch_state.cc', G + 'state_item.h'],
  [('SetDataBuffer and operands', G + 'register.h'), ('AdvanceDelayLines', G + 'arch_state.h')], ['operand reads each cycle', 'buffer reference counts'],
  'model-based runtime monitor over random histories under ASan/UBSan/LSan', ASAN + 'every register compared with a timed model after every cycle.' + TRUST)
p('C12', 'Fifos deliver every accepted value once, in order, within their capacity',
  'A fifo delivers exactly the values it accepted, in acceptance order, each once: reading shows the front without removing it, popping removes it. '
  'Values held plus slots reserved never exceed the capacity (for token fifos, the shared token store); a push beyond it is refused and reported as overflow, a read or pop of an empty fifo as underflow, and the contents stay intact. '
  'A push uses up a reservation when there is one. Notifying fifos call back exactly on becoming empty or non-empty as documented; capacity set by configuration is honoured.',
  ['histories'], 'every interleaving of push, delayed push, pop, read, reserve over several fifos sharing tokens',
  'Tests run single fill/drain sequences.', [G + 'fifo.h', G + 'fifo.cc', G + 'token_fifo.h', G + 'token_fifo.cc', G + 'fifo_with_notify.h', G + 'fifo_with_notify.cc'],
  [('Push/Pop/Reserve', G + 'fifo.cc'), ('token store', G + 'token_fifo.cc')], ['fifo contents', 'program errors', 'callbacks'],
  'model-based runtime monitor over random histories under ASan/UBSan/LSan', ASAN + 'contents, sizes and errors compared after every step.' + TRUST)
p('C13', 'A resource is free exactly when no live reservation covers it',
  'A bit set holds exactly the resources added to it, under every size and every combination of set operations. '
  'A simple resource is free exactly when it is not acquired; a set is free exactly when all its members are, acquiring or releasing it affects exactly its members, through operands the release happens after the given latency, and resources of another pool are refused. '
  'A complex resource is free over a window exactly when no reserved cycle falls in it, as time advances; masks outside its depth are refused without effect.',
  ['histories', 'inputs'], 'all pool sizes and depths, all histories of acquire, release, advance', 'Tests use small pools and single windows; word-boundary sizes and shifts decide.',
  [G + 'resource_bitset.h', G + 'resource_bitset.cc', G + 'simple_resource.h', G + 'simple_resource.cc', G + 'simple_resource_operand.h', G + 'complex_resource.h', G + 'complex_resource.cc', G + 'complex_resource_operand.h', G + 'complex_resource_operand.cc'],
  [('bit vector', G + 'resource_bitset.cc'), ('pool', G + 'simple_resource.cc'), ('Advance/IsFree', G + 'complex_resource.cc')], ['IsFree results', 'bit vectors'],
  'model-based runtime monitor over random histories under ASan/UBSan', ASAN + 'two upstream-pinned defects of complex resources are known findings.' + TRUST)
p('C14', 'Decoded instructions are never stale and live exactly as long as referenced',
  'The decode cache returns, for every address, the instruction the decoder produced for exactly that address since it was last invalidated, calling the decoder only on a miss; invalidating an address, a range [start, end) or everything removes exactly the instructions there. '
  'An instruction, its operands and attributes are destroyed exactly once, when its last reference is dropped (lists of next and child instructions hold references); navigation shows children in append order, and parent pointers never outlive the parent. '
  'Executing runs the semantic function once with the given context, which is gone afterwards.',
  ['histories', 'inputs'], 'every history of lookup, eviction and invalidation; every shape of instruction tree and release order',
  'Tests look up a handful of addresses and build one tree; aliasing entries, held references and release orders are a state space.',
  [G + 'instruction.h', G + 'instruction.cc', G + 'decode_cache.h', G + 'decode_cache.cc', G + 'decoder_interface.h'],
  [('GetDecodedInstruction, Invalidate*', G + 'decode_cache.cc'), ('AppendChild, ~Instruction', G + 'instruction.cc')], ['decoder calls', 'object destruction', 'navigation'],
  'model-based runtime monitor with instrumented objects under ASan/UBSan/LSan', ASAN + 'destruction counts and cache contents compared after every step.' + TRUST)
p('C15', 'Configuration import and statistics export are faithful',
  'Importing a description sets exactly the registered configuration entries it names, in the component and its named children, to the given values, ignoring unknown names; a nameless entry or component, a wrong name at the top, a missing value or one of another type is an error. '
  'Exporting writes every configuration entry, counter and child once, in name order, with its current value and type, so that importing an export changes nothing. '
  'Names are unique per component and kind. Each write notifies each callback or listener once with the new value, import-done reaches every component below before its parent, and disabled counters do not change.',
  ['inputs', 'histories'], 'all component trees, all descriptions including malformed ones, all update sequences', 'Tests import one small description.',
  [G + 'component.h', G + 'component.cc', G + 'config.h', G + 'counters.h', G + 'counters_base.h'], [('Import/Export', G + 'component.cc'), ('ImportValue/ExportValue', G + 'config.h'), ('UpdateValue', G + 'counters.h')],
  ['config values', 'exported messages', 'callbacks'], 'model-based runtime monitor over random trees and malformed inputs under ASan/UBSan/LSan', ASAN + 'full tree compared after every step.' + TRUST)
p('C16', 'Semantic function helpers apply the operation to the right operands once',
  'Reading an instruction source as a type gives the accessor of that width and signedness (floating point as the bit pattern) for the given operand and element. '
  'Unary, binary and ternary helpers call the operation once per destination element (once for scalar helpers) with the corresponding source elements in operand order, and write each result to the matching destination element after the destination latency, changing no source, even when the destination is one of the sources.',
  ['inputs'], 'all type combinations, lengths, latencies and operand aliasing', 'There is no test of these helpers.', [G + 'instruction_helpers.h', G + 'instruction.h'],
  [('GetInstructionSource', G + 'instruction.h'), ('UnaryOp ... TernaryVectorOp', G + 'instruction_helpers.h')], ['operation arguments', 'destination contents each cycle'],
  'differential monitor with probing operands over random types and lengths under ASan/UBSan', ASAN + 'arguments and results compared per element.' + TRUST)

MEMTXT = ' Every load runs its instruction with its context exactly once, at the latency given, and holds both no longer than needed.'
p('C17', 'Memory returns what was last stored, for every kind of access',
  'In flat and demand-allocated memories, every loaded byte is the one last stored at that address by any kind of access (scalar, scatter, unit stride), or the fill value if none was; masked-off elements are neither loaded nor stored, bytes outside the memory are never touched. '
  'Unit-stride vectors use consecutive addresses from the given one, with the memory\'s unit size.' + MEMTXT,
  ['histories', 'inputs'], 'all histories of accesses of all sizes and addresses (block boundaries, ends), unit sizes, bases and latencies',
  'Tests do a few aligned accesses; block crossings, unit sizes above one and the ends of memory are corner cases.',
  [M + 'flat_memory.h', M + 'flat_memory.cc', M + 'flat_demand_memory.h', M + 'flat_demand_memory.cc', M + 'memory_interface.h'],
  [('LoadStoreHelper', M + 'flat_demand_memory.cc'), ('Load/Store', M + 'flat_memory.cc'), ('FinishLoad', M + 'flat_demand_memory.cc')], ['loaded bytes', 'instruction executions', 'reference counts'],
  'model-based runtime monitor (byte map) over random access histories under ASan/UBSan/LSan', ASAN + 'every loaded byte and every touched byte at the end compared.' + TRUST)
p('C18', 'A memory tag is set exactly by the last tagged store and cleared by any other',
  'In tagged memory each aligned granule carries the tag given by the last tagged store covering it, cleared by any later plain or vector store that writes one of its bytes and by nothing else; data behaves as in ordinary memory. '
  'Loads return data and tags together, a tag-only load the tags alone; a tagged access not aligned to, or not a multiple of, the granule is not performed. '
  'The adapter to untagged memory gives clear tags and passes data through.' + MEMTXT,
  ['histories', 'inputs'], 'all histories of tagged, plain and vector accesses, granule sizes, units and alignments', 'Tests do a handful of accesses in one configuration.',
  [M + 'tagged_flat_demand_memory.h', M + 'tagged_flat_demand_memory.cc', M + 'tagged_to_untagged_memory_transactor.h', M + 'tagged_to_untagged_memory_transactor.cc', M + 'tagged_memory_interface.h'],
  [('ClearTags, tagged Load/Store', M + 'tagged_flat_demand_memory.cc'), ('forwarding', M + 'tagged_to_untagged_memory_transactor.cc')], ['loaded data and tags', 'instruction executions'],
  'model-based runtime monitor (byte and tag maps) under ASan/UBSan/LSan', ASAN + 'all data and tags compared on each load and at the end.' + TRUST)
p('C19', 'Store conditional succeeds only if nobody wrote there since the load linked',
  'A store conditional succeeds, writes its data and returns 0 exactly when the reservation made by the last load linked of that granule is still there; otherwise it returns 1 and writes nothing. Any store, atomic operation or store conditional that writes into a reserved granule, of any size, vector or tagged, removes the reservation. '
  'Each atomic operation returns the old value and leaves the value of the operation at its width (signed or unsigned as named); an unsupported size is an error with no effect. Other accesses pass through unchanged, tags included.' + MEMTXT,
  ['histories', 'inputs'], 'all interleavings of linked, conditional, atomic, plain, vector and tagged accesses', 'Tests follow single link/store pairs; overlapping, vector and wide accesses are the hard cases.',
  [M + 'atomic_memory.h', M + 'atomic_memory.cc', M + 'atomic_tagged_memory.h', M + 'atomic_tagged_memory.cc'], [('tag store and PerformMemoryOp', M + 'atomic_memory.cc')], ['returned values', 'memory contents', 'status'],
  'online trace checker (reservation model) over random interleavings under ASan/UBSan', ASAN + 'each reservation is also probed at the end.' + TRUST)
p('C20', 'Memory watches fire exactly for the accesses that touch them',
  'A watch callback is called, once for each access or vector element with the address and size of that access, exactly when some byte of it lies in the inclusive watched range, loads and stores separately; ranges that are inverted or overlap another watch are refused; a cleared watch never fires again. '
  'Every access reaches the memory below unchanged, exactly once, watched or not.',
  ['histories', 'inputs'], 'all sets of watches and all accesses', 'Tests use one or two ranges with aligned accesses.', [M + 'memory_watcher.h', M + 'memory_watcher.cc', M + 'tagged_memory_watcher.h', M + 'tagged_memory_watcher.cc'],
  [('range containers and Load/Store', M + 'memory_watcher.cc')], ['callback arguments', 'forwarded accesses'],
  'online trace checker of callbacks and forwarded accesses under ASan/UBSan', ASAN + 'callback sequences compared per access.' + TRUST)
p('C21', 'Routers send each access to the one target that owns all of its addresses',
  'A routed access reaches, unchanged and exactly once, the target whose range contains all addresses it uses (every active element of vectors), else the default target, else nothing; targets are mapped only at valid ranges that do not overlap another, and names are unique. '
  'A vector load with no active element completes. Multi-initiator routers give each initiator exactly the targets mapped for it.',
  ['inputs', 'configurations'], 'all maps of plain, tagged and atomic targets, all access kinds and addresses, including range edges', 'Tests map two or three targets and access their middles.',
  [M + 'single_initiator_router.h', M + 'single_initiator_router.cc', M + 'memory_router.h', M + 'memory_router.cc'], [('GetTarget / AddTarget', M + 'single_initiator_router.cc'), ('AddMapping', M + 'memory_router.cc')], ['access seen by each target', 'data read back', 'status'],
  'model-based runtime monitor with recording targets under ASan/UBSan', ASAN + 'routing model and one reference memory per target.' + TRUST)
p('C22', 'The cache counts what an LRU cache would do and is transparent to data',
  'For every valid configuration (size, line size, ways, write allocation, cacheable or non-cacheable ranges), the hit, miss, write-back, write-around and non-cacheable counters equal those of a set-associative LRU cache fed the same blocks, for scalar, vector and tagged accesses. '
  'Malformed configurations are refused and change nothing. Data, tags and latencies seen through the cache are those of the memory below.' + MEMTXT,
  ['inputs', 'histories', 'configurations'], 'all configurations and access streams (where LRU order is defined: no two lines of a set last used in the same cycle)', 'Tests count a few accesses in one or two configurations.',
  [M + 'cache.h', M + 'cache.cc'], [('Configure, CacheLookup, ReplaceBlock', M + 'cache.cc')], ['counters', 'data', 'instruction executions'],
  'differential monitor against a reference LRU cache and memory under ASan/UBSan', ASAN + 'all nine counters compared after every access.' + TRUST)
p('C23', 'The memory use profile lists exactly the words touched while enabled',
  'The profile written lists, as maximal ranges in increasing order, exactly the 32-bit words holding a byte loaded or stored, by an active element for vectors, while profiling was enabled. Every access reaches the memory below unchanged.',
  ['histories', 'inputs'], 'all access histories and addresses, including segment boundaries and the end of the address space', 'Tests profile a few aligned accesses within one segment.',
  [M + 'memory_use_profiler.h', M + 'memory_use_profiler.cc'], [('MarkUsedBits, WriteProfile', M + 'memory_use_profiler.cc')], ['profile text', 'forwarded accesses'],
  'model-based runtime monitor (set of words) under ASan/UBSan', ASAN + 'profile text parsed and compared with the model.' + TRUST)
p('C24', 'A socket stream carries every character in order, its descriptor left alone',
  'Every character written to a socket stream reaches the peer, in order, each newline as carriage return and newline; a write that fails is reported. '
  'Reading delivers the peer\'s characters in order, a carriage return being dropped and the character after it delivered as is, and ends when the connection ends or a read fails. '
  'The descriptor stays with its owner: ending or destroying the stream does not close it, and the connection can go on being used, also by another stream.',
  ['inputs', 'faults', 'histories'], 'all byte sequences, interleavings of reading and writing, and failures of the connection', 'There is no test.',
  [U + 'renode/socket_streambuf.h'], [('overflow/underflow', U + 'renode/socket_streambuf.h')], ['bytes seen by the peer', 'stream state', 'descriptor state'],
  'online checker of both ends of real sockets with injected failures under ASan/UBSan', ASAN + 'bytes and descriptor state compared after every step.' + TRUST)
p('C25', 'Profiles, console output and log counts record exactly what happened',
  'The instruction profile lists, in address order, how often each address granule inside an executable segment was sampled, and nothing that was not sampled. '
  'The console device puts out exactly the low bytes written to its transmit register, in order, and its registers read back as written, with the divisor latch shown when selected; misaligned or odd-sized accesses have no effect and read as zero. '
  'The log sink counts every message of each severity received while registered and keeps the text of warnings and errors.',
  ['histories', 'inputs'], 'all segment layouts and samples, all register access histories, all message sequences', 'There are no tests of these.',
  [U + 'other/instruction_profiler.h', U + 'other/instruction_profiler.cc', U + 'other/simple_uart.h', U + 'other/simple_uart.cc', U + 'other/log_sink.h'],
  [('ranges and counters', U + 'other/instruction_profiler.cc'), ('Read/Write', U + 'other/simple_uart.cc')], ['profile text', 'console output', 'register reads', 'counts'],
  'model-based runtime monitors under ASan/UBSan', ASAN + 'profiles, registers and counts compared with reference models.' + TRUST)
p('C26', 'Loading a program writes exactly its segments and finds its symbols',
  'Loading an ELF program writes the file contents of each loadable segment, once, at its physical (if zero, virtual) address, to the memory chosen for it, returns the entry point, and reports a failing write or an unreadable file as an error. '
  'Afterwards each symbol has the value and size of the last file loaded, an address inside a function (of size scaled as configured) gives a function covering it and only that, and the stack size is that of the file.',
  ['inputs', 'histories', 'faults'], 'all well-formed 32 and 64 bit files, repeated loads, failing writes and broken files', 'The test loads two fixed files.',
  [U + 'program_loader/elf_program_loader.h', U + 'program_loader/elf_program_loader.cc'], [('LoadSymbols/LoadProgram', U + 'program_loader/elf_program_loader.cc')], ['memory writes', 'symbol queries'],
  'model-based runtime monitor over generated files with injected faults under ASan/UBSan', ASAN + 'every write and query compared; ELF parsing itself is done by a stand-in for the ELFIO library, which is not installed.' + TRUST)
p('C27', 'The assembler produces exactly the image its source describes',
  'A well-formed source yields a file whose text and data sections hold, in order, the bytes of each instruction and directive, padding and reserved space included, and whose bss has the reserved size. '
  'Each label is a symbol at the address (executables) or offset (relocatable files) of what follows it, global exactly if declared so; every symbol reference uses that value and in relocatable files has a relocation at its place. Executables are laid out from the base address with the given entry point. '
  'Comments, white space and continued lines change nothing. Malformed statements, labels defined twice, bytes outside any section, encoding errors of either pass and undefined symbols in executables are reported as errors.',
  ['inputs'], 'all sources over the directives and any instruction encoder, 32 and 64 bit', 'The tests assemble one fixed program.',
  [U + 'asm/simple_assembler.h', U + 'asm/simple_assembler.cc', U + 'asm/resolver.h', U + 'asm/resolver.cc', U + 'asm/opcode_assembler_interface.h'],
  [('Parse, ParsePassTwo, ParseAsmDirective', U + 'asm/simple_assembler.cc'), ('CreateExecutable/CreateRelocatable', U + 'asm/simple_assembler.cc')], ['the written file', 'status'],
  'differential monitor: generated sources against an independent model and ELF parser under ASan/UBSan/LSan', ASAN + 'ELFIO and RE2 are replaced by stand-ins (not installed).' + TRUST)
p('C28', 'Generated binary decoders return what the description says',
  'Every well-formed bin_fmt description is accepted and yields code that compiles. For each group of the named decoder and every instruction word, Decode<Group> and Decode<Group>WithFormat return an instruction all of whose constraints the word satisfies, together with its format, or kNone (no format) exactly if there is none; '
  'where a satisfied specialization of that instruction exists, one such specialization is returned in its place. This holds for fields and overlays at any position of 1 to 64 bit formats, all comparison operators against numbers and against other fields, instruction generators, duplicate encodings, merged groups, included files, and any order of declarations. '
  'The recorded encoding of an instruction has the values of its equality constraints in their places.',
  ['inputs'], 'all descriptions over the grammar for groups up to 64 bits, all instruction words', 'The tests decode a handful of words of two fixed descriptions.',
  [D + 'bin_format_visitor.cc', D + 'encoding_group.cc', D + 'instruction_encoding.cc', D + 'instruction_group.cc', D + 'overlay.cc', D + 'extract.cc', D + 'bin_encoding_info.cc', D + 'BinFormat.g4'],
  [('AddSubGroups, EmitDecoders, EmitComplexDecoderBody', D + 'encoding_group.cc'), ('GetMask/GetValue, AddEqualConstraint', D + 'instruction_encoding.cc'), ('Process, VisitInstructionDef, ProcessSpecializations', D + 'bin_format_visitor.cc')], ['compiled decoders', 'status of the generator'],
  'differential monitor: generated decoders are compiled, loaded and compared with an interpreter of the description under ASan/UBSan/LSan', ASAN + 'The ANTLR runtime is not installed: the grammar is interpreted by a small stand-in parser.' + TRUST)
p('C29', 'Generated field accessors read and write exactly the described bits',
  'For every accepted bin_fmt description the generated Extract<Name> and Insert<Name> functions compile and are exact: an extractor returns the described bits (sign-extended if the field or overlay is signed) and nothing else; an inserter changes those bits to the low bits of the value and leaves all others as they were; inserting and then extracting gives the value back. '
  'This holds for fields, overlays (concatenations of bit ranges of the format or its fields and of constants) and sub-formats, single and replicated (index 0 is leftmost), for formats of 1 to 300 bits, held in an integer, a big-endian byte array or a packed struct. An extractor a base format offers for a derived format reads the same as the one of the derived format.',
  ['inputs'], 'all format descriptions of up to 300 bits with fields of up to 128 bits, all contents, all values', 'The tests check the extractors of two fixed descriptions by eye or for a few values.',
  [D + 'format.cc', D + 'overlay.cc', D + 'extract.cc', D + 'bin_format_visitor.cc'],
  [('Generate*Extractor, Generate*Inserter, ComputeAndCheckFormatWidth, PropagateExtractorsUp/Down', D + 'format.cc'), ('WriteSimpleValueExtractor, WriteComplexValueExtractor, AddBitRange, AddFieldReference', D + 'overlay.cc')], ['compiled accessor functions'],
  'differential monitor: generated accessors are compiled, loaded and compared with a bit-vector model under ASan/UBSan/LSan', ASAN + 'The ANTLR runtime is not installed: the grammar is interpreted by a small stand-in parser.' + TRUST)
p('C30', 'Wrong binary format descriptions are refused',
  'Whatever text it is given, from files or standard input, the binary decoder generator terminates without a crash, undefined behaviour or leak. A description that has a syntax error (also in generated text), names something undefined (decoder, group, format, field, variable, include file), defines something twice, inherits, contains or merges in a cycle, '
  'has widths that do not add up, bit ranges, numbers or constraint values out of range, formats outside the family of the group, or groups wider than 64 bits is refused with an error status and no code is written; a well-formed description is accepted.',
  ['inputs', 'faults'], 'all texts', 'The tests contain some fixed wrong descriptions and look at the messages.',
  [D + 'bin_format_visitor.cc', D + 'format.cc', D + 'overlay.cc', D + 'instruction_encoding.cc', D + 'bin_encoding_info.cc', D + 'instruction_group.cc'],
  [('Process and the Visit functions', D + 'bin_format_visitor.cc'), ('ComputeAndCheckFormatWidth', D + 'format.cc'), ('CreateConstraint', D + 'instruction_encoding.cc')], ['status of the generator', 'files written'],
  'fault-injection monitor: planted errors and random edits of well-formed descriptions under ASan/UBSan/LSan', ASAN + 'Errors in specializations are left out: the generator only logs them, and its own tests rely on that. The ANTLR runtime is not installed: the grammar is interpreted by a small stand-in parser, so recovery after syntax errors is not exercised.' + TRUST)
p('C36', 'Wrong instruction set descriptions are refused',
  'Whatever text it is given, from files or standard input, the decoder generator terminates without a crash, undefined behaviour or endless loop. A description that has a syntax error (also in generated text), names something undefined (isa, bundle, slot, base, constant, function, operand, resource list, binding variable, include file), defines something twice, inherits or contains in a cycle, '
  'gives templates the wrong arguments or uses them without any, has constants, latencies, attributes, widths or resource cycles that cannot be computed or are out of range (negative latencies and cycles, division by zero, numbers beyond int), instances the slot does not have, deletes or overrides what is not inherited, lacks a default opcode or a semantic function, or has a malformed disassembly format is refused with an error status and no code is written; a well-formed description is accepted.',
  ['inputs', 'faults'], 'all texts', 'The tests contain some fixed wrong descriptions and look at the messages.',
  [D + 'instruction_set_visitor.cc', D + 'instruction_set.cc', D + 'slot.cc', D + 'opcode.cc', D + 'template_expression.cc'],
  [('Process and the Visit functions, ParseDisasmFormat, PerformBundleReferenceChecks', D + 'instruction_set_visitor.cc'), ('AppendInstruction, AppendInheritedInstruction', D + 'slot.cc'), ('AnalyzeResourceUse, CheckAttributeValues', D + 'instruction_set.cc')], ['status of the generator', 'files written'],
  'fault-injection monitor: planted errors and random edits of well-formed descriptions, each in a process of its own, under ASan/UBSan', ASAN + 'Memory that is not freed is not judged. Characters no token starts with are skipped by the lexer (with a message) and so are left out. The ANTLR runtime is not installed: the grammar is interpreted by a small stand-in parser, so recovery after syntax errors is not exercised.' + TRUST)
p('C37', 'Protobuf instruction decoders select and set exactly what is described',
  'For every well-formed description (also over several files) of instructions encoded as protobuf messages the generator writes a decoder that compiles. Given any message of the group\'s type, the decoder returns the opcode of the instruction all of whose constraints the message satisfies: comparisons of any plain, nested, optional or oneof member field with values of its type, and presence; a comparison holds only if the oneofs on the way to the field hold that member. '
  'If no instruction matches it returns the "none" opcode. The setters of the instruction, its own and those of its setter groups, are called with the value the field has in the message, or the default given if it is not present, and no other setter is called. Groups on the same message decode alone or merged alike. '
  'The value set of a constraint holds exactly the values that satisfy it; intersection and union of value sets of one type, and copies, hold exactly the values in both or either, and an intersection without values is empty.',
  ['inputs'], 'all well-formed descriptions over messages with nested, optional and oneof fields of integer, boolean and enum type, and all messages', 'The tests parse one description; no generated decoder is ever run.',
  [D + 'proto_format_visitor.cc', D + 'proto_encoding_group.cc', D + 'proto_encoding_info.cc', D + 'proto_instruction_decoder.cc', D + 'proto_instruction_encoding.cc', D + 'proto_instruction_group.cc', D + 'proto_constraint_expression.cc', D + 'proto_constraint_value_set.cc'],
  [('EmitLeafDecoder, EmitComplexDecoder, CheckEncodings', D + 'proto_encoding_group.cc'), ('GetSetterCode, GenerateSetterCode', D + 'proto_instruction_encoding.cc'), ('IntersectWith, UnionWith', D + 'proto_constraint_value_set.cc'), ('GenerateDecoderClass', D + 'proto_encoding_info.cc')],
  ['opcode returned', 'setter calls', 'membership in value sets'],
  'model-based runtime monitor: random descriptions are generated, compiled and run on random and nearly matching messages against an interpreter of the description; value sets against a model of intervals; under ASan/UBSan', ASAN + 'The ANTLR runtime is not installed: the grammar is interpreted by a small stand-in parser. Generated decoders are compiled against the installed protobuf 3.21. GENERATE, string and floating point constraints and ambiguous descriptions are not exercised.' + TRUST)
p('C38', 'Wrong descriptions of protobuf instructions are refused',
  'Whatever text it is given the generator of protobuf instruction decoders terminates without a crash, undefined behaviour or endless loop. A description that has a syntax error, names something undefined (decoder, group, message, field, enumerator, setter group, binding variable, include or proto file), defines or lists something twice, merges groups of different messages, has no groups, '
  'asks for the presence of a field that has none, sets a value of several types or of a message, contradicts itself about a oneof, gives a number that fits no type, or has instructions that the same message would satisfy because they constrain the same fields alike, is refused with an error status and no code is written; a well-formed description is accepted.',
  ['inputs', 'faults'], 'all texts', 'The tests contain one wrong description.',
  [D + 'proto_format_visitor.cc', D + 'proto_encoding_group.cc', D + 'proto_encoding_info.cc', D + 'proto_instruction_encoding.cc', D + 'proto_instruction_group.cc'],
  [('Process, PreProcessDeclarations and the Visit functions, ProcessParentGroup', D + 'proto_format_visitor.cc'), ('CheckEncodings', D + 'proto_encoding_group.cc'), ('AddSetter, AddConstraint', D + 'proto_instruction_encoding.cc'), ('CheckSetterType', D + 'proto_encoding_info.cc')], ['status of the generator', 'files written'],
  'fault-injection monitor: planted errors and random edits of well-formed descriptions, each in a process of its own, under ASan/UBSan', ASAN + 'Memory that is not freed is not judged. Characters no token starts with are skipped by the lexer (with a message) and so are left out. The ANTLR runtime is not installed: the grammar is interpreted by a small stand-in parser, so recovery after syntax errors is not exercised.' + TRUST)
p('C31', 'Debugger packets are answered one for one and touch exactly what they name',
  'Every well-formed packet is acknowledged and answered by exactly one well-formed response, repeated until acknowledged, whatever characters it carries; a damaged packet is rejected and has no effect. '
  'Register, memory and breakpoint packets read or change exactly the registers, bytes and addresses they name, with the values they carry, or report an error and change nothing; continue and step act once on the selected core and report why and where it stopped; the target description arrives whole in pieces of any size. '
  'No byte stream, disconnection or fault of the core makes the server crash, hang, touch another core or close descriptors that are not its own; afterwards it can serve again.',
  ['inputs', 'histories', 'fault_sequences'], 'all packet sequences, all byte streams, disconnection at any point, failures of any core operation', 'The tests send one well-formed packet per session.',
  [U + 'gdbserver/gdbserver.cc', U + 'gdbserver/gdbserver.h'], [('Connect, Respond, AcceptGdbCommand', U + 'gdbserver/gdbserver.cc'), ('GdbSocketStreambuf', U + 'gdbserver/gdbserver.h')],
  ['bytes on the connection', 'calls to the core', 'core state', 'open descriptors'],
  'trace checker at the client end of the connection with a core model, fault injection and hostile streams under ASan/UBSan/LSan', ASAN + 'The calls that open a TCP port are stand-ins returning one end of a socket pair. RE2 is a stand-in over PCRE2.' + TRUST)
p('C32', 'The Renode bridge does to the right instance exactly what it is asked',
  'Calls through the Renode C interface act on the instance with the given number and no other: registers, memory, interrupts, configuration, program and image loading, and loads and stores over the system bus read or change exactly what they name, with the values given, or report an error; unknown and destroyed numbers are errors without effect. '
  'Numbers and names of living instances are distinct and can be used again after destruction. A step request returns the number of instructions really executed, of any size up to the one asked for, with the status (ok, breakpoint, aborted) that the halt reason demands. A null status pointer is tolerated wherever the interface allows one.',
  ['inputs', 'histories', 'faults'], 'all sequences of calls on any number of instances, failing simulators, missing bus callbacks and broken files', 'The test makes each call once on one instance.',
  [U + 'renode/renode_mpact.cc', U + 'renode/renode_mpact.h', U + 'renode/renode_memory_access.cc'], [('RenodeAgent::Construct, Connect, Step, LoadImage', U + 'renode/renode_mpact.cc'), ('RenodeMemoryAccess::Load/Store', U + 'renode/renode_memory_access.cc')],
  ['return values and statuses', 'calls to the simulator', 'calls to the bus'],
  'model-based runtime monitor over call histories with injected failures under ASan/UBSan/LSan', ASAN + 'the C# side of the interface is not run.' + TRUST)
p('C33', 'Renode and the command line never use the simulator at the same time',
  'For every interleaving of a Renode thread, a command line thread and halt requests, each operation on the simulator is ordered with respect to every other (no data race); Renode steps it only while the command line does not control it, and the command line steps it, or changes it, only while no Renode step is under way. '
  'The steps Renode is told of and those the command line took add up to what the core executed. Control passes on whenever it should: a halt request, breakpoint or connection gives it to the command line, run or disconnection gives it back, and the end of the program releases whoever waits; nobody waits forever.',
  ['schedules', 'histories', 'faults'], 'all interleavings and histories of quanta, sessions, breakpoints, program ends and failing steps', 'There is no test of two threads.',
  [U + 'renode/renode_cli_top.cc', U + 'renode/renode_cli_top.h', U + 'renode/cli_forwarder.cc'], [('RenodeStep, CLIStep, CLIRun, DoWhenInControl', U + 'renode/renode_cli_top.cc')],
  ['calls to the simulator', 'returned steps and statuses', 'thread progress'],
  'race detector (ThreadSanitizer) with injected delays, an ownership monitor on the simulator and a hang watchdog', 'ThreadSanitizer; absl::Mutex is replaced by a stand-in over std::mutex that the race detector can follow and that delays at random at each operation.' + TRUST)
p('C34', 'The socket command line serves one client and cleans up after itself',
  'The command line listens on exactly the port given, or is not good if that is impossible (then it waits for nobody). A client that connects is greeted, gets every line it sends to the shell and all answers back unchanged; the connection callback is told of its coming and going in that order, once each. '
  'Whatever the client does, also leaving in the middle of an answer, never coming, or connecting while the object is destroyed, there is no data race, no signal ends the process, destruction terminates, and each descriptor opened is closed exactly once.',
  ['schedules', 'inputs', 'faults'], 'all client behaviours and bytes, all moments of destruction, failure of any socket call', 'There is no test of it.',
  [U + 'renode/socket_cli.cc', U + 'renode/socket_cli.h', U + 'renode/socket_streambuf.h'], [('SocketCLI::SocketCLI, ~SocketCLI', U + 'renode/socket_cli.cc')],
  ['bytes on the connection', 'callbacks', 'descriptors opened and closed', 'lines the shell reads'],
  'race detector (ThreadSanitizer) with injected delays and faults, descriptor accounting and a hang watchdog', 'ThreadSanitizer; socket calls are wrapped so that the address is a local one and failures can be injected; absl::Mutex is a stand-in over std::mutex.' + TRUST)
p('C35', 'Generated decoders build exactly the described instruction',
  'For every well-formed instruction set description the generator (versions 1 and 2) writes code that compiles. Its enumerations list exactly the opcodes, operands and resources in use, each once. '
  'For each opcode the encoding reports, in each slot and instance, the generated decoder builds an instruction with the described size, the given address, the described predicate, source, destination and list operands in order, each asked for with its number and latency (also computed, inherited through templates, or left to decode time), the child instructions, the semantic function of each, '
  'the resources to be free and to be acquired with their cycles, the attribute values, and the disassembly text (widths, operand formats, addresses, escapes). Inherited opcodes are as in the base slot unless deleted or overridden; generated opcodes are as if written out; an unknown opcode gives the default instruction. Decoding a word of several slots gives one instruction per slot, chained in order, with the total size.',
  ['inputs'], 'all well-formed descriptions of up to 8 slots with templates, inheritance, generators, includes, bundles of children and any declared widths; all opcodes', 'The tests parse some descriptions; only one generated decoder is run, for a few instructions.',
  [D + 'instruction_set_visitor.cc', D + 'slot.cc', D + 'opcode.cc', D + 'instruction.cc', D + 'instruction_set.cc', D + 'resource.cc', D + 'template_expression.cc'],
  [('Visit functions, ParseDisasmFormat, PerformOpcodeOverrides, ProcessOpcodeGenerator', D + 'instruction_set_visitor.cc'), ('Generate*Setter*, GenerateClassDefinition', D + 'slot.cc'), ('CreateDerivedOpcode, GenerateOperands', D + 'opcode.cc'), ('GenerateClassDeclarations, GenerateEnums', D + 'instruction_set.cc')], ['compiled decoders', 'instructions they build'],
  'differential monitor: generated decoders are compiled, loaded and driven, and what they build is compared with an interpretation of the description, under ASan/UBSan/LSan', ASAN + 'The ANTLR runtime is not installed: the grammar is interpreted by a small stand-in parser. RE2 is a stand-in over PCRE2.' + TRUST)
