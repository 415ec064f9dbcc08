"""What each check builds and runs."""
import os
VERIF = os.path.dirname(os.path.abspath(__file__))
G = 'mpact/sim/generic/'
D = 'mpact/sim/decoder/'
M = 'mpact/sim/util/memory/'

BINS = {}
PROPS = {}


def prop(pid, repo, rule, must_see=(), assumptions=(), **kw):
    BINS['h_' + pid.lower()] = dict(src=['harness/h_%s.cc' % pid.lower()], repo=list(repo), **kw)
    PROPS[pid] = dict(bins=['h_' + pid.lower()], rule=rule, must_see=list(must_see), assumptions=list(assumptions))


prop('C01', [G + 'data_buffer.cc'], 'random histories of allocate/copy/reference/release/typed access/submit/clear over buffers of '
     'boundary sizes; non-trivial: more than one buffer live at once (pool), count above 2 (refcount)',
     ['recycled_reuse', 'alloc_long', 'copies', 'pool_clears', 'submits', 'typed_access'], leaks=True)
prop('C02', [G + 'data_buffer.cc'], 'random schedules of actions with latencies around powers of two and the current depth, '
     'interleaved with cycle advances, nested scheduling and early destruction; non-trivial: more than one action scheduled',
     ['scheduled', 'delivered', 'nested_schedule', 'delayed_writebacks', 'immediate_writebacks', 'multi_delivery_cycles'], leaks=True)
prop('C03', [G + 'program_error.cc'], 'random histories of register/raise/mask/unmask/clear on 1-2 controllers with known, unknown '
     'and odd names; non-trivial: more than two raise/mask transitions', ['raised', 'raised_by_handle', 'raised_unknown', 'mask', 'unmask', 'clear_all'], leaks=True)
prop('C04', [G + 'data_buffer.cc', G + 'state_item_base.cc'], 'random condition sets, masks and operand reads; random shapes; '
     'non-trivial: a non-zero status value was read / multi-dimensional shape', ['reads', 'masked_reads', 'operand_reads', 'ignored_writes', 'items'], leaks=True)
prop('C05', [G + 'data_buffer.cc'], 'boundary-biased values of every integer type through every accessor; non-trivial: non-zero value',
     ['conversions', 'vector_operands', 'literals', 'bool_literals', 'wrappers'], leaks=True)
prop('C06', [], 'every 16-bit pattern exhaustively; boundary-biased 32/64-bit patterns (exponent and significand corners) through all '
     'classifiers; non-trivial: every case', ['half_subnormal', 'half_special', 'classified_snan', 'classified_qnan', 'classified_inf', 'type_relations'])
prop('C07', [D + 'extract.cc'], 'all 16-bit masks exhaustively at random offsets (20 bits thorough), random 64-bit masks, arbitrary recipes; each recipe '
     'is evaluated directly and its emitted source text is interpreted; non-trivial: every case', ['extractions', 'emitted_code_runs', 'multi_step_recipes'], leaks=True)
prop('C08', [D + 'template_expression.cc'], 'random expression trees (constants at the int boundaries, parameters, negation, + - * /, functions, slot '
     'constants), one and two levels of instantiation; non-trivial: the tree has at least one operator',
     ['values', 'errors', 'overflow_errors', 'instantiations', 'nested_instantiations'], leaks=True)
prop('C09', [D + 'resource.cc', D + 'format_name.cc'], 'random identifiers and create/lookup histories; non-trivial: name longer than 2 / more than 2 resources',
     ['names', 'roundtrips', 'created', 'duplicate_refused', 'resolved', 'inserted'], leaks=True)
prop('C10', [G + 'action_point_manager_base.cc', G + 'breakpoint_manager.cc'], 'random set/clear/enable/disable/perform/clear-all histories over shared addresses with '
     'unwritable addresses injected; non-trivial: more than one action set', ['set', 'set_refused', 'performed', 'perform_without_point', 'cleared', 'clear_all', 'bp_set', 'bp_hit', 'enable_failed', 'restore_failed', 'bp_clear_failed'], leaks=True, proto=True, libs=['-lprotobuf'])

ARCH = [G + x for x in ('arch_state.cc', 'component.cc', 'data_buffer.cc', 'fifo.cc', 'program_error.cc', 'register.cc', 'simple_resource.cc',
                        'resource_bitset.cc', 'state_item_base.cc', 'control_register.cc')]
PB = dict(proto=True, libs=['-lprotobuf'])
prop('C11', ARCH, 'random histories of allocate/copy/submit through destination operands with latencies 0-40, reads through every accessor, cycle advances, '
     'aliases and rewrites over 1-5 registers of random type, shape and kind; non-trivial: more than one write',
     ['writes', 'copy_writes', 'delayed_writes', 'reads', 'resource_released', 'control_registers', 'aliases', 'self_writes', 'devnull_writes', 'destroyed_with_pending', 'state_cycles'], leaks=True, **PB)
prop('C12', ARCH + [G + 'token_fifo.cc', G + 'fifo_with_notify.cc'], 'random histories of push (direct and through operands with latency), pop, reserve, read and advance over 1-3 plain, '
     'token (shared store) and notifying fifos; non-trivial: every case',
     ['pushes', 'refused_pushes', 'pops', 'underflow_pops', 'reserves', 'operand_pushes', 'reads', 'token_fifos', 'notify_fifos', 'plain_fifos', 'depth_imports'], leaks=True, **PB)
prop('C13', ARCH + [G + 'complex_resource.cc', G + 'complex_resource_operand.cc'], 'random histories over bit sets of boundary sizes; over pools of simple resources with sets, foreign resources, '
     'timed release through operands; over complex resources of depth 64-512 advanced by less than 64 or more than the depth at a time; non-trivial: every case',
     ['set', 'or', 'andnot', 'intersecting', 'disjoint', 'self_assign', 'resize', 'added', 'add_refused', 'foreign_refused', 'operand_acquires', 'operand_releases', 'set_ops',
      'complex_acquires', 'complex_releases', 'range_masks', 'span_masks', 'refused_masks', 'complex_operand_acquires', 'complex_advances'], leaks=True, **PB)
prop('C14', [G + 'instruction.cc', G + 'decode_cache.cc'] + ARCH, 'random forests of instructions with operands built, referenced and released in random order; executions; decode cache histories (get, invalidate, '
     'range, all, undecodable addresses, held references) at the bottom and top of the address space; non-trivial: more than two instructions / every cache history',
     ['children', 'nexts', 'handed_over', 'destroyed', 'outlives', 'operands', 'with_context', 'attributes', 'hits', 'misses', 'conflict_misses', 'undecodable', 'held', 'range_evictions', 'unaligned_ranges', 'invalidate_all', 'refused_create'], leaks=True, **PB)
prop('C15', [G + 'component.cc'], 'random component trees with configs of every type, counters and callbacks; imports of partly unknown and partly malformed descriptions, exports, re-imports, '
     'removals; random counter updates with listeners and chained function counters; non-trivial: at least one export / every counter history',
     ['imports', 'imported_values', 'malformed_refused', 'exports', 'reimports', 'import_done', 'removed', 'duplicates_refused', 'unknown_entries', 'wrong_type_refused', 'nulls_refused', 'increments', 'decrements', 'sets', 'disabled', 'listeners'], leaks=True, **PB)
prop('C16', [G + 'instruction.cc'] + ARCH, 'random typed source accesses through every type; scalar and vector helpers over mixed types, random lengths, latencies and destination/source aliasing; non-trivial: every case',
     ['typed_reads', 'scalar_ops', 'vector_ops', 'same_type_ops'], leaks=True, **PB)

MEMB = [G + 'instruction.cc'] + ARCH
prop('C17', [M + 'flat_memory.cc', M + 'flat_demand_memory.cc'] + MEMB, 'random histories of plain, gather/scatter and unit-stride loads and stores over flat and demand allocated memories of random base, size, '
     'unit and fill, biased to block boundaries, the ends and recently used addresses; every touched byte and its neighbours are read back; non-trivial: at least one byte stored',
     ['loads', 'stores', 'gathers', 'scatters', 'unit_stride_loads', 'unit_stride_stores', 'delayed_executions', 'immediate_executions', 'block_crossings', 'multi_byte_units', 'clears', 'final_reads'], leaks=True, **PB)

prop('C18', [M + x for x in ('flat_memory.cc', 'flat_demand_memory.cc', 'tagged_flat_demand_memory.cc', 'tagged_to_untagged_memory_transactor.cc')] + MEMB,
     'random histories of tagged, plain and vector accesses over tagged memories of random granule, unit, base and size, misaligned tagged requests, and the untagged adapter; every tag ever set is read back; non-trivial: something stored',
     ['tagged_loads', 'tag_only_loads', 'tagged_stores', 'tags_set', 'tags_clear', 'tags_cleared_by_store', 'tags_cleared_by_vector', 'refused', 'delayed_executions', 'unit_stride_stores'], leaks=True, **PB)
prop('C19', [M + x for x in ('atomic_memory.cc', 'atomic_tagged_memory.cc', 'flat_demand_memory.cc', 'tagged_flat_demand_memory.cc')] + MEMB,
     'random interleavings of load linked, store conditional, all atomic operations (boundary values, all sizes, unaligned), plain, vector and tagged accesses over a few shared granules; reservations are probed at the end; non-trivial: every case',
     ['load_linked', 'sc_success', 'sc_fail', 'reservations_broken', 'atomic_ops', 'bad_sizes', 'stores', 'scatters', 'unit_stride_stores', 'tagged_stores', 'tagged_loads'], leaks=True, **PB)
prop('C20', [M + x for x in ('memory_watcher.cc', 'tagged_memory_watcher.cc', 'flat_demand_memory.cc', 'tagged_flat_demand_memory.cc')] + MEMB,
     'random sets of load and store watches set and cleared while plain, vector and tagged accesses run through the watcher into a recording memory; non-trivial: more than one watch set',
     ['set', 'set_refused', 'cleared', 'clear_unknown', 'load_hits', 'store_hits', 'multi_hits', 'misses', 'gathers', 'scatters', 'unit_stride_loads', 'unit_stride_stores', 'tagged_accesses'], leaks=True, **PB)

prop('C21', [M + x for x in ('single_initiator_router.cc', 'memory_router.cc', 'atomic_memory.cc', 'flat_demand_memory.cc', 'tagged_flat_demand_memory.cc')] + MEMB,
     'random maps of plain, tagged and atomic targets (adjacent, overlapping, inverted, duplicate ranges, defaults) and accesses biased to range edges, through single routers and through multi-initiator routers with '
     'shared targets; every access is compared with the routing model and the data with one reference memory per target; non-trivial: every case / at least one target',
     ['routed', 'unrouted', 'mapped', 'map_refused', 'defaults', 'all_masked', 'gathers', 'scatters', 'unit_stride_loads', 'unit_stride_stores', 'tagged_loads', 'tagged_stores', 'atomic_ops', 'initiators', 'targets', 'duplicate_targets'], leaks=True, **PB)

prop('C22', [M + x for x in ('cache.cc', 'flat_demand_memory.cc', 'tagged_flat_demand_memory.cc')] + MEMB,
     'random valid and malformed configurations (size, line, ways, allocation, cacheable ranges) and access streams of every kind through the cache; each counter compared with an LRU reference after every access and all data with a '
     'reference memory; non-trivial: every case',
     ['configured', 'config_refused', 'read_hit', 'read_miss', 'write_hit', 'write_miss', 'dirty_line_writeback', 'write_around', 'read_non_cacheable', 'write_non_cacheable', 'unit_stride_loads', 'scatters', 'tagged_loads', 'tag_only_loads', 'tagged_stores', 'delayed_executions'], leaks=True, **PB)
prop('C23', [M + x for x in ('memory_use_profiler.cc', 'flat_demand_memory.cc', 'tagged_flat_demand_memory.cc')] + MEMB,
     'random accesses of every kind and size around segment boundaries and the ends of the address space, with profiling switched on and off; the written profile is compared with the set of touched words; non-trivial: more than one word',
     ['profiles', 'enabled', 'disabled', 'words', 'segment_runs', 'gathers', 'unit_stride_stores', 'tagged_accesses'], leaks=True, **PB)

UT = 'mpact/sim/util/'
prop('C24', [], 'random interleavings of writing, peer sends, reads through several stream interfaces, failing reads and writes, ends and early closes over socket pairs, all byte values; non-trivial: every case',
     ['written', 'read', 'failed_reads', 'failed_writes', 'read_to_end', 'eof_overflows', 'streams'], leaks=True)
prop('C25', [UT + 'other/' + x for x in ('instruction_profiler.cc', 'simple_uart.cc')] + [UT + 'program_loader/elf_program_loader.cc', M + 'memory_watcher.cc', M + 'flat_demand_memory.cc'] + MEMB,
     'random executable segments and samples at their edges; random register accesses to the uart; random log histories; non-trivial: two ranges / something sent / every log history',
     ['samples', 'outside_samples', 'ranges', 'profiles', 'reg_reads', 'reg_writes', 'bad_loads', 'bad_stores', 'sent', 'messages', 'resets'], leaks=True, **PB)
prop('C26', [UT + 'program_loader/elf_program_loader.cc', M + 'flat_demand_memory.cc'] + MEMB,
     'random well formed 32 and 64 bit ELF files (segments of every type, several symbol tables, aliases, empty functions), broken files, repeated loads, through each kind of loader with injected write errors; non-trivial: a segment written',
     ['segments', 'symbols', 'functions', 'no_function', 'stacks', 'write_errors', 'broken_refused'], leaks=True, **PB)
prop('C27', [UT + 'asm/simple_assembler.cc', UT + 'asm/resolver.cc'],
     'random sources over all directives, labels, comments, continuations and a toy instruction set, with injected errors, as 32 and 64 bit executables and relocatable files; the written file is parsed independently; non-trivial: a file was made',
     ['statements', 'refused', 'executables', 'relocatables', 'symbols', 'relocations', 'bytes', 'continued', 'undefined_refused', 'second_pass_refused', 'outside_refused'], leaks=True, libs=['-lpcre2-8'])

BF = [D + x for x in ('bin_decoder.cc', 'bin_encoding_info.cc', 'bin_format_visitor.cc', 'decoder_error_listener.cc', 'encoding_group.cc', 'extract.cc', 'format.cc', 'format_name.cc',
                      'instruction_encoding.cc', 'instruction_group.cc', 'overlay.cc')]
prop('C28', BF, 'every description is accepted and compiles; the decoded instruction and format are among those the interpreter of the description finds for the word (kNone if none, specializations first); recorded encodings carry the fixed bits', ['decoded', 'undecodable', 'ambiguous', 'specialized', 'exhaustive_groups', 'encodings'], leaks=True, antlr=True, libs=['-lpcre2-8', '-ldl'])
prop('C29', BF, 'every description compiles; each extractor and inserter, also those promoted to base formats, agrees with the bit-vector model of the format', ['field_extracts', 'overlay_extracts', 'format_extracts', 'field_inserts', 'overlay_inserts', 'format_inserts', 'promoted', 'not_promoted', 'negative', 'wide', 'packed'],
     leaks=True, antlr=True, libs=['-lpcre2-8', '-ldl'])
prop('C30', BF, 'a description with one planted error of 54 kinds is refused and nothing is written, one without is accepted; randomly edited descriptions get some verdict without a crash, undefined behaviour or leak', ['refused', 'accepted', 'standard_input', 'edited_accepted', 'edited_refused'], leaks=True, antlr=True, libs=['-lpcre2-8', '-ldl'])
ISA = [D + x for x in ('instruction_set_visitor.cc', 'instruction_set.cc', 'slot.cc', 'opcode.cc', 'bundle.cc', 'instruction.cc', 'resource.cc', 'template_expression.cc', 'format_name.cc',
                       'decoder_error_listener.cc')] + [G + 'instruction.cc'] + [a for a in ARCH if a != G + 'instruction.cc']
prop('C35', ISA,
     'every description is accepted, and its code compiles; the enumerations hold exactly the names in use; the decoder of each slot and of the whole instruction set, driven with every opcode (and none), builds instructions whose size, address, operands (name, kind, number, latency), children, semantic functions, resources, attributes and disassembly are those the description gives them',
     ['descriptions', 'version_2', 'compiled', 'enumerations', 'instructions', 'defaults', 'words', 'several_slots', 'children', 'simple_resources', 'complex_resources', 'list_resources'], leaks=True, antlr=True, proto=True, libs=['-lprotobuf', '-lpcre2-8', '-ldl'])
prop('C36', ISA, 'a description with one planted error of 100 kinds is refused and nothing is written, one without is accepted; randomly edited descriptions get some verdict without a crash, undefined behaviour or endless loop',
     ['refused', 'accepted', 'standard_input', 'edited_accepted', 'edited_refused'], antlr=True, proto=True, libs=['-lprotobuf', '-lpcre2-8', '-ldl'])

PF = [D + x for x in ('proto_format_visitor.cc', 'proto_encoding_group.cc', 'proto_encoding_info.cc', 'proto_instruction_decoder.cc', 'proto_instruction_encoding.cc', 'proto_instruction_group.cc',
                      'proto_constraint_expression.cc', 'proto_constraint_value_set.cc', 'decoder_error_listener.cc', 'format_name.cc')]
prop('C37', PF, 'every description is accepted and compiles; for random and nearly matching messages the decoder returns the one instruction whose constraints hold (kNone if none) and sets exactly the values of its setters; value sets agree with a model of intervals',
     ['descriptions', 'compiled', 'decoded', 'undecodable', 'set', 'not_set', 'defaulted', 'present', 'merged_groups', 'included', 'unions', 'disjoint', 'overlapping'], antlr=True, libs=['-lprotoc', '-lprotobuf', '-lpcre2-8', '-ldl'])
prop('C38', PF, 'descriptions with one of some 50 planted errors (or a valid variant) and randomly edited ones, each given to the generator in a process of its own',
     ['refused', 'accepted', 'edited_refused', 'edited_accepted'], antlr=True, libs=['-lprotoc', '-lprotobuf', '-lpcre2-8', '-ldl'])

prop('C31', [UT + 'gdbserver/gdbserver.cc', G + 'data_buffer.cc'],
     'random debugger sessions (all packets the server knows, escapes, damaged and repeated packets, acknowledged and not, faults of the core, several connections) against a model of the core; hostile byte streams and disconnections; non-trivial: every case',
     ['commands', 'damaged', 'resent', 'escaped', 'no_ack_mode', 'errors', 'continued', 'continued_after_done', 'continued_while_running', 'vcont', 'bad_vcont', 'stepped', 'registers_read', 'registers_written', 'register_reads', 'register_writes', 'bad_register_writes', 'register_gaps',
      'memory_reads', 'memory_writes', 'bad_memory_writes', 'bad_threads', 'other_threads', 'descriptions', 'breakpoints_set', 'breakpoints_cleared', 'detached', 'killed', 'never_acknowledged', 'left_in_the_middle', 'disconnected', 'reconnects', 'connect_faults', 'foreign_files', 'hostile_packets', 'long_packets', 'survived'],
     leaks=True, proto=True, libs=['-lprotobuf', '-lpcre2-8', '-Wl,--wrap=socket', '-Wl,--wrap=bind', '-Wl,--wrap=listen', '-Wl,--wrap=accept', '-lpthread'])
RN = UT + 'renode/'
prop('C32', [RN + 'renode_mpact.cc', RN + 'renode_memory_access.cc', G + 'instruction.cc'] + ARCH,
     'random histories of the C interface (construct, connect, destruct, registers, memory, images, programs, configuration, interrupts, steps) over up to six instances, with failing simulators, dead and reused instance numbers, missing buses; non-trivial: every case',
     ['constructs', 'refused_constructs', 'connects', 'connects_again', 'connects_reused_number', 'destructs', 'register_infos', 'programs', 'images', 'image_too_large', 'register_reads', 'register_writes', 'memory_accesses', 'configurations', 'irqs',
      'bus_reads', 'bus_writes', 'loads_without_bus', 'stores_without_bus', 'steps', 'steps_aborted', 'steps_to_breakpoint', 'steps_beyond_32_bits', 'delayed_executions'],
     leaks=True, proto=True, libs=['-lprotobuf'])
prop('C33', [RN + 'renode_cli_top.cc', RN + 'cli_forwarder.cc', G + 'data_buffer.cc'],
     'a Renode thread, a command line thread and a thread asking for halts drive one arbiter over an unprotected simulator, with random quanta, breakpoints, program ends, failing steps, connections and delays at every lock operation; non-trivial: control changed hands more than once',
     ['quanta', 'sessions', 'cli_steps', 'cli_steps_to_breakpoint', 'cli_steps_to_end', 'runs', 'halt_requests', 'program_done', 'refused_after_end', 'failed_steps', 'renode_registers', 'renode_memory', 'cli_registers', 'cli_memory', 'cli_breakpoints', 'cli_instructions', 'cli_status', 'changes_of_control'],
     san='tsan', flags=['-I' + VERIF + '/shim_ts'], case_limit=30, proto=True, libs=['-lprotobuf'])
prop('C34', [RN + 'socket_cli.cc'],
     'a command line on a local socket with a client that converses (any bytes, both line ends, in pieces), never comes, stays silent, leaves, leaves in the middle of an answer, or arrives while the object is destroyed; failing socket calls; non-trivial: every case',
     ['sessions', 'lines', 'quits', 'left', 'left_in_the_middle', 'stopped_while_connected', 'connected_while_stopping', 'never_connected', 'bad_ports', 'faults', 'accept_faults', 'descriptors'],
     san='tsan', flags=['-I' + VERIF + '/shim_ts'], case_limit=60, proto=True, libs=['-lprotobuf'] + ['-Wl,--wrap=' + f for f in ('close', 'dup', 'socket', 'setsockopt', 'bind', 'listen', 'accept', 'accept4')])
